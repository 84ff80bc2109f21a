package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// replayer runs harnesses natively, compiled with the real code.
type replayer struct {
	conf  LoadConf
	w     *World
	pkgs  map[string][]string // package path -> harness names
	tier  string
	once  sync.Once
	bin   string
	err   error
	ronce sync.Once
	rbin  string
	rerr  error
	jonce [2]sync.Once
	jbin  [2]string
	jerr  [2]error
	n     int64
}

type nativeResult struct {
	kind   string // ok, assert, known, panic, assume, timeout, race, error
	label  string
	detail string
	obs    []obsOut
}

func (r *nativeResult) bad() bool {
	switch r.kind {
	case "assert", "panic", "timeout", "race", "known":
		return true
	}
	return false
}

func (r *nativeResult) confirms(v violation) bool {
	switch v.kind {
	case "assert":
		if v.known != "" {
			return r.kind == "known" && r.detail == v.known || r.kind == "assert" && r.label == v.label
		}
		return r.kind == "assert" || r.kind == "panic"
	case "panic":
		return r.kind == "panic"
	case "deadlock", "nontermination":
		return r.kind == "timeout" || r.kind == "panic"
	case "race":
		return r.kind == "race" || r.kind == "panic" || r.kind == "assert"
	}
	return false
}

// jittered copies the sources that take or release locks with a pause of arbitrary length next to
// each of these calls, for confirming counterexamples that need particular interleavings.
func (r *replayer) jittered(ov map[string]string, dir string) {
	root := filepath.Join(r.conf.Repo, "internal")
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") || ov[p] != "" {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return nil
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, p, src, parser.ParseComments)
		if err != nil {
			return nil
		}
		ins := map[int]string{}
		ast.Inspect(f, func(n ast.Node) bool {
			st, ok := n.(*ast.ExprStmt)
			if !ok {
				return true
			}
			c, ok := st.X.(*ast.CallExpr)
			if !ok || len(c.Args) > 0 {
				return true
			}
			s, ok := c.Fun.(*ast.SelectorExpr)
			if !ok {
				return true
			}
			switch s.Sel.Name {
			case "Lock", "RLock":
				ins[fs.Position(st.Pos()).Offset] = "zznd.Jitter(); "
			case "Unlock", "RUnlock":
				ins[fs.Position(st.End()).Offset] = "; zznd.Jitter()"
			}
			return true
		})
		if len(ins) == 0 {
			return nil
		}
		ins[fs.Position(f.Name.End()).Offset] = "; import zznd \"" + modPath + "/internal/zzverif/nd\""
		var b bytes.Buffer
		for i := range src {
			b.WriteString(ins[i])
			b.WriteByte(src[i])
		}
		d := filepath.Join(dir, fmt.Sprintf("jit%d.go", len(ov)))
		if os.WriteFile(d, b.Bytes(), 0o644) == nil {
			ov[p] = d
		}
		return nil
	})
}

func (r *replayer) build(race, jit bool) (string, error) {
	dir := filepath.Join(r.conf.Work, "native")
	if jit {
		dir = filepath.Join(r.conf.Work, "native-jit")
		if race {
			dir += "-race"
		}
	}
	os.MkdirAll(dir, 0o755)
	var b bytes.Buffer
	b.WriteString("package main\n\nimport (\n\t\"os\"\n\t\"github.com/takenet/deckard/internal/zzverif/nd\"\n")
	var ps []string
	for p := range r.pkgs {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	for i, p := range ps {
		fmt.Fprintf(&b, "\tp%d %q\n", i, p)
	}
	b.WriteString(")\n\nvar all = map[string]func(){\n")
	for i, p := range ps {
		for _, h := range r.pkgs[p] {
			fmt.Fprintf(&b, "\t%q: p%d.%s,\n", h, i, h)
		}
	}
	b.WriteString("}\n\nfunc main() { nd.Run(all[os.Args[1]]) }\n")
	src := filepath.Join(dir, "main.go")
	if err := os.WriteFile(src, b.Bytes(), 0o644); err != nil {
		return "", err
	}
	ov := map[string]string{filepath.Join(r.conf.Repo, "internal/zzverif/run/main.go"): src}
	for d, s := range r.w.overlayMap {
		ov[d] = s
	}
	if jit {
		r.jittered(ov, dir)
	}
	j, _ := json.Marshal(map[string]interface{}{"Replace": ov})
	of := filepath.Join(dir, "overlay.json")
	os.WriteFile(of, j, 0o644)
	out := filepath.Join(dir, "run")
	args := []string{"build", "-overlay", of, "-modfile", r.w.modfile, "-mod=mod", "-trimpath", "-o"}
	env := append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off")
	if race {
		out += "-race"
		args = append(args, out, "-race")
		env = append(env, "CGO_ENABLED=1")
	} else {
		args = append(args, out)
		env = append(env, "CGO_ENABLED=0")
	}
	args = append(args, modPath+"/internal/zzverif/run")
	c := exec.Command("go", args...)
	c.Dir = r.conf.Repo
	c.Env = env
	o, err := c.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("native build failed: %v\n%s", err, o)
	}
	return out, nil
}

func (r *replayer) binary(race, jit bool) (string, error) {
	if jit {
		i := 0
		if race {
			i = 1
		}
		r.jonce[i].Do(func() { r.jbin[i], r.jerr[i] = r.build(race, true) })
		return r.jbin[i], r.jerr[i]
	}
	if race {
		r.ronce.Do(func() { r.rbin, r.rerr = r.build(true, false) })
		return r.rbin, r.rerr
	}
	r.once.Do(func() { r.bin, r.err = r.build(false, false) })
	return r.bin, r.err
}

func (r *replayer) runViolation(h string, v violation, tries int) *nativeResult {
	stop := func(n *nativeResult) bool { return n.confirms(v) }
	race := v.kind == "race"
	if race {
		tries = 25
	}
	n := r.exec(h, v.replay, tries, race, false, stop)
	if stop(n) || !v.sched && !race {
		return n
	}
	if j := r.exec(h, v.replay, 200, race, true, stop); stop(j) {
		return j
	}
	return n
}

func (r *replayer) run(h string, in map[string]interface{}, tries int) *nativeResult {
	return r.exec(h, in, tries, false, false, func(n *nativeResult) bool { return n.bad() })
}

func (r *replayer) exec(h string, in map[string]interface{}, tries int, race, jit bool, stop func(*nativeResult) bool) *nativeResult {
	bin, err := r.binary(race, jit)
	if err != nil {
		return &nativeResult{kind: "error", detail: err.Error()}
	}
	id := atomic.AddInt64(&r.n, 1)
	os.MkdirAll(filepath.Join(r.conf.Work, "native"), 0o755)
	rf := filepath.Join(r.conf.Work, "native", fmt.Sprintf("in%d.json", id))
	of := filepath.Join(r.conf.Work, "native", fmt.Sprintf("out%d.json", id))
	defer os.Remove(rf)
	defer os.Remove(of)
	b, _ := json.Marshal(in)
	if err := os.WriteFile(rf, b, 0o644); err != nil {
		return &nativeResult{kind: "error", detail: err.Error()}
	}
	var res *nativeResult
	t0 := time.Now()
	for i := 0; i < tries; i++ {
		res = r.once1(bin, h, rf, of, 10*time.Second, jit)
		if res.kind == "timeout" && !strings.Contains(res.detail, "deadlock") {
			// the machine may just be busy
			res = r.once1(bin, h, rf, of, 40*time.Second, jit)
		}
		if stop(res) || time.Since(t0) > 25*time.Second {
			return res
		}
	}
	return res
}

func (r *replayer) once1(bin, h, rf, of string, to time.Duration, jit bool) *nativeResult {
	ctx, cancel := context.WithTimeout(context.Background(), to)
	defer cancel()
	os.Remove(of)
	c := exec.CommandContext(ctx, bin, h)
	c.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	c.Dir = filepath.Dir(bin)
	c.Env = append(cleanEnv(), "VERIF_REPLAY="+rf, "VERIF_OUT="+of, "VERIF_TIER="+r.tier, "GORACE=exitcode=66 halt_on_error=1", "GOMEMLIMIT=2GiB")
	if jit {
		c.Env = append(c.Env, "VERIF_JITTER=1")
	}
	var eb bytes.Buffer
	c.Stderr = &eb
	err := c.Run()
	res := &nativeResult{}
	if f, e := os.Open(of); e == nil {
		sc := bufio.NewScanner(f)
		sc.Buffer(make([]byte, 1<<20), 1<<24)
		for sc.Scan() {
			var l []string
			if json.Unmarshal(sc.Bytes(), &l) != nil || len(l) != 3 {
				continue
			}
			switch l[0] {
			case "OBS":
				res.obs = append(res.obs, obsOut{l[1], l[2]})
			case "ASSERT":
				res.kind, res.label = "assert", l[1]
			case "KNOWN":
				res.kind, res.label, res.detail = "known", l[1], l[2]
			case "PANIC":
				res.kind, res.detail = "panic", l[2]
			case "ASSUME":
				res.kind = "assume"
			case "DONE":
				res.kind = "ok"
			case "ERROR":
				res.kind, res.detail = "error", l[2]
			}
		}
		f.Close()
	}
	if res.kind != "" {
		return res
	}
	if ctx.Err() != nil {
		res.kind = "timeout"
		res.detail = fmt.Sprintf("no end within %v", to)
		return res
	}
	se := eb.String()
	switch {
	case strings.Contains(se, "DATA RACE"):
		res.kind = "race"
		res.detail = firstLines(se, 12)
	case strings.Contains(se, "all goroutines are asleep"):
		res.kind = "timeout"
		res.detail = "fatal error: all goroutines are asleep - deadlock!"
	case strings.Contains(se, "panic:") || strings.Contains(se, "fatal error:"):
		res.kind = "panic"
		res.detail = firstLines(se, 6)
	default:
		res.kind = "error"
		res.detail = fmt.Sprintf("%v %s", err, firstLines(se, 6))
	}
	return res
}

func firstLines(s string, n int) string {
	l := strings.Split(strings.TrimSpace(s), "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, " | ")
}

// cleanEnv drops settings that would configure the code under test.
func cleanEnv() []string {
	var r []string
	for _, e := range os.Environ() {
		k := e
		if i := strings.IndexByte(e, '='); i >= 0 {
			k = e[:i]
		}
		switch k {
		case "PATH", "HOME", "TMPDIR", "VERIF_SEED", "GOCACHE":
			r = append(r, e)
		}
	}
	return r
}
