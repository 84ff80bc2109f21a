package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/takenet/deckard"

// World is the program under test, shared by the workers.
type World struct {
	prog      *ssa.Program
	pkgs      []*packages.Package
	harness   map[string]*ssa.Function
	initOrder []*ssa.Package

	solverTimeoutMs int
	stepLimit       int
	deadline        time.Time
	stopFlag        bool
	thorough        bool
	mu              sync.Mutex
	initNotes       map[string]string
	rtErr           types.Type
	named           map[string]types.Type
	skipInits       []string
	loadTime        time.Duration
	dropped         []string
	overlayFile     string
	overlayMap      map[string]string
	modfile         string
}

func (w *World) stopped() bool {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.stopFlag || time.Now().After(w.deadline)
}

func (w *World) stop() {
	w.mu.Lock()
	w.stopFlag = true
	w.mu.Unlock()
}

func (w *World) initNote(pkg, s string) {
	w.mu.Lock()
	if w.initNotes == nil {
		w.initNotes = map[string]string{}
	}
	if _, ok := w.initNotes[pkg]; !ok && os.Getenv("VENGINE_TRACE") != "" {
		fmt.Fprintln(os.Stderr, "init of", pkg+":", s)
	}
	w.initNotes[pkg] = s
	w.mu.Unlock()
}

func (w *World) skipInit(path string) bool {
	if path == "internal/strconv" || path == "net/url" {
		return false
	}
	if path == modPath { // protobuf generated registration
		return true
	}
	for _, p := range []string{"google.golang.org/protobuf", "google.golang.org/genproto", "os", "syscall", "net", "crypto", "runtime", "internal/", "reflect", "golang.org/x/net", "golang.org/x/sys", "os/signal", "log"} {
		if path == p || strings.HasPrefix(path, strings.TrimSuffix(p, "/")+"/") {
			return true
		}
	}
	for _, p := range noopPkgs {
		if strings.HasPrefix(path, p) {
			return true
		}
	}
	return false
}

func (w *World) namedType(pkg, name string) types.Type {
	w.mu.Lock()
	defer w.mu.Unlock()
	k := pkg + "." + name
	if t, ok := w.named[k]; ok {
		return t
	}
	p := w.prog.ImportedPackage(pkg)
	if p == nil {
		unsupported("package %s is not loaded", pkg)
	}
	o := p.Pkg.Scope().Lookup(name)
	if o == nil {
		unsupported("type %s.%s", pkg, name)
	}
	if w.named == nil {
		w.named = map[string]types.Type{}
	}
	w.named[k] = o.Type()
	return o.Type()
}

func (w *World) runtimeErrorType() types.Type {
	w.mu.Lock()
	if w.rtErr != nil {
		defer w.mu.Unlock()
		return w.rtErr
	}
	w.mu.Unlock()
	var t types.Type
	func() {
		defer func() { recover() }()
		t = w.namedType("runtime", "errorString")
	}()
	if t == nil {
		t = types.Typ[types.String]
	}
	w.mu.Lock()
	w.rtErr = t
	w.mu.Unlock()
	return t
}

var bodyInfos sync.Map

func (w *World) bodyInfo(fn *ssa.Function) *fnInfo {
	if v, ok := bodyInfos.Load(fn); ok {
		return v.(*fnInfo)
	}
	w.buildPkg(fn.Pkg)
	fi := &fnInfo{idx: map[ssa.Value]int{}, name: fn.String()}
	add := func(v ssa.Value) { fi.idx[v] = fi.n; fi.n++ }
	for _, p := range fn.Params {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	v, _ := bodyInfos.LoadOrStore(fn, fi)
	return v.(*fnInfo)
}

func (w *World) posOf(fr *frame) string {
	if fr == nil {
		return "?"
	}
	return fr.info.name
}

func (m *M) initCaches() {
	m.tcache = map[[2]types.Type]bool{}
	m.mcache = map[methKey]*ssa.Function{}
}

// ---- loading

type LoadConf struct {
	Repo     string
	Root     string // /verif
	Packages []string
	Work     string // scratch directory
}

var mainClause = regexp.MustCompile(`(?m)^package main\b`)

// harnessFiles maps paths below /repo to files of /verif/harness.
// The main package cannot be imported, so it is checked as a copy named hmain.
func harnessFiles(root, repo, work string) (map[string]string, error) {
	m := map[string]string{}
	base := filepath.Join(root, "harness")
	mains, _ := filepath.Glob(filepath.Join(repo, "internal/cmd/deckard/*.go"))
	for _, f := range mains {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		dst := filepath.Join(work, "hmain", filepath.Base(f))
		os.MkdirAll(filepath.Dir(dst), 0o755)
		if err := os.WriteFile(dst, mainClause.ReplaceAll(b, []byte("package hmain")), 0o644); err != nil {
			return nil, err
		}
		m[filepath.Join(repo, "internal/zzverif/hmain", filepath.Base(f))] = dst
	}
	if f, err := genScripts(repo, work); err == nil {
		m[filepath.Join(repo, "internal/zzverif/hredis/scripts_gen.go")] = f
	}
	err := filepath.Walk(base, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(base, p)
		m[filepath.Join(repo, rel)] = p
		return nil
	})
	return m, err
}

func prepareMod(c LoadConf) (string, error) {
	b, err := os.ReadFile(filepath.Join(c.Repo, "go.mod"))
	if err != nil {
		return "", err
	}
	txt := string(b)
	txt = strings.ReplaceAll(txt, "=> ./\n", "=> "+c.Repo+"\n")
	copies, err := copyModules(txt, c.Work)
	if err != nil {
		return "", err
	}
	for _, k := range sortedKeys(copies) {
		txt += fmt.Sprintf("\nreplace %s => %s\n", k, copies[k])
	}
	stubs, _ := os.ReadFile(filepath.Join(c.Root, "stubs", "replace.json"))
	var reps map[string]string
	if err := json.Unmarshal(stubs, &reps); err != nil {
		return "", err
	}
	var keys []string
	for k := range reps {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		txt += fmt.Sprintf("\nreplace %s => %s\n", k, filepath.Join(c.Root, "stubs", reps[k]))
	}
	mf := filepath.Join(c.Work, "go.mod")
	if err := os.WriteFile(mf, []byte(txt), 0o644); err != nil {
		return "", err
	}
	sum, err := os.ReadFile(filepath.Join(c.Repo, "go.sum"))
	if err != nil {
		return "", err
	}
	extra, _ := os.ReadFile(filepath.Join(c.Root, "stubs", "go.sum"))
	return mf, os.WriteFile(filepath.Join(c.Work, "go.sum"), append(sum, extra...), 0o644)
}

func Load(c LoadConf) (*World, error) {
	t0 := time.Now()
	w := &World{harness: map[string]*ssa.Function{}, solverTimeoutMs: 10000, stepLimit: 3_000_000}
	var err error
	w.modfile, err = prepareMod(c)
	if err != nil {
		return nil, err
	}
	files, err := harnessFiles(c.Root, c.Repo, c.Work)
	if err != nil {
		return nil, err
	}
	for attempt := 0; ; attempt++ {
		ov := map[string][]byte{}
		for dst, src := range files {
			b, err := os.ReadFile(src)
			if err != nil {
				return nil, err
			}
			ov[dst] = b
		}
		cfg := &packages.Config{
			Mode:       packages.LoadAllSyntax,
			Dir:        c.Repo,
			Overlay:    ov,
			BuildFlags: []string{"-modfile=" + w.modfile, "-mod=mod", "-tags=math_big_pure_go,purego,noasm"},
			Env:        append(os.Environ(), "GOFLAGS=-mod=mod", "CGO_ENABLED=0", "GOPROXY=off"),
		}
		pkgs, err := packages.Load(cfg, c.Packages...)
		if err != nil {
			return nil, err
		}
		// harness files that no longer type-check are dropped, so that one changed API does not stop the rest
		bad := map[string]string{}
		var fatal []string
		packages.Visit(pkgs, nil, func(p *packages.Package) {
			for _, e := range p.Errors {
				f := e.Pos
				if i := strings.Index(f, ":"); i >= 0 {
					f = f[:i]
				}
				if _, ok := files[f]; ok {
					bad[f] = e.Msg
				} else if strings.HasPrefix(p.PkgPath, modPath) {
					fatal = append(fatal, p.PkgPath+": "+e.Error())
				}
			}
		})
		if len(bad) > 0 && attempt < 4 {
			for f, msg := range bad {
				w.dropped = append(w.dropped, strings.TrimPrefix(f, c.Repo+"/")+": "+msg)
				delete(files, f)
			}
			continue
		}
		if len(fatal) > 0 {
			return nil, fmt.Errorf("cannot type-check: %s (dropped: %s)", strings.Join(fatal[:min(len(fatal), 5)], "; "), strings.Join(w.dropped, "; "))
		}
		w.pkgs = pkgs
		break
	}
	w.overlayMap = files
	prog, spkgs := ssautil.AllPackages(w.pkgs, ssa.InstantiateGenerics)
	w.prog = prog
	for _, p := range spkgs {
		if p == nil {
			continue
		}
		w.buildPkg(p)
		for n, mem := range p.Members {
			if f, ok := mem.(*ssa.Function); ok && strings.HasPrefix(n, "VH_") && f.Signature.Params().Len() == 0 {
				w.harness[n] = f
			}
		}
	}
	// packages of the module in dependency order
	seen := map[*packages.Package]bool{}
	var visit func(p *packages.Package)
	visit = func(p *packages.Package) {
		if seen[p] {
			return
		}
		seen[p] = true
		var ks []string
		for k := range p.Imports {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			visit(p.Imports[k])
		}
		if strings.HasPrefix(p.PkgPath, modPath) {
			if sp := prog.Package(p.Types); sp != nil {
				w.initOrder = append(w.initOrder, sp)
			}
		}
	}
	for _, p := range w.pkgs {
		visit(p)
	}
	w.loadTime = time.Since(t0)
	return w, nil
}
