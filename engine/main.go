package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"go/constant"
	"math"
	"os"
	"os/signal"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"golang.org/x/tools/go/ssa"
)

var harnessRe = regexp.MustCompile(`(?m)^func (VH_(P\d\d)_\w+)\(\)`)

type finding struct{ prop, id, text string }

func readFindings(root string) []finding {
	var r []finding
	f, err := os.Open(filepath.Join(root, "known-findings.txt"))
	if err != nil {
		return nil
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "known:") {
			continue
		}
		fd := finding{}
		var rest []string
		for _, w := range strings.Fields(strings.TrimPrefix(l, "known:")) {
			switch {
			case strings.HasPrefix(w, "property=") && fd.prop == "":
				fd.prop = strings.TrimPrefix(w, "property=")
			case strings.HasPrefix(w, "id=") && fd.id == "":
				fd.id = strings.TrimPrefix(w, "id=")
			default:
				rest = append(rest, w)
			}
		}
		fd.text = strings.Join(rest, " ")
		r = append(r, fd)
	}
	return r
}

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(2)
}

func main() {
	t0 := time.Now()
	repo := flag.String("repo", "/repo", "repository under test")
	root := flag.String("root", "/verif", "this framework")
	tier := flag.String("tier", "", "quick or thorough")
	only := flag.String("only", "", "regexp of harness names")
	budget := flag.Int("budget", 0, "seconds of exploration")
	workers := flag.Int("workers", 8, "parallel workers")
	dev := flag.Bool("dev", false, "print everything, do not stop early")
	plog := flag.String("pathlog", "", "write one line per path")
	noev := flag.Bool("noevidence", false, "do not write evidence")
	replay := flag.String("replay", "", "run the inputs of a replay file on the real code")
	flag.Parse()
	var rp struct {
		Property, Harness string
		Inputs            map[string]interface{}
		Tier, Kind        string
	}
	if *replay != "" {
		b, err := os.ReadFile(*replay)
		if err != nil || json.Unmarshal(b, &rp) != nil {
			die("cannot read %s: %v", *replay, err)
		}
		*only, *tier = "^"+rp.Harness+"$", rp.Tier
		flag.CommandLine.Parse([]string{rp.Property})
	}
	if flag.NArg() != 1 {
		die("usage: engine [flags] PROPERTY")
	}
	prop := flag.Arg(0)
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
		if *tier != "thorough" {
			*tier = "quick"
		}
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if *budget == 0 {
		*budget = 240
		if *tier == "thorough" {
			*budget = 720
		}
	}
	work, err := os.MkdirTemp("", "vengine")
	if err != nil {
		die("%v", err)
	}
	cleanup := func() { os.RemoveAll(work) }
	defer cleanup()
	sig := make(chan os.Signal, 1)
	signal.Notify(sig, os.Interrupt, syscall.SIGTERM)
	go func() {
		<-sig
		cleanup()
		os.Exit(2)
	}()
	if *plog != "" {
		pathLog, _ = os.Create(*plog)
	}
	// which harness packages does the property need?
	files, err := harnessFiles(*root, *repo, work)
	if err != nil {
		die("%v", err)
	}
	pkgs := map[string][]string{}
	want := map[string]bool{}
	for dst, src := range files {
		b, err := os.ReadFile(src)
		if err != nil {
			die("%v", err)
		}
		for _, mm := range harnessRe.FindAllStringSubmatch(string(b), -1) {
			if mm[2] != prop || (*tier == "quick" && strings.HasSuffix(mm[1], "_T")) {
				continue
			}
			if *only != "" && !regexp.MustCompile(*only).MatchString(mm[1]) {
				continue
			}
			rel, _ := filepath.Rel(*repo, filepath.Dir(dst))
			p := modPath + "/" + rel
			pkgs[p] = append(pkgs[p], mm[1])
			want[mm[1]] = true
		}
	}
	if len(pkgs) == 0 {
		die("no harness for %s", prop)
	}
	conf := LoadConf{Repo: *repo, Root: *root, Work: work}
	for p := range pkgs {
		sort.Strings(pkgs[p])
		conf.Packages = append(conf.Packages, p)
	}
	sort.Strings(conf.Packages)
	w, err := Load(conf)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		cleanup()
		os.Exit(2)
	}
	w.thorough = *tier == "thorough"
	w.deadline = time.Now().Add(time.Duration(*budget) * time.Second)
	// drop harnesses whose file no longer compiles
	for p, hs := range pkgs {
		var keep []string
		for _, h := range hs {
			if w.harness[h] != nil {
				keep = append(keep, h)
			} else {
				fmt.Printf("note: harness %s does not compile against the current tree\n", h)
			}
		}
		pkgs[p] = keep
		if len(keep) == 0 {
			delete(pkgs, p)
		}
	}
	e := &explorer{w: w, known: map[string]bool{}, dev: *dev, nsamples: 8, seed: seed}
	if *tier == "thorough" {
		e.nsamples = 24
	}
	fds := readFindings(*root)
	for _, f := range fds {
		if f.prop == prop {
			e.known[f.id] = true
		}
	}
	e.rep = &replayer{conf: conf, w: w, pkgs: pkgs, tier: *tier}
	for _, p := range sortedKeys(pkgs) {
		for _, h := range pkgs[p] {
			e.hs = append(e.hs, &harnessStat{name: h, fn: w.harness[h]})
		}
	}
	if len(e.hs) == 0 {
		for _, d := range w.dropped {
			fmt.Fprintln(os.Stderr, d)
		}
		cleanup()
		fmt.Fprintln(os.Stderr, "no harness of this property compiles against the current tree")
		os.Exit(2)
	}
	if *replay != "" {
		r := e.rep.runViolation(rp.Harness, violation{kind: rp.Kind, replay: rp.Inputs}, 60)
		fmt.Printf("%s on the real code: %s %s %s\n", rp.Harness, r.kind, r.label, r.detail)
		for _, o := range r.obs {
			fmt.Printf("  observed %s = %s\n", o.Name, o.Val)
		}
		cleanup()
		if r.bad() {
			os.Exit(1)
		}
		os.Exit(0)
	}
	bd := make(chan error, 1)
	go func() { _, err := e.rep.binary(false, false); bd <- err }()
	e.run(*workers)
	if err := <-bd; err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
	if e.alarm == nil {
		e.validate()
	}
	code := e.report(prop, *tier, *root, seed, t0, *noev)
	cleanup()
	os.Exit(code)
}

// validate runs sampled paths natively and compares what they observe.
func (e *explorer) validate() {
	type job struct {
		h *harnessStat
		p *pathResult
	}
	jobs := make(chan job, 1000)
	done := make(chan bool)
	for i := 0; i < 8; i++ {
		go func() {
			for j := range jobs {
				r := e.rep.run(j.h.name, j.p.sample, 1)
				// the solver found nothing on this path: a busy machine must not be taken for a violation
				for n := 0; n < 2 && r.bad() && r.kind != "race"; n++ {
					r = e.rep.run(j.h.name, j.p.sample, 1)
				}
				e.mu.Lock()
				switch {
				case r.kind == "ok":
					j.h.validated++
					if d := diffObs(j.p.obs, r.obs); d != "" {
						in, _ := json.Marshal(j.p.sample)
						j.h.mismatch = append(j.h.mismatch, d+" input "+string(in))
					}
				case r.bad():
					v := violation{label: r.label, kind: r.kind, detail: "native run of an explored path: " + r.detail, replay: j.p.sample}
					if r.kind == "known" {
						v.known = r.detail
					}
					key := v.kind + "|" + v.label + "|" + v.known
					if j.h.viols[key] == nil {
						c := &violCand{v: v, count: 1}
						j.h.viols[key] = c
						e.mu.Unlock()
						e.accept(j.h, c, v, r)
						e.mu.Lock()
					}
				default:
					in, _ := json.Marshal(j.p.sample)
					j.h.mismatch = append(j.h.mismatch, r.kind+" "+r.detail+" input "+string(in))
				}
				e.mu.Unlock()
			}
			done <- true
		}()
	}
	for _, h := range e.hs {
		for _, p := range h.samples {
			jobs <- job{h, p}
		}
	}
	close(jobs)
	for i := 0; i < 8; i++ {
		<-done
	}
}

func diffObs(a, b []obsOut) string {
	for i := range a {
		if i >= len(b) {
			return fmt.Sprintf("observation %s missing natively", a[i].Name)
		}
		if a[i] != b[i] {
			return fmt.Sprintf("observation %s: engine %s, native %s %s", a[i].Name, a[i].Val, b[i].Name, b[i].Val)
		}
	}
	if len(b) > len(a) {
		return fmt.Sprintf("extra native observation %s", b[len(a)].Name)
	}
	return ""
}

// labels lists the obligations and cover points written in a harness and its local helpers.
func (w *World) labels(fn *ssa.Function, seen map[*ssa.Function]bool, asserts, covers map[string]bool) {
	if seen[fn] || fn == nil {
		return
	}
	seen[fn] = true
	for _, a := range fn.AnonFuncs {
		w.labels(a, seen, asserts, covers)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			c := ci.Common().StaticCallee()
			if c == nil {
				continue
			}
			if c.Pkg != nil && strings.HasSuffix(c.Pkg.Pkg.Path(), "zzverif/nd") {
				args := ci.Common().Args
				k := -1
				switch c.Name() {
				case "Assert", "AssertKnown":
					k = 1
				case "Cover":
					k = 0
				}
				if k >= 0 {
					if cs, ok := args[k].(*ssa.Const); ok && cs.Value != nil {
						s := constant.StringVal(cs.Value)
						if c.Name() == "Cover" {
							covers[s] = true
						} else {
							asserts[s] = true
						}
					}
				}
				continue
			}
			if c.Pkg != nil && strings.Contains(c.Pkg.Pkg.Path(), "zzverif") || c.Pkg == fn.Pkg {
				w.labels(c, seen, asserts, covers)
			}
		}
	}
}

func (e *explorer) report(prop, tier, root string, seed int64, t0 time.Time, noev bool) int {
	fds := map[string]string{}
	for _, f := range readFindings(root) {
		if f.prop == prop {
			fds[f.id] = f.text
		}
	}
	os.MkdirAll(filepath.Join(root, "evidence", "replay"), 0o755)
	var paths, branches, replays, obligations, validated, undecided, pendingN int
	var steps int64
	var hrep []interface{}
	var samples []interface{}
	var assumptions []string
	violations := 0
	exit := 0
	printed := map[string]bool{}
	var unconf []interface{}
	for _, h := range e.hs {
		as, cs := map[string]bool{}, map[string]bool{}
		e.w.labels(h.fn, map[*ssa.Function]bool{}, as, cs)
		var unreached []string
		for _, l := range sortedKeys(as) {
			if h.asserts[l] == 0 {
				hit := false
				for _, c := range h.viols {
					hit = hit || c.v.label == l
				}
				if !hit {
					unreached = append(unreached, "assert "+l)
				}
			}
		}
		for _, l := range sortedKeys(cs) {
			if h.covers[l] == 0 {
				unreached = append(unreached, "cover "+l)
			}
		}
		n := 0
		for _, k := range h.paths {
			n += k
		}
		paths += n
		for _, k := range h.asserts {
			obligations += k
		}
		branches += int(h.branches)
		steps += h.steps
		replays += h.replayed
		validated += h.validated
		undecided += h.paths["unsupported"] + h.paths["error"] + h.paths["bound"]
		pendingN += len(h.queue)
		hr := map[string]interface{}{"harness": h.name, "paths": h.paths, "obligations_by_label": h.asserts, "constant_obligations": h.trivial,
			"covers": h.covers, "steps": h.steps, "pending_paths": len(h.queue), "validated_natively": h.validated}
		if len(h.why) > 0 {
			hr["why"] = h.why
		}
		if len(h.unknown) > 0 {
			hr["solver_unknown"] = h.unknown
		}
		if len(unreached) > 0 {
			hr["unreached"] = unreached
		}
		if len(h.mismatch) > 0 {
			hr["validation_mismatch"] = h.mismatch[:min(len(h.mismatch), 3)]
		}
		hrep = append(hrep, hr)
		if len(h.samples) > 0 && len(samples) < 6 {
			s := h.samples[0]
			samples = append(samples, map[string]interface{}{"harness": h.name, "inputs": s.sample, "steps": s.steps, "observed": s.obs})
		}
		if e.dev {
			fmt.Printf("== %s paths=%v oblig=%v covers=%v steps=%d spent=%v pending=%d valid=%d replayed=%d sched=%d\n", h.name, h.paths, h.asserts, h.covers, h.steps, h.spent.Round(time.Millisecond), len(h.queue), h.validated, h.replayed, h.sched)
			for _, k := range sortedKeys(h.why) {
				fmt.Printf("   why %d× %s\n", h.why[k], k)
			}
			if len(h.unknown) > 0 {
				fmt.Printf("   UNKNOWN %v\n", h.unknown)
			}
			if len(unreached) > 0 {
				fmt.Printf("   UNREACHED %v\n", unreached)
			}
			for _, x := range h.mismatch[:min(len(h.mismatch), 3)] {
				fmt.Printf("   MISMATCH %s\n", x)
			}
		}
		for _, k := range sortedKeys(h.viols) {
			c := h.viols[k]
			if e.dev {
				in, _ := json.Marshal(c.v.replay)
				fmt.Printf("   VIOL %s ×%d confirmed=%v known=%q detail=%s (%s) input=%s\n", k, c.count, c.confirmed, c.v.known, c.detail, c.v.detail, in)
			}
			if !c.confirmed {
				unconf = append(unconf, map[string]interface{}{"harness": h.name, "label": c.v.label, "kind": c.v.kind, "detail": c.v.detail, "native": c.detail, "inputs": c.v.replay})
				continue
			}
			if c.v.known != "" {
				if t, ok := fds[c.v.known]; ok {
					if !printed[c.v.known] {
						fmt.Printf("KNOWN-FINDING: property=%s id=%s %s\n", prop, c.v.known, t)
						printed[c.v.known] = true
					}
					continue
				}
			}
			violations++
			exit = 1
			name := regexp.MustCompile(`[^A-Za-z0-9_.-]+`).ReplaceAllString(prop+"-"+h.name+"-"+c.v.kind+"-"+c.v.label, "_")
			if len(name) > 120 {
				name = name[:120]
			}
			f := filepath.Join(root, "evidence", "replay", name+".json")
			j, _ := json.MarshalIndent(map[string]interface{}{"property": prop, "harness": h.name, "label": c.v.label, "kind": c.v.kind, "tier": tier, "detail": c.detail, "inputs": c.v.replay,
				"how": "the inputs make the harness of /verif/harness fail when compiled with the code of /repo: ./run.sh replay " + f}, "", " ")
			os.WriteFile(f, j, 0o644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, f)
			in, _ := json.Marshal(c.v.replay)
			fmt.Printf("  harness %s: %s %q: %s\n  inputs %s\n", h.name, c.v.kind, c.v.label, c.detail, in)
		}
	}
	for id := range fds {
		if !printed[id] && exit == 0 {
			fmt.Printf("note: listed finding %s was not met in this run\n", id)
		}
	}
	assumptions = append(assumptions, "inputs, sizes and histories are limited as written in the harnesses (see bounds) and DESIGN.md",
		"library code outside the repository is executed symbolically from its source or replaced by the models DESIGN.md lists (time, sync, fmt, logging, metrics, tracing)")
	var fn []string
	for _, f := range sortedKeys(e.funcs) {
		if strings.Contains(f, modPath) && !strings.Contains(f, "zzverif") {
			fn = append(fn, f)
		}
	}
	complete := pendingN == 0 && undecided == 0 && e.unknown == 0 && len(e.w.dropped) == 0
	cov := map[string]interface{}{
		"states": paths, "transitions": branches + paths, "traces_validated_against_impl": validated + replays, "samples": samples,
		"exhaustive": complete, "obligations": obligations,
		"meaning":           "states: symbolic execution paths (each stands for all inputs that follow it); transitions: solver-decided branch points plus path ends; obligations: assertions shown to hold for every value on their path; traces_validated_against_impl: paths or counterexamples run again natively on the real code",
		"functions_encoded": fn, "instructions_executed": steps,
		"solver":        map[string]interface{}{"queries": e.queries, "sat": e.sat, "unsat": e.unsat, "unknown": e.unknown, "second_solver": e.fallbacks, "decided_by_path_model": e.modelHits, "seconds": math.Round(e.solverTime.Seconds()*100) / 100},
		"harnesses":     hrep,
		"undecided":     map[string]interface{}{"paths": undecided, "pending": pendingN, "unconfirmed_counterexamples": unconf},
		"load_seconds":  math.Round(e.w.loadTime.Seconds()*10) / 10,
		"bounds":        boundsOf(root, prop),
		"dropped_files": e.w.dropped,
	}
	if len(samples) == 0 {
		cov["samples"] = []interface{}{map[string]interface{}{"note": "every path of this run ended in a violation or was undecided"}}
	}
	ev := map[string]interface{}{"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "assumptions": assumptions,
		"wall_s": math.Round(time.Since(t0).Seconds()*100) / 100, "violations": violations}
	if !noev {
		j, _ := json.MarshalIndent(ev, "", " ")
		os.WriteFile(filepath.Join(root, "evidence", prop+".json"), append(j, '\n'), 0o644)
	}
	if forkLog {
		printForks()
	}
	fmt.Printf("%s: %d paths, %d obligations shown, %d undecided, %d pending, %d solver queries (%.1fs, %d unknown), %d runs on the real code, load %.1fs, total %.1fs, exhaustive within bounds: %v\n",
		prop, paths, obligations, undecided, pendingN, e.queries, e.solverTime.Seconds(), e.unknown, validated+replays, e.w.loadTime.Seconds(), time.Since(t0).Seconds(), complete)
	return exit
}

func boundsOf(root, prop string) interface{} {
	b, err := os.ReadFile(filepath.Join(root, "bounds.json"))
	if err != nil {
		return nil
	}
	var m map[string]interface{}
	if json.Unmarshal(b, &m) != nil {
		return nil
	}
	return m[prop]
}
