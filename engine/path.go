package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type workItem struct {
	harness *ssa.Function
	prefix  []int32
	model   Model
}

type violation struct {
	label  string
	kind   string // assert | panic | deadlock | race | nontermination
	detail string
	known  string // id of a known finding whose exception holds
	replay map[string]interface{}
	sched  bool
}

type pathResult struct {
	status   string // ok, pruned, violation, unsupported, opaque, bound, error
	why      string
	asserts  map[string]int // label -> obligations decided unsat (or constant true)
	trivial  int
	unknown  []string
	covers   []string
	viols    []violation
	newItems []*workItem
	sample   map[string]interface{} // replay input of the path
	obs      []obsOut
	steps    int
	sched    bool
}

type obsOut struct {
	Name string
	Val  string
}

func NewM(w *World) *M {
	m := &M{w: w}
	m.reset()
	m.sol = NewSolver(w.solverTimeoutMs)
	return m
}

func (m *M) reset() {
	m.st = NewStore()
	m.glob = map[*ssa.Global]*Value{}
	m.cst = map[*ssa.Const]Value{}
	m.init = map[*ssa.Package]int{}
	m.tcache = nil
	m.funcs = map[*ssa.Function]bool{}
	m.initCaches()
	if m.sol != nil {
		m.sol.pathTerms, m.sol.pending = nil, nil
		m.sol.restart()
	}
}

// runPath executes one path.
func (m *M) runPath(it *workItem) *pathResult {
	if len(m.st.tab) > 1_500_000 {
		m.reset()
	}
	res := &pathResult{asserts: map[string]int{}, status: "ok"}
	m.item, m.out = it, res
	m.prefix = it.prefix
	m.dec = m.dec[:0]
	m.model = Model{}
	for k, v := range it.model {
		m.model[k] = v
	}
	m.ev.m = m.model
	m.ev.gen = nextGenSafe()
	m.sol.base = m.model
	m.sol.store = m.st
	m.vars = m.vars[:0]
	m.names = map[string]int{}
	m.choices = map[string]int{}
	m.known = map[*Term]bool{}
	m.steps = 0
	m.limit = m.w.stepLimit
	if strings.Contains(it.harness.Name(), "Large") {
		m.limit *= 20
	}
	m.covers = map[string]bool{}
	m.obs = nil
	m.opaque = false
	m.mapOrd = true
	m.native = false
	m.preempt, m.schedND = 0, false
	m.killing = false
	m.timers, m.now, m.skew = nil, 0, nil
	m.side = map[interface{}]interface{}{}
	m.raceOn = false
	m.shadow = nil
	m.ctrs = map[string]int{}
	m.sol.NewPath()
	main := &Thread{id: 0, wake: make(chan struct{})}
	m.threads = []*Thread{main}
	m.cur = main
	// initialise the packages under test before the path proper
	m.logging = false
	if it.harness.Pkg != nil {
		for _, p := range m.w.initOrder {
			m.ensureInit(p)
		}
		m.ensureInit(it.harness.Pkg)
	}
	m.steps = 0
	m.undo = m.undo[:0]
	m.logging = true
	func() {
		defer func() {
			if r := recover(); r != nil {
				m.pathPanic(r)
			}
		}()
		m.callSSA(nil, it.harness, nil, nil)
	}()
	m.killThreads()
	if res.status == "ok" || res.status == "violation" {
		// vacuity: nothing else
	}
	for i := len(m.undo) - 1; i >= 0; i-- {
		u := m.undo[i]
		if u.f != nil {
			u.f()
		} else {
			*u.p = u.old
		}
	}
	m.undo = m.undo[:0]
	m.logging = false
	for c := range m.covers {
		res.covers = append(res.covers, c)
	}
	sort.Strings(res.covers)
	res.steps = m.steps
	res.sample = m.replayInput(m.model)
	for _, o := range m.obs {
		res.obs = append(res.obs, obsOut{o.name, m.showObs(o.v)})
	}
	res.sched = m.native
	return res
}

func (m *M) pathPanic(r interface{}) {
	res := m.out
	switch r := r.(type) {
	case *targetPanic:
		res.status = "violation"
		m.addViolation("panic", "panic", r.text, "")
	case Unsupported:
		res.status, res.why = "unsupported", r.why
	case pathEnd:
		switch r.why {
		case "assume":
			res.status = "pruned"
		case "violated":
			res.status = "violation"
		case "deadlock":
			res.status = "violation"
			m.addViolation("deadlock", "deadlock", "all goroutines are blocked", "")
		case "step limit", "recursion limit":
			res.status, res.why = "bound", r.why
			m.addViolation("nontermination", "nontermination", r.why, "")
		default:
			res.status, res.why = "bound", r.why
		}
	case killed:
		res.status, res.why = "error", "killed"
	default:
		res.status, res.why = "error", fmt.Sprint(r)+stackOf()
	}
}

func (m *M) addViolation(label, kind, detail, known string) {
	m.out.viols = append(m.out.viols, violation{label: label, kind: kind, detail: detail, known: known, replay: m.replayInput(m.model), sched: m.native})
}

func (m *M) replayInput(md Model) map[string]interface{} {
	r := map[string]interface{}{}
	for _, v := range m.vars {
		n := v.name
		if i := strings.IndexByte(n, '['); i >= 0 {
			n = n[:i]
		}
		x := md[v.name] & mask(v.sort)
		switch {
		case v.sort == SortFP:
			r[n] = fmt.Sprintf("f:%016x", x)
		case v.sort == SortBool:
			r[n] = fmt.Sprintf("i:%d", x)
		default:
			r[n] = fmt.Sprintf("i:%d", sx(x, v.sort))
		}
	}
	for k, c := range m.choices {
		r[k] = fmt.Sprintf("i:%d", c)
	}
	return r
}

func (m *M) eval(t *Term) uint64 { return m.ev.Eval(t) }

func (m *M) setModel(n Model) {
	// keep values of variables the solver did not mention
	md := Model{}
	for k, v := range m.model {
		md[k] = v
	}
	for k, v := range n {
		md[k] = v
	}
	m.model = md
	m.sol.base = md
	m.ev.m = md
	m.ev.gen = nextGenSafe()
}

func (m *M) mergedModel(n Model) Model {
	md := Model{}
	for k, v := range m.model {
		md[k] = v
	}
	for k, v := range n {
		md[k] = v
	}
	return md
}

func (m *M) learn(c *Term) {
	switch c.op {
	case OAnd:
		m.learn(c.args[0])
		m.learn(c.args[1])
	case ONot:
		if c.args[0].op == OOr {
			m.learn(m.st.Not(c.args[0].args[0]))
			m.learn(m.st.Not(c.args[0].args[1]))
			return
		}
		m.known[c.args[0]] = false
	default:
		m.known[c] = true
	}
	if c.op == OAnd || c.op == OOr {
		m.known[c] = true
	}
}

func (m *M) assertPath(c *Term) {
	if c.isTrue() {
		return
	}
	m.learn(c)
	m.sol.Assert(c)
}

func (m *M) simplify(c *Term) *Term {
	if c.isConst() {
		return c
	}
	if v, ok := m.known[c]; ok {
		return m.st.Bool(v)
	}
	switch c.op {
	case ONot:
		return m.st.Not(m.simplify(c.args[0]))
	case OAnd:
		return m.st.And(m.simplify(c.args[0]), m.simplify(c.args[1]))
	case OOr:
		return m.st.Or(m.simplify(c.args[0]), m.simplify(c.args[1]))
	}
	return c
}

// branch decides a condition, leaving the other side as a work item when it is feasible.
func (m *M) branch(c *Term) bool {
	if c.isConst() {
		return c.isTrue()
	}
	c = m.simplify(c)
	if c.isConst() {
		return c.isTrue()
	}
	if !m.logging {
		unsupported("symbolic branch during initialisation")
	}
	idx := len(m.dec)
	if idx < len(m.prefix) {
		d := m.prefix[idx] == 1
		m.dec = append(m.dec, m.prefix[idx])
		if d {
			m.assertPath(c)
		} else {
			m.assertPath(m.st.Not(c))
		}
		return d
	}
	v := m.eval(c) == 1
	taken, other := c, m.st.Not(c)
	od := int32(0)
	if !v {
		taken, other = other, taken
		od = 1
	}
	m.checkBudget()
	r, md := m.sol.Check(other, m.vars)
	if forkLog {
		m.noteFork(r == Sat)
	}
	switch r {
	case Sat:
		m.push(od, m.mergedModel(md))
	case Unknown:
		m.out.unknown = append(m.out.unknown, "branch")
		if len(m.out.unknown) > 20 {
			panic(pathEnd{"solver gave no answer too often"})
		}
	}
	m.dec = append(m.dec, 1-od)
	m.assertPath(taken)
	return v
}

func (m *M) push(d int32, md Model) {
	p := make([]int32, len(m.dec)+1)
	copy(p, m.dec)
	p[len(m.dec)] = d
	m.out.newItems = append(m.out.newItems, &workItem{harness: m.item.harness, prefix: p, model: md})
}

// choose picks one of n options by forking the path.
func (m *M) choose(name string, n int, internal bool) int {
	if n <= 0 {
		unsupported("choice among %d", n)
	}
	name = m.fresh(name)
	k := 0
	idx := len(m.dec)
	switch {
	case idx < len(m.prefix):
		k = int(m.prefix[idx])
	case n > 1:
		if !m.logging {
			unsupported("choice during initialisation")
		}
		if forkLog {
			fmt.Fprintln(os.Stderr, "choose", name, n)
		}
		for i := n - 1; i >= 1; i-- {
			m.push(int32(i), m.model)
		}
	}
	m.dec = append(m.dec, int32(k))
	if internal {
		if n > 1 {
			m.native = true
		}
	} else {
		m.choices[name] = k
	}
	return k
}

func (m *M) fresh(name string) string {
	k := m.names[name]
	m.names[name]++
	if k == 0 {
		return name
	}
	return fmt.Sprintf("%s#%d", name, k)
}

func (m *M) assume(c *Term) {
	if c.isConst() {
		if c.isFalse() {
			panic(pathEnd{"assume"})
		}
		return
	}
	if m.eval(c) != 1 {
		m.checkBudget()
		r, md := m.sol.Check(c, m.vars)
		switch r {
		case Unsat:
			panic(pathEnd{"assume"})
		case Unknown:
			m.out.unknown = append(m.out.unknown, "assume")
			panic(pathEnd{"solver gave no answer for an assumption"})
		}
		m.setModel(md)
	}
	m.assertPath(c)
}

// assertProp decides an obligation; kf/except describe a known finding.
func (m *M) assertProp(c *Term, label string, kf string, except *Term) {
	fresh := len(m.dec) >= len(m.prefix)
	if c.isTrue() {
		if fresh {
			m.out.asserts[label]++
			m.out.trivial++
		}
		return
	}
	if c.isConst() == false {
		c = m.simplify(c)
	}
	if c.isTrue() {
		if fresh {
			m.out.asserts[label]++
			m.out.trivial++
		}
		return
	}
	if except == nil {
		except = m.st.ff
	}
	if fresh {
		m.checkBudget()
		bad := m.st.Not(c)
		r, md := m.check(m.st.And(bad, m.st.Not(except)))
		if r == Sat {
			save := m.model
			m.setModel(md)
			m.addViolation(label, "assert", "assertion is false", "")
			m.model = save
			m.sol.base = save
			m.ev.m, m.ev.gen = save, nextGenSafe()
		}
		if r == Unknown {
			m.out.unknown = append(m.out.unknown, "assert "+label)
		}
		if r == Unsat {
			m.out.asserts[label]++
		}
		if !except.isFalse() {
			r, md := m.check(m.st.And(bad, except))
			if r == Sat {
				save := m.model
				m.setModel(md)
				m.addViolation(label, "assert", "assertion is false", kf)
				m.model = save
				m.sol.base = save
				m.ev.m, m.ev.gen = save, nextGenSafe()
			}
		}
	}
	if c.isFalse() {
		panic(pathEnd{"violated"})
	}
	m.assume(c)
}

func (m *M) check(c *Term) (Result, Model) {
	if c.isFalse() {
		return Unsat, nil
	}
	if m.eval(c) == 1 {
		// the current model of the path is already a counterexample
		m.sol.ModelHits++
		return Sat, Model{}
	}
	return m.sol.Check(c, m.vars)
}

func (m *M) checkBudget() {
	if m.w.stopped() {
		panic(pathEnd{"time budget"})
	}
}

func (m *M) opaqueUse() {
	unsupported("text formatted from symbolic data is inspected")
}

func (m *M) showObs(v Value) string {
	switch v := v.(type) {
	case *Term:
		x := m.eval(v)
		if v.sort == SortFP {
			return fmt.Sprintf("f:%016x", canonBits(x))
		}
		if v.sort == SortBool {
			return fmt.Sprintf("b:%v", x == 1)
		}
		return fmt.Sprintf("i:%d", sx(x, v.sort))
	case Str:
		return fmt.Sprintf("s:%q", m.strModel(v))
	case Iface:
		return m.showObs(v.v)
	}
	return fmt.Sprintf("?%T", v)
}

func canonBits(x uint64) uint64 {
	if isNaNBits(x) {
		return 0x7ff8000000000001
	}
	return x
}

var startTime = time.Now()

// with VENGINE_FORKS, where paths fork is counted
var forkLog = os.Getenv("VENGINE_FORKS") != ""
var forkMu sync.Mutex
var forks = map[string][2]int{}

func (m *M) noteFork(sat bool) {
	s := ""
	n := 0
	for f := m.at; f != nil && n < 4; f, n = f.caller, n+1 {
		s += " < " + f.fn.String()
		if n == 0 && len(f.block.Instrs) > 0 {
			for i := len(f.block.Instrs) - 1; i >= 0; i-- {
				if p := f.block.Instrs[i].Pos(); p.IsValid() {
					s += fmt.Sprint(":", f.fn.Prog.Fset.Position(p).Line)
					break
				}
			}
		}
	}
	forkMu.Lock()
	c := forks[s]
	c[0]++
	if sat {
		c[1]++
	}
	forks[s] = c
	forkMu.Unlock()
}

func printForks() {
	var ks []string
	for k := range forks {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return forks[ks[i]][0] > forks[ks[j]][0] })
	for i, k := range ks {
		if i < 40 {
			fmt.Println("FORK", forks[k], k)
		}
	}
}
