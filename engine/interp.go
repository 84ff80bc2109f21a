package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"os"
	"strings"
	"sync"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type undoRec struct {
	p   *Value
	old Value
	f   func()
}

// M is one symbolic machine (one per worker).
type M struct {
	w    *World
	st   *Store
	sol  *Solver
	ev   Evaluator
	glob map[*ssa.Global]*Value
	cst  map[*ssa.Const]Value
	init map[*ssa.Package]int // 1 running, 2 done

	logging bool
	undo    []undoRec
	nmaps   int

	// current path
	prefix  []int32
	dec     []int32
	model   Model
	vars    []*Term
	names   map[string]int
	choices map[string]int
	known   map[*Term]bool
	steps   int
	limit   int
	events  []pathEvent
	covers  map[string]bool
	obs     []obsRec
	opaque  bool
	item    *workItem
	out     *pathResult
	mapOrd  bool
	native  bool // the path needed something the replay cannot control

	// threads
	threads    []*Thread
	cur        *Thread
	at         *frame // with VENGINE_FORKS
	preempt    int
	schedND    bool
	killing    bool
	timers     []*timerRec
	now        int64
	skew       *Term // what nd.Skip added to the clock
	side       map[interface{}]interface{}
	raceOn     bool
	shadow     map[interface{}]*shadowCell
	ctrs       map[string]int
	mainResult chan interface{}

	funcs  map[*ssa.Function]bool
	tcache map[[2]types.Type]bool
	mcache map[methKey]*ssa.Function
	xscr   int
}

type methKey struct {
	t types.Type
	f *types.Func
}

type pathEvent struct {
	kind string
	text string
}

type obsRec struct {
	name string
	v    Value
	typ  types.Type
}

type targetPanic struct {
	v    Value // interface value
	text string
	rt   bool
}

type deferred struct {
	fn   Value
	args []Value
	cc   *ssa.CallCommon
	inv  *ssa.Function
}

var traceUnsupported = os.Getenv("VENGINE_TRACE") != ""

type frame struct {
	lenient   bool
	fn        *ssa.Function
	info      *fnInfo
	regs      []Value
	defers    []deferred
	result    Value
	panicking *targetPanic
	isDefer   bool
	caller    *frame
	block     *ssa.BasicBlock
	prev      *ssa.BasicBlock
	env       []Value
	depth     int
}

type intrinsic func(m *M, fr *frame, fn *ssa.Function, args []Value) Value

type fnInfo struct {
	idx      map[ssa.Value]int
	n        int
	hasDefer bool
	intr     intrinsic
	repo     bool // function of the code under test
	harness  bool
	name     string
}

var fnInfos sync.Map

// SSA of dependencies is built when first needed; nobody reads a body that is being built.
var (
	buildMu sync.Mutex
	built   sync.Map
)

func (w *World) buildPkg(p *ssa.Package) {
	if p == nil {
		return
	}
	if _, ok := built.Load(p); ok {
		return
	}
	buildMu.Lock()
	p.Build()
	built.Store(p, true)
	buildMu.Unlock()
}

func (w *World) info(fn *ssa.Function) *fnInfo {
	if v, ok := fnInfos.Load(fn); ok {
		return v.(*fnInfo)
	}
	fi := &fnInfo{idx: map[ssa.Value]int{}}
	o := fn
	if fn.Origin() != nil {
		o = fn.Origin()
	}
	fi.name = o.String()
	fi.intr = w.lookupIntrinsic(o)
	pkg := o.Pkg
	for p := o; pkg == nil && p != nil; p = p.Parent() {
		pkg = p.Pkg
	}
	if pkg != nil {
		path := pkg.Pkg.Path()
		if strings.HasPrefix(path, modPath) {
			if strings.Contains(path, "/zzverif") || strings.Contains(w.prog.Fset.Position(fn.Pos()).Filename, "zz_verif") {
				fi.harness = true
			} else {
				fi.repo = true
			}
		}
	}
	if fi.intr == nil {
		w.buildPkg(pkg)
		add := func(v ssa.Value) {
			fi.idx[v] = fi.n
			fi.n++
		}
		for _, p := range fn.Params {
			add(p)
		}
		for _, p := range fn.FreeVars {
			add(p)
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if v, ok := in.(ssa.Value); ok {
					add(v)
				}
				if _, ok := in.(*ssa.Defer); ok {
					fi.hasDefer = true
				}
			}
		}
		if fn.Recover != nil {
			fi.hasDefer = true
		}
	}
	v, _ := fnInfos.LoadOrStore(fn, fi)
	return v.(*fnInfo)
}

// ---- panics of the program under test

func (m *M) goPanic(text string) {
	panic(&targetPanic{v: Iface{t: m.w.runtimeErrorType(), v: Str{s: strings.TrimPrefix(text, "runtime error: ")}}, text: text, rt: true})
}

// ---- evaluation of operands

func (m *M) get(fr *frame, v ssa.Value) Value {
	switch v := v.(type) {
	case *ssa.Const:
		if c, ok := m.cst[v]; ok {
			return c
		}
		c := m.constVal(v)
		m.cst[v] = c
		return c
	case *ssa.Global:
		return m.global(v)
	case *ssa.Function:
		return v
	case *ssa.Builtin:
		return v
	}
	i, ok := fr.info.idx[v]
	if !ok {
		unsupported("no register for %s in %s", v.Name(), fr.fn)
	}
	return fr.regs[i]
}

func (m *M) global(g *ssa.Global) *Value {
	if p, ok := m.glob[g]; ok {
		return p
	}
	m.ensureInit(g.Pkg)
	if p, ok := m.glob[g]; ok {
		return p
	}
	v := m.zero(g.Type().Underlying().(*types.Pointer).Elem())
	p := &v
	m.glob[g] = p
	return p
}

// ensureInit runs the initialisation of a package the first time one of its variables is touched.
func (m *M) ensureInit(pkg *ssa.Package) {
	if pkg == nil || m.init[pkg] != 0 {
		return
	}
	m.init[pkg] = 1
	m.w.buildPkg(pkg)
	for _, mem := range pkg.Members {
		if g, ok := mem.(*ssa.Global); ok {
			if _, ok := m.glob[g]; !ok {
				v := m.zero(g.Type().Underlying().(*types.Pointer).Elem())
				m.glob[g] = &v
			}
		}
	}
	if m.w.skipInit(pkg.Pkg.Path()) {
		m.init[pkg] = 2
		return
	}
	init := pkg.Func("init")
	if init != nil {
		saveLog, saveLim, saveSteps := m.logging, m.limit, m.steps
		saveCur := m.cur
		m.logging = false
		m.limit = 50_000_000
		m.steps = 0
		func() {
			defer func() {
				if r := recover(); r != nil {
					switch r := r.(type) {
					case *targetPanic:
						m.w.initNote(pkg.Pkg.Path(), "panic "+r.text)
					case Unsupported:
						m.w.initNote(pkg.Pkg.Path(), "unsupported "+r.why)
					case pathEnd:
						m.w.initNote(pkg.Pkg.Path(), r.why)
					default:
						panic(r)
					}
				}
			}()
			m.callSSA(nil, init, nil, nil)
		}()
		m.logging, m.limit, m.steps, m.cur = saveLog, saveLim, saveSteps, saveCur
	}
	m.init[pkg] = 2
}

func (m *M) constVal(c *ssa.Const) Value {
	if c.Value == nil {
		return m.zero(c.Type())
	}
	t := c.Type().Underlying()
	b, ok := t.(*types.Basic)
	if !ok {
		unsupported("constant of type %s", c.Type())
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return m.st.Bool(constant.BoolVal(c.Value))
	case b.Info()&types.IsInteger != 0:
		w := intWidth(b)
		if v, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
			return m.st.Const(w, uint64(v))
		}
		v, _ := constant.Uint64Val(constant.ToInt(c.Value))
		return m.st.Const(w, v)
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(constant.ToFloat(c.Value))
		return m.st.F64(f)
	case b.Info()&types.IsString != 0:
		if c.Value.Kind() == constant.String {
			return Str{s: constant.StringVal(c.Value)}
		}
		i, _ := constant.Int64Val(c.Value)
		return Str{s: string(rune(i))}
	}
	return Unsupported{"constant " + c.String()}
}

// ---- calls

func (m *M) call(fr *frame, fv Value, args []Value) Value {
	switch f := fv.(type) {
	case *ssa.Function:
		if f == nil {
			m.goPanic("runtime error: invalid memory address or nil pointer dereference")
		}
		return m.callSSA(fr, f, args, nil)
	case *Closure:
		return m.callSSA(fr, f.fn, args, f.env)
	case *HostFn:
		return f.fn(m, args)
	case *ssa.Builtin:
		unsupported("builtin value %s", f.Name())
	case nil:
		m.goPanic("runtime error: invalid memory address or nil pointer dereference")
	}
	unsupported("call of %T", fv)
	return nil
}

func (m *M) callSSA(caller *frame, fn *ssa.Function, args []Value, env []Value) Value {
	info := m.w.info(fn)
	if info.intr != nil {
		return info.intr(m, caller, fn, args)
	}
	if len(fn.Blocks) == 0 {
		unsupported("no body: %s", info.name)
	}
	if fn.Name() == "init" && fn.Parent() == nil && fn.Pkg != nil && fn.Pkg.Func("init") == fn && (m.init[fn.Pkg] == 0 || caller != nil) {
		// dependency initialisation is on demand, except inside the code under test
		if strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath) {
			m.ensureInit(fn.Pkg)
		}
		return nil
	}
	if (info.repo) && !m.funcs[fn] {
		m.funcs[fn] = true
	}
	fr := &frame{fn: fn, info: info, caller: caller, env: env, regs: make([]Value, info.n)}
	if caller != nil {
		fr.depth = caller.depth + 1
		if fr.depth > 2000 {
			panic(pathEnd{"recursion limit"})
		}
	}
	if fn.Pkg != nil && m.init[fn.Pkg] == 0 {
		m.ensureInit(fn.Pkg)
	}
	if fn.Pkg != nil && m.init[fn.Pkg] == 1 && caller == nil && fn.Pkg.Func("init") == fn && !strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath) {
		fr.lenient = true
	}
	for i := range fn.Params {
		fr.regs[i] = args[i]
	}
	for i := range fn.FreeVars {
		fr.regs[len(fn.Params)+i] = env[i]
	}
	if !info.hasDefer {
		fr.block = fn.Blocks[0]
		m.run(fr)
		return fr.result
	}
	m.runProtected(fr, fn.Blocks[0])
	if fr.panicking != nil {
		m.runDefers(fr)
		if fr.panicking != nil {
			panic(fr.panicking)
		}
		if fn.Recover != nil {
			fr.block, fr.prev = fn.Recover, nil
			m.run(fr)
		} else {
			fr.result = m.zeroResult(fn.Signature)
		}
	}
	return fr.result
}

func (m *M) zeroResult(sig *types.Signature) Value {
	switch sig.Results().Len() {
	case 0:
		return nil
	case 1:
		return m.zero(sig.Results().At(0).Type())
	}
	return m.zero(sig.Results())
}

func (m *M) runProtected(fr *frame, b *ssa.BasicBlock) {
	defer func() {
		if r := recover(); r != nil {
			if tp, ok := r.(*targetPanic); ok {
				fr.panicking = tp
				return
			}
			panic(r)
		}
	}()
	fr.block = b
	m.run(fr)
}

func (m *M) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			defer func() {
				if r := recover(); r != nil {
					if tp, ok := r.(*targetPanic); ok {
						fr.panicking = tp
						return
					}
					panic(r)
				}
			}()
			if b, ok := d.fn.(*ssa.Builtin); ok {
				m.builtin(fr, b, d.cc, d.args)
				return
			}
			// mark the callee as deferred so that recover works
			m.callDeferred(fr, d.fn, d.args)
		}()
	}
}

func (m *M) callDeferred(fr *frame, fv Value, args []Value) {
	m.call(fr, fv, args)
}

// run executes from fr.block until return.
func (m *M) run(fr *frame) {
	if traceUnsupported {
		defer func() {
			if r := recover(); r != nil {
				if u, ok := r.(Unsupported); ok && strings.Count(u.why, " < ") < 8 {
					u.why += " < " + fr.fn.String()
					r = u
				}
				panic(r)
			}
		}()
	}
	for {
		if forkLog {
			m.at = fr
		}
		b := fr.block
		instrs := b.Instrs
		i := 0
		// phis in parallel
		if fr.prev != nil {
			if _, ok := instrs[0].(*ssa.Phi); ok {
				pi := -1
				for k, p := range b.Preds {
					if p == fr.prev {
						pi = k
						break
					}
				}
				n := 0
				for n < len(instrs) {
					if _, ok := instrs[n].(*ssa.Phi); !ok {
						break
					}
					n++
				}
				tmp := make([]Value, n)
				for k := 0; k < n; k++ {
					tmp[k] = m.get(fr, instrs[k].(*ssa.Phi).Edges[pi])
				}
				for k := 0; k < n; k++ {
					fr.regs[fr.info.idx[instrs[k].(*ssa.Phi)]] = tmp[k]
				}
				i = n
			}
		}
		for ; i < len(instrs); i++ {
			m.steps++
			if m.steps > m.limit {
				panic(pathEnd{"step limit"})
			}
			switch in := instrs[i].(type) {
			case *ssa.If:
				c := m.get(fr, in.Cond).(*Term)
				fr.prev = b
				if m.branch(c) {
					fr.block = b.Succs[0]
				} else {
					fr.block = b.Succs[1]
				}
			case *ssa.Jump:
				fr.prev = b
				fr.block = b.Succs[0]
			case *ssa.Return:
				switch len(in.Results) {
				case 0:
					fr.result = nil
				case 1:
					fr.result = m.get(fr, in.Results[0])
				default:
					r := make(TupleV, len(in.Results))
					for k, x := range in.Results {
						r[k] = m.get(fr, x)
					}
					fr.result = r
				}
				return
			case *ssa.Panic:
				v := m.get(fr, in.X)
				panic(&targetPanic{v: v, text: m.panicText(v)})
			default:
				if fr.lenient {
					m.lenientInstr(fr, in)
				} else {
					m.instr(fr, in)
				}
			}
		}
	}
}

// lenientInstr goes on with the initialisation of a library after a step that cannot be executed.
func (m *M) lenientInstr(fr *frame, in ssa.Instruction) {
	defer func() {
		r := recover()
		switch r := r.(type) {
		case nil:
			return
		case *targetPanic:
			m.w.initNote(fr.fn.Pkg.Pkg.Path(), "panic "+r.text)
		case Unsupported:
			m.w.initNote(fr.fn.Pkg.Pkg.Path(), "unsupported "+r.why)
		default:
			panic(r)
		}
		if v, ok := in.(ssa.Value); ok {
			m.setReg(fr, v, m.zero(v.Type()))
		}
	}()
	m.instr(fr, in)
}

func (m *M) panicText(v Value) string {
	i, ok := v.(Iface)
	if !ok {
		return "panic"
	}
	if i.t == nil {
		return "panic(nil)"
	}
	switch x := i.v.(type) {
	case Str:
		return m.strModel(x)
	case *Value:
		if x != nil {
			if s, ok := (*x).(StructV); ok && len(s) > 0 {
				if t, ok := s[0].(Str); ok {
					return m.strModel(t)
				}
			}
		}
	}
	return "panic of type " + i.t.String()
}

func (m *M) setReg(fr *frame, v ssa.Value, x Value) { fr.regs[fr.info.idx[v]] = x }

func (m *M) instr(fr *frame, in ssa.Instruction) {
	switch in := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		v := m.zero(in.Type().Underlying().(*types.Pointer).Elem())
		p := &v
		m.setReg(fr, in, p)
	case *ssa.UnOp:
		m.setReg(fr, in, m.unop(fr, in))
	case *ssa.BinOp:
		m.setReg(fr, in, m.binop(in.Op, in.X.Type(), m.get(fr, in.X), m.get(fr, in.Y), in.Y.Type()))
	case *ssa.Call:
		m.setReg(fr, in, m.callCommon(fr, &in.Call))
	case *ssa.Store:
		p := m.ptr(m.get(fr, in.Addr))
		v := m.get(fr, in.Val)
		if m.raceOn {
			m.access(fr, p, true)
		}
		m.storeTo(p, v)
	case *ssa.FieldAddr:
		p := m.ptr(m.get(fr, in.X))
		s, ok := (*p).(StructV)
		if !ok {
			unsupported("field of %T (%s) in %s", *p, in.X.Type(), fr.fn)
		}
		m.setReg(fr, in, &s[in.Field])
	case *ssa.Field:
		m.setReg(fr, in, m.get(fr, in.X).(StructV)[in.Field])
	case *ssa.IndexAddr:
		m.setReg(fr, in, m.indexAddr(fr, in))
	case *ssa.Index:
		x := m.get(fr, in.X)
		idx := m.get(fr, in.Index).(*Term)
		switch x := x.(type) {
		case ArrV:
			if t := m.table(idx, in.Index.Type(), len(x), func(i int) Value { return x[i] }); t != nil {
				m.setReg(fr, in, t)
				return
			}
			i := m.index(idx, in.Index.Type(), len(x))
			m.setReg(fr, in, copyVal(x[i]))
		case Str:
			if t := m.table(idx, in.Index.Type(), x.Len(), func(i int) Value { return m.strAt(x, i) }); t != nil {
				m.setReg(fr, in, t)
				return
			}
			i := m.index(idx, in.Index.Type(), x.Len())
			m.setReg(fr, in, m.strAt(x, i))
		default:
			unsupported("index of %T", x)
		}
	case *ssa.Lookup:
		m.setReg(fr, in, m.lookup(fr, in))
	case *ssa.MapUpdate:
		mp, _ := m.get(fr, in.Map).(*MapV)
		if mp == nil {
			m.goPanic("assignment to entry in nil map")
		}
		if m.raceOn {
			m.access(fr, mp, true)
		}
		m.mapSet(mp, m.get(fr, in.Key), m.get(fr, in.Value))
	case *ssa.Convert:
		m.setReg(fr, in, m.convert(m.get(fr, in.X), in.X.Type(), in.Type()))
	case *ssa.MultiConvert:
		m.setReg(fr, in, m.convert(m.get(fr, in.X), in.X.Type(), in.Type()))
	case *ssa.ChangeType:
		m.setReg(fr, in, m.get(fr, in.X))
	case *ssa.ChangeInterface:
		m.setReg(fr, in, m.get(fr, in.X))
	case *ssa.MakeInterface:
		m.setReg(fr, in, Iface{t: in.X.Type(), v: copyVal(m.get(fr, in.X))})
	case *ssa.MakeClosure:
		env := make([]Value, len(in.Bindings))
		for i, b := range in.Bindings {
			env[i] = m.get(fr, b)
		}
		m.setReg(fr, in, &Closure{fn: in.Fn.(*ssa.Function), env: env})
	case *ssa.MakeMap:
		m.setReg(fr, in, m.newMap())
	case *ssa.MakeChan:
		n := m.concInt(m.get(fr, in.Size).(*Term), true)
		m.setReg(fr, in, &Chan{cap: int(n)})
	case *ssa.MakeSlice:
		m.setReg(fr, in, m.makeSlice(fr, in))
	case *ssa.Slice:
		m.setReg(fr, in, m.slice(fr, in))
	case *ssa.SliceToArrayPointer:
		s := m.get(fr, in.X).(SliceV)
		n := int(in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if len(s) < n {
			m.goPanic("runtime error: cannot convert slice to array pointer: length too short")
		}
		if s == nil {
			m.setReg(fr, in, (*Value)(nil))
			return
		}
		var v Value = ArrV(s[:n:n])
		m.setReg(fr, in, &v)
	case *ssa.Extract:
		m.setReg(fr, in, m.get(fr, in.Tuple).(TupleV)[in.Index])
	case *ssa.TypeAssert:
		m.setReg(fr, in, m.typeAssert(in, m.get(fr, in.X).(Iface)))
	case *ssa.Range:
		x := m.get(fr, in.X)
		switch x := x.(type) {
		case *MapV:
			if m.raceOn && x != nil {
				m.access(fr, x, false)
			}
			m.setReg(fr, in, m.mapRange(fr, x))
		case Str:
			m.setReg(fr, in, &strIter{s: x})
		default:
			unsupported("range over %T", x)
		}
	case *ssa.Next:
		m.setReg(fr, in, m.next(fr, in))
	case *ssa.Defer:
		if in.DeferStack != nil {
			unsupported("defer stack")
		}
		d := deferred{cc: &in.Call}
		d.fn, d.args = m.prepareCall(fr, &in.Call)
		fr.defers = append(fr.defers, d)
	case *ssa.RunDefers:
		m.runDefers(fr)
		if fr.panicking != nil {
			p := fr.panicking
			fr.panicking = nil
			panic(p)
		}
	case *ssa.Go:
		fv, args := m.prepareCall(fr, &in.Call)
		m.spawn(fr, fv, args)
	case *ssa.Send:
		c, _ := m.get(fr, in.Chan).(*Chan)
		m.chanSend(c, m.get(fr, in.X))
	case *ssa.Select:
		m.setReg(fr, in, m.selectStmt(fr, in))
	default:
		unsupported("instruction %T", in)
	}
}

func (m *M) ptr(v Value) *Value {
	p, ok := v.(*Value)
	if !ok {
		unsupported("pointer is %T", v)
	}
	if p == nil {
		m.goPanic("runtime error: invalid memory address or nil pointer dereference")
	}
	return p
}

func (m *M) strAt(s Str, i int) *Term {
	if s.opaque {
		m.opaqueUse()
	}
	if s.b != nil {
		return s.b[i]
	}
	return m.st.Const(8, uint64(s.s[i]))
}

// index checks 0 <= idx < n and picks a concrete index.
func (m *M) index(idx *Term, t types.Type, n int) int {
	if idx.isConst() {
		v := sx(idx.val, idx.sort)
		if !isSigned(t) && idx.sort == 64 && v < 0 {
			v = math.MaxInt64
		} else if !isSigned(t) {
			v = int64(idx.val)
		}
		if v < 0 || v >= int64(n) {
			m.goPanic(fmt.Sprintf("runtime error: index out of range [%d] with length %d", v, n))
		}
		return int(v)
	}
	x := m.ext64(idx, t)
	if !m.branch(m.st.Bin(OULt, x, m.st.Const(64, uint64(n)))) {
		m.goPanic("runtime error: index out of range")
	}
	return int(m.concretize(x))
}

func (m *M) ext64(x *Term, t types.Type) *Term {
	if isSigned(t) {
		return m.st.SExt(x, 64)
	}
	return m.st.ZExt(x, 64)
}

// table reads a table of constants at a symbolic index: a case distinction over the runs of
// equal values, where there are few.
func (m *M) table(idx *Term, t types.Type, n int, at func(int) Value) Value {
	if idx.isConst() || n < 8 {
		return nil
	}
	type run struct {
		end int
		v   *Term
	}
	var runs []run
	for i := 0; i < n; i++ {
		v, ok := at(i).(*Term)
		if !ok || !v.isConst() {
			return nil
		}
		if k := len(runs); k > 0 && runs[k-1].v == v {
			runs[k-1].end = i + 1
			continue
		}
		if len(runs) == 24 {
			return nil
		}
		runs = append(runs, run{i + 1, v})
	}
	x := m.ext64(idx, t)
	if !m.branch(m.st.Bin(OULt, x, m.st.Const(64, uint64(n)))) {
		m.goPanic("runtime error: index out of range")
	}
	r := runs[len(runs)-1].v
	for k := len(runs) - 2; k >= 0; k-- {
		r = m.st.Ite(m.st.Bin(OULt, x, m.st.Const(64, uint64(runs[k].end))), runs[k].v, r)
	}
	return r
}

// tableAddr is a cell with the value of a table, if the address is only read from.
func (m *M) tableAddr(in *ssa.IndexAddr, idx *Term, n int, at func(int) Value) Value {
	if idx.isConst() || m.raceOn {
		return nil
	}
	for _, r := range *in.Referrers() {
		if u, ok := r.(*ssa.UnOp); !ok || u.Op != token.MUL {
			return nil
		}
	}
	t := m.table(idx, in.Index.Type(), n, at)
	if t == nil {
		return nil
	}
	return &t
}

// concInt enumerates the values of an integer (through path forks).
func (m *M) concInt(x *Term, signed bool) int64 {
	if signed {
		return int64(m.concretize(m.st.SExt(x, 64)))
	}
	return int64(m.concretize(m.st.ZExt(x, 64)))
}

func (m *M) concretize(x *Term) uint64 {
	for n := 0; ; n++ {
		if x.isConst() {
			return x.val
		}
		// the candidate is recorded with the decisions: the model differs when the path is run again
		var v uint64
		if i := len(m.dec); i+1 < len(m.prefix) {
			v = uint64(uint32(m.prefix[i]))<<32 | uint64(uint32(m.prefix[i+1]))
		} else {
			v = m.eval(x)
		}
		m.dec = append(m.dec, int32(v>>32), int32(v))
		if m.branch(m.st.Eq(x, m.st.Const(x.sort, v))) {
			return v
		}
		if n > 64 {
			panic(pathEnd{"too many values to enumerate"})
		}
	}
}

func (m *M) indexAddr(fr *frame, in *ssa.IndexAddr) Value {
	x := m.get(fr, in.X)
	idx := m.get(fr, in.Index).(*Term)
	switch x := x.(type) {
	case SliceV:
		if t := m.tableAddr(in, idx, len(x), func(i int) Value { return x[i] }); t != nil {
			return t
		}
		return &x[m.index(idx, in.Index.Type(), len(x))]
	case *Value:
		a := (*m.ptr(x)).(ArrV)
		if t := m.tableAddr(in, idx, len(a), func(i int) Value { return a[i] }); t != nil {
			return t
		}
		return &a[m.index(idx, in.Index.Type(), len(a))]
	}
	unsupported("index address of %T", x)
	return nil
}

func (m *M) lookup(fr *frame, in *ssa.Lookup) Value {
	x := m.get(fr, in.X)
	if s, ok := x.(Str); ok {
		if t := m.table(m.get(fr, in.Index).(*Term), in.Index.Type(), s.Len(), func(i int) Value { return m.strAt(s, i) }); t != nil {
			return t
		}
		return m.strAt(s, m.index(m.get(fr, in.Index).(*Term), in.Index.Type(), s.Len()))
	}
	mp, _ := x.(*MapV)
	if m.raceOn && mp != nil {
		m.access(fr, mp, false)
	}
	e := m.mapFind(mp, m.get(fr, in.Index))
	et := in.X.Type().Underlying().(*types.Map).Elem()
	var v Value
	if e != nil {
		v = copyVal(e.val)
	} else {
		v = m.zero(et)
	}
	if in.CommaOk {
		return TupleV{v, m.st.Bool(e != nil)}
	}
	return v
}

func (m *M) mapRange(fr *frame, mp *MapV) Value {
	it := &mapIter{mp: mp, seen: map[*mapEntry]bool{}}
	if mp == nil {
		return it
	}
	it.order = append(it.order, mp.entries...)
	n := len(it.order)
	if n > 1 && m.mapOrd && fr.info.repo {
		it.order = m.chooseOrder(it.order)
	}
	return it
}

func (m *M) chooseOrder(o []*mapEntry) []*mapEntry {
	n := len(o)
	if n <= 3 {
		r := make([]*mapEntry, 0, n)
		rest := append([]*mapEntry{}, o...)
		for len(rest) > 1 {
			k := m.choose("maporder", len(rest), true)
			r = append(r, rest[k])
			rest = append(rest[:k:k], rest[k+1:]...)
		}
		return append(r, rest...)
	}
	if m.choose("maporder", 2, true) == 1 {
		r := make([]*mapEntry, n)
		for i := range o {
			r[n-1-i] = o[i]
		}
		return r
	}
	return o
}

func (m *M) next(fr *frame, in *ssa.Next) Value {
	it := m.get(fr, in.Iter)
	switch it := it.(type) {
	case *mapIter:
		e := it.next(m)
		tt := in.Type().(*types.Tuple)
		if e == nil {
			return TupleV{m.st.ff, m.zeroOrNil(tt.At(1).Type()), m.zeroOrNil(tt.At(2).Type())}
		}
		return TupleV{m.st.tt, copyVal(e.key), copyVal(e.val)}
	case *strIter:
		if it.i >= it.s.Len() {
			return TupleV{m.st.ff, m.st.Const(64, 0), m.st.Const(32, 0)}
		}
		i := it.i
		if it.s.b == nil {
			if it.s.opaque {
				m.opaqueUse()
			}
			r, n := utf8.DecodeRuneInString(it.s.s[i:])
			it.i += n
			return TupleV{m.st.tt, m.st.Const(64, uint64(i)), m.st.Const(32, uint64(uint32(r)))}
		}
		r, n := m.decodeRune(it.s.b[i:])
		it.i += n
		return TupleV{m.st.tt, m.st.Const(64, uint64(i)), r}
	}
	unsupported("next on %T", it)
	return nil
}

func (m *M) zeroOrNil(t types.Type) Value {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return nil
	}
	return m.zero(t)
}

// decodeRune decodes one UTF-8 sequence of symbolic bytes (forking on its shape).
func (m *M) decodeRune(b []*Term) (*Term, int) {
	s := m.st
	c := func(v uint64) *Term { return s.Const(8, v) }
	if m.branch(s.Bin(OULt, b[0], c(0x80))) {
		return s.ZExt(b[0], 32), 1
	}
	// fall back to concrete bytes
	n := min(4, len(b))
	buf := make([]byte, n)
	for i := 0; i < n; i++ {
		buf[i] = byte(m.concretize(b[i]))
	}
	r, k := utf8.DecodeRune(buf)
	return s.Const(32, uint64(uint32(r))), k
}

func (m *M) makeSlice(fr *frame, in *ssa.MakeSlice) Value {
	lt, ct := m.get(fr, in.Len).(*Term), m.get(fr, in.Cap).(*Term)
	et := in.Type().Underlying().(*types.Slice).Elem()
	s := m.st
	l, c := m.ext64(lt, in.Len.Type()), m.ext64(ct, in.Cap.Type())
	if !l.isConst() || !c.isConst() {
		if m.branch(s.Bin(OSLt, l, s.Const(64, 0))) {
			m.goPanic("runtime error: makeslice: len out of range")
		}
		if m.branch(s.Bin(OSLt, c, l)) {
			m.goPanic("runtime error: makeslice: cap out of range")
		}
	}
	n := int64(m.concretize(l))
	if n < 0 || n > 1<<24 {
		if n < 0 || n > 1<<40 {
			m.goPanic("runtime error: makeslice: len out of range")
		}
		unsupported("make of %d elements", n)
	}
	if c.isConst() && int64(c.val) < n {
		m.goPanic("runtime error: makeslice: cap out of range")
	}
	k := n
	if c.isConst() {
		if c.val > 1<<40 {
			m.goPanic("runtime error: makeslice: cap out of range")
		}
		k = int64(min(c.val, uint64(n)+1024))
	} else {
		if !m.branch(s.Bin(OSLe, c, s.Const(64, 1<<32))) {
			m.goPanic("runtime error: makeslice: cap out of range")
		}
		k = n + 8 // capacity only matters for aliasing of appends; it is not observable here
	}
	r := make(SliceV, n, k)
	for i := range r {
		r[i] = m.zero(et)
	}
	return r
}

func (m *M) slice(fr *frame, in *ssa.Slice) Value {
	x := m.get(fr, in.X)
	bound := func(v ssa.Value, def int) int {
		if v == nil {
			return def
		}
		t := m.ext64(m.get(fr, v).(*Term), v.Type())
		if t.isConst() {
			return int(int64(t.val))
		}
		// negative or huge is a panic either way
		if m.branch(m.st.Bin(OSLt, t, m.st.Const(64, 0))) {
			return -1
		}
		return int(m.concretize(t))
	}
	switch x := x.(type) {
	case Str:
		lo, hi := bound(in.Low, 0), bound(in.High, x.Len())
		if lo < 0 || hi < lo || hi > x.Len() {
			m.goPanic(fmt.Sprintf("runtime error: slice bounds out of range [%d:%d] with length %d", lo, hi, x.Len()))
		}
		return m.strSlice(x, lo, hi)
	case SliceV:
		lo := bound(in.Low, 0)
		mx := bound(in.Max, cap(x))
		// a symbolic high bound: decide range first
		hi := m.sliceHigh(fr, in, len(x), mx)
		if lo < 0 || hi < lo || hi > mx || mx > cap(x) {
			m.goPanic(fmt.Sprintf("runtime error: slice bounds out of range [%d:%d] with capacity %d", lo, hi, mx))
		}
		if x == nil {
			return x
		}
		// grow within capacity: fill cells that were never initialised
		r := x[lo:hi:mx]
		et := in.Type().Underlying().(*types.Slice).Elem()
		for i := range r {
			if r[i] == nil {
				r[i] = m.zero(et)
			}
		}
		return r
	case *Value:
		a := (*m.ptr(x)).(ArrV)
		lo := bound(in.Low, 0)
		mx := bound(in.Max, len(a))
		hi := bound(in.High, len(a))
		if lo < 0 || hi < lo || hi > mx || mx > len(a) {
			m.goPanic("runtime error: slice bounds out of range")
		}
		return SliceV(a[lo:hi:mx])
	}
	unsupported("slice of %T", x)
	return nil
}

func (m *M) sliceHigh(fr *frame, in *ssa.Slice, def, mx int) int {
	if in.High == nil {
		return def
	}
	t := m.ext64(m.get(fr, in.High).(*Term), in.High.Type())
	if t.isConst() {
		return int(int64(t.val))
	}
	if !m.branch(m.st.Bin(OULe, t, m.st.Const(64, uint64(mx)))) {
		m.goPanic("runtime error: slice bounds out of range")
	}
	return int(m.concretize(t))
}

func (m *M) unop(fr *frame, in *ssa.UnOp) Value {
	x := m.get(fr, in.X)
	switch in.Op {
	case token.MUL:
		p := m.ptr(x)
		if m.raceOn {
			m.access(fr, p, false)
		}
		return copyVal(*p)
	case token.NOT:
		return m.st.Not(x.(*Term))
	case token.SUB:
		t := x.(*Term)
		if t.sort == SortFP {
			return m.st.FUn(OFNeg, t, 0)
		}
		return m.st.Neg(t)
	case token.XOR:
		return m.st.BNot(x.(*Term))
	case token.ARROW:
		c, _ := x.(*Chan)
		v, ok := m.chanRecv(c, in.X.Type().Underlying().(*types.Chan).Elem())
		if in.CommaOk {
			return TupleV{v, m.st.Bool(ok)}
		}
		return v
	}
	unsupported("unary %s", in.Op)
	return nil
}

func (m *M) binop(op token.Token, xt types.Type, x, y Value, yt types.Type) Value {
	s := m.st
	switch op {
	case token.EQL:
		return m.eqOp(x, y)
	case token.NEQ:
		return s.Not(m.eqOp(x, y))
	}
	if a, ok := x.(Str); ok {
		b := y.(Str)
		switch op {
		case token.ADD:
			return m.strCat(a, b)
		case token.LSS:
			return m.strLess(a, b, false)
		case token.LEQ:
			return m.strLess(a, b, true)
		case token.GTR:
			return m.strLess(b, a, false)
		case token.GEQ:
			return m.strLess(b, a, true)
		}
	}
	a, ok1 := x.(*Term)
	b, ok2 := y.(*Term)
	if !ok1 || !ok2 {
		unsupported("binary %s on %T", op, x)
	}
	if a.sort == SortFP {
		if bt := xt.Underlying().(*types.Basic); bt.Kind() == types.Float32 {
			unsupported("float32 arithmetic")
		}
		switch op {
		case token.ADD:
			return s.FBin(OFAdd, a, b)
		case token.SUB:
			return s.FBin(OFSub, a, b)
		case token.MUL:
			return s.FBin(OFMul, a, b)
		case token.QUO:
			return s.FBin(OFDiv, a, b)
		case token.LSS:
			return s.FBin(OFLt, a, b)
		case token.LEQ:
			return s.FBin(OFLe, a, b)
		case token.GTR:
			return s.FBin(OFLt, b, a)
		case token.GEQ:
			return s.FBin(OFLe, b, a)
		}
		unsupported("float %s", op)
	}
	if a.sort == SortBool {
		switch op {
		case token.AND:
			return s.And(a, b)
		case token.OR:
			return s.Or(a, b)
		}
		unsupported("bool %s", op)
	}
	signed := isSigned(xt)
	pick := func(sg, un Op) Op {
		if signed {
			return sg
		}
		return un
	}
	switch op {
	case token.SHL, token.SHR:
		return m.shift(op, a, b, signed, isSigned(yt))
	case token.ADD:
		return s.Bin(OAdd, a, b)
	case token.SUB:
		return s.Bin(OSub, a, b)
	case token.MUL:
		return s.Bin(OMul, a, b)
	case token.QUO, token.REM:
		if m.branch(s.Eq(b, s.Const(b.sort, 0))) {
			m.goPanic("runtime error: integer divide by zero")
		}
		if op == token.QUO {
			return s.Bin(pick(OSDiv, OUDiv), a, b)
		}
		return s.Bin(pick(OSRem, OURem), a, b)
	case token.AND:
		return s.Bin(OBAnd, a, b)
	case token.OR:
		return s.Bin(OBOr, a, b)
	case token.XOR:
		return s.Bin(OBXor, a, b)
	case token.AND_NOT:
		return s.Bin(OBAnd, a, s.BNot(b))
	case token.LSS:
		return s.Bin(pick(OSLt, OULt), a, b)
	case token.LEQ:
		return s.Bin(pick(OSLe, OULe), a, b)
	case token.GTR:
		return s.Bin(pick(OSLt, OULt), b, a)
	case token.GEQ:
		return s.Bin(pick(OSLe, OULe), b, a)
	}
	unsupported("binary %s", op)
	return nil
}

func (m *M) eqOp(x, y Value) *Term {
	// comparisons of slices, maps and functions with nil
	switch a := x.(type) {
	case SliceV:
		b, _ := y.(SliceV)
		return m.st.Bool(a == nil && b == nil)
	case Iface:
		if _, ok := y.(Iface); !ok {
			unsupported("interface compared with %T", y)
		}
	case *Closure, *HostFn:
		return m.st.Bool(!isNilFunc(y) && x == y)
	}
	return m.eqVal(x, y)
}

func (m *M) shift(op token.Token, a, b *Term, signed, bsigned bool) Value {
	s := m.st
	w := a.sort
	if bsigned && !b.isConst() {
		if m.branch(s.Bin(OSLt, b, s.Const(b.sort, 0))) {
			m.goPanic("runtime error: negative shift amount")
		}
	}
	if b.isConst() && bsigned && sx(b.val, b.sort) < 0 {
		m.goPanic("runtime error: negative shift amount")
	}
	var cnt *Term
	if b.sort <= w {
		cnt = s.ZExt(b, w)
	} else {
		big := s.Bin(OULe, s.Const(b.sort, uint64(w)), b)
		cnt = s.Ite(big, s.Const(w, uint64(w)), s.Extract(b, 0, w))
	}
	switch {
	case op == token.SHL:
		return s.Bin(OShl, a, cnt)
	case signed:
		return s.Bin(OAShr, a, cnt)
	}
	return s.Bin(OLShr, a, cnt)
}

func (m *M) convert(x Value, from, to types.Type) Value {
	s := m.st
	fu, tu := from.Underlying(), to.Underlying()
	if _, ok := tu.(*types.Pointer); ok {
		return x
	}
	if tb, ok := tu.(*types.Basic); ok && tb.Kind() == types.UnsafePointer {
		return x
	}
	if ts, ok := tu.(*types.Slice); ok {
		st, ok := x.(Str)
		if !ok {
			return x
		}
		eb := ts.Elem().Underlying().(*types.Basic)
		if eb.Kind() == types.Uint8 {
			b := m.strBytes(st)
			r := make(SliceV, len(b))
			for i := range b {
				r[i] = b[i]
			}
			return r
		}
		var r = SliceV{}
		it := &strIter{s: st}
		for it.i < st.Len() {
			if st.b == nil {
				rr, n := utf8.DecodeRuneInString(st.s[it.i:])
				it.i += n
				r = append(r, s.Const(32, uint64(uint32(rr))))
			} else {
				rr, n := m.decodeRune(st.b[it.i:])
				it.i += n
				r = append(r, rr)
			}
		}
		return r
	}
	tb, ok := tu.(*types.Basic)
	if !ok {
		return x
	}
	if tb.Info()&types.IsString != 0 {
		switch v := x.(type) {
		case Str:
			return v
		case SliceV:
			if eb := fu.(*types.Slice).Elem().Underlying().(*types.Basic); eb.Kind() == types.Uint8 {
				b := make([]*Term, len(v))
				for i := range v {
					b[i] = v[i].(*Term)
				}
				return m.mkStr(b)
			}
			out := Str{}
			for _, r := range v {
				out = m.strCat(out, m.runeStr(r.(*Term)))
			}
			return out
		case *Term:
			return m.runeStr(m.st.Extract(m.ext64(v, from), 0, 32))
		}
	}
	t, ok := x.(*Term)
	if !ok {
		return x
	}
	fb := fu.(*types.Basic)
	fi, ti := fb.Info()&types.IsInteger != 0, tb.Info()&types.IsInteger != 0
	switch {
	case fi && ti:
		w := intWidth(tb)
		if w <= t.sort {
			return s.Extract(t, 0, w)
		}
		if isSigned(from) {
			return s.SExt(t, w)
		}
		return s.ZExt(t, w)
	case fi && tb.Info()&types.IsFloat != 0:
		var r *Term
		if isSigned(from) {
			r = s.FUn(OSIntToFP, s.SExt(t, 64), 0)
		} else {
			z := s.ZExt(t, 64)
			if z.lo >= 0 {
				r = s.FUn(OSIntToFP, z, 0)
			} else {
				r = s.FUn(OUIntToFP, z, 0)
			}
		}
		return m.toF32(r, tb)
	case fb.Info()&types.IsFloat != 0 && ti:
		w := intWidth(tb)
		if isSigned(to) || w < 64 {
			return s.Extract(s.FUn(OFPToSInt, t, 0), 0, w)
		}
		return s.FUn(OFPToUInt, t, 0)
	case fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsFloat != 0:
		return m.toF32(t, tb)
	}
	return x
}

func (m *M) toF32(t *Term, b *types.Basic) Value {
	if b.Kind() == types.Float32 {
		if t.isConst() {
			return m.st.F64(float64(float32(math.Float64frombits(t.val))))
		}
		unsupported("symbolic float32")
	}
	return t
}

func (m *M) runeStr(r *Term) Str {
	if r.isConst() {
		return Str{s: string(rune(int32(r.val)))}
	}
	if m.branch(m.st.Bin(OULt, r, m.st.Const(32, 0x80))) {
		return m.mkStr([]*Term{m.st.Extract(r, 0, 8)})
	}
	return Str{s: string(rune(int32(m.concretize(r))))}
}

func (m *M) typeAssert(in *ssa.TypeAssert, x Iface) Value {
	var ok bool
	at := in.AssertedType
	isI := types.IsInterface(at)
	if x.t != nil {
		if isI {
			ok = m.implements(x.t, at)
		} else {
			ok = canon(x.t) == canon(at)
		}
	}
	var v Value
	if ok {
		if isI {
			v = x
		} else {
			v = copyVal(x.v)
		}
	} else {
		if !in.CommaOk {
			tn := "nil"
			if x.t != nil {
				tn = x.t.String()
			}
			m.goPanic("interface conversion: interface is " + tn + ", not " + at.String())
		}
		v = m.zero(at)
	}
	if in.CommaOk {
		return TupleV{v, m.st.Bool(ok)}
	}
	return v
}

func (m *M) implements(t, it types.Type) bool {
	k := [2]types.Type{canon(t), canon(it)}
	if r, ok := m.tcache[k]; ok {
		return r
	}
	r := types.Implements(t, it.Underlying().(*types.Interface))
	m.tcache[k] = r
	return r
}

func (m *M) prepareCall(fr *frame, cc *ssa.CallCommon) (Value, []Value) {
	if cc.IsInvoke() {
		recv := m.get(fr, cc.Value).(Iface)
		if recv.t == nil {
			m.goPanic("runtime error: invalid memory address or nil pointer dereference")
		}
		args := make([]Value, 0, len(cc.Args)+1)
		if h, ok := recv.v.(*HostObj); ok {
			name := cc.Method.Name()
			f := h.methods[name]
			if f == nil {
				unsupported("method %s of modelled object %s", name, h.name)
			}
			for _, a := range cc.Args {
				args = append(args, m.get(fr, a))
			}
			return &HostFn{name: name, fn: f}, args
		}
		fn := m.method(recv.t, cc.Method)
		args = append(args, recv.v)
		for _, a := range cc.Args {
			args = append(args, m.get(fr, a))
		}
		return fn, args
	}
	args := make([]Value, 0, len(cc.Args))
	fv := m.get(fr, cc.Value)
	for _, a := range cc.Args {
		args = append(args, m.get(fr, a))
	}
	return fv, args
}

// HostObj is an object implemented by the engine itself.
type HostObj struct {
	name    string
	methods map[string]func(m *M, args []Value) Value
	data    interface{}
}

func (m *M) method(t types.Type, f *types.Func) *ssa.Function {
	k := methKey{canon(t), f}
	if fn, ok := m.mcache[k]; ok {
		return fn
	}
	buildMu.Lock()
	fn := m.w.prog.LookupMethod(t, f.Pkg(), f.Name())
	buildMu.Unlock()
	if fn == nil {
		unsupported("method %s of %s", f.Name(), t)
	}
	m.mcache[k] = fn
	return fn
}

func (m *M) methodByName(t types.Type, name string) *ssa.Function {
	buildMu.Lock()
	defer buildMu.Unlock()
	ms := m.w.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return m.w.prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

func (m *M) callCommon(fr *frame, cc *ssa.CallCommon) Value {
	fv, args := m.prepareCall(fr, cc)
	if b, ok := fv.(*ssa.Builtin); ok {
		return m.builtin(fr, b, cc, args)
	}
	return m.call(fr, fv, args)
}

func (m *M) builtin(fr *frame, b *ssa.Builtin, cc *ssa.CallCommon, args []Value) Value {
	s := m.st
	i64 := func(n int) Value { return s.Const(64, uint64(int64(n))) }
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case Str:
			if x.opaque {
				m.opaqueUse()
			}
			return i64(x.Len())
		case SliceV:
			return i64(len(x))
		case ArrV:
			return i64(len(x))
		case *Value:
			return i64(int(cc.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()))
		case *MapV:
			if x == nil {
				return i64(0)
			}
			if m.raceOn {
				m.access(fr, x, false)
			}
			return i64(x.live)
		case *Chan:
			if x == nil {
				return i64(0)
			}
			return i64(len(x.buf))
		}
	case "cap":
		switch x := args[0].(type) {
		case SliceV:
			return i64(cap(x))
		case ArrV:
			return i64(len(x))
		case *Chan:
			if x == nil {
				return i64(0)
			}
			return i64(x.cap)
		}
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		a, _ := args[0].(SliceV)
		var add []Value
		switch y := args[1].(type) {
		case SliceV:
			add = y
		case Str:
			for _, t := range m.strBytes(y) {
				add = append(add, t)
			}
		}
		return m.appendV(fr, a, add)
	case "copy":
		d, _ := args[0].(SliceV)
		var src []Value
		switch y := args[1].(type) {
		case SliceV:
			src = y
		case Str:
			for _, t := range m.strBytes(y) {
				src = append(src, t)
			}
		}
		n := min(len(d), len(src))
		tmp := make([]Value, n)
		for i := 0; i < n; i++ {
			tmp[i] = copyVal(src[i])
		}
		for i := 0; i < n; i++ {
			m.set(&d[i], tmp[i])
		}
		return i64(n)
	case "delete":
		mp, _ := args[0].(*MapV)
		if mp != nil {
			if m.raceOn {
				m.access(fr, mp, true)
			}
			m.mapDelete(mp, args[1])
		}
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *MapV:
			if x != nil {
				for _, e := range append([]*mapEntry{}, x.entries...) {
					m.mapDelete(x, e.key)
				}
			}
		case SliceV:
			et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
			for i := range x {
				m.set(&x[i], m.zero(et))
			}
		}
		return nil
	case "close":
		c, _ := args[0].(*Chan)
		m.chanClose(c)
		return nil
	case "panic":
		panic(&targetPanic{v: args[0], text: m.panicText(args[0])})
	case "recover":
		if p := fr.caller; p != nil && p.panicking != nil {
			v := p.panicking.v
			p.panicking = nil
			return v
		}
		return Iface{}
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0]
		for _, y := range args[1:] {
			t := cc.Args[0].Type()
			op := token.LSS
			if b.Name() == "max" {
				op = token.GTR
			}
			c := m.binop(op, t, y, r, t).(*Term)
			if rt, ok := r.(*Term); ok {
				if rt.sort == SortFP && !(c.isConst()) {
					// NaN propagates
					yt := y.(*Term)
					v := s.Ite(c, yt, rt)
					r = s.Ite(s.FUn(OFIsNaN, yt, 0), yt, v)
					continue
				}
				r = s.Ite(c, y.(*Term), rt)
			} else if m.branch(c) {
				r = y
			}
		}
		return r
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*Value); ok && p == nil {
			m.goPanic("runtime error: invalid memory address or nil pointer dereference")
		}
		return args[0]
	case "String": // unsafe.String(ptr, len)
		n := int(m.concInt(args[1].(*Term), true))
		if n == 0 {
			return Str{}
		}
		if sd, ok := args[0].(*sliceData); ok {
			b := make([]*Term, n)
			for i := range b {
				b[i] = sd.s[i].(*Term)
			}
			return m.mkStr(b)
		}
		unsupported("unsafe.String")
	case "SliceData":
		sl, _ := args[0].(SliceV)
		return &sliceData{s: sl[:cap(sl)]}
	case "StringData":
		bs := m.strBytes(args[0].(Str))
		sl := make(SliceV, len(bs))
		for i := range bs {
			sl[i] = bs[i]
		}
		return &sliceData{s: sl}
	case "Slice":
		n := int(m.concInt(args[1].(*Term), true))
		if sd, ok := args[0].(*sliceData); ok {
			return sd.s[:n:n]
		}
	}
	unsupported("builtin %s", b.Name())
	return nil
}

type sliceData struct{ s SliceV }

func (m *M) appendV(fr *frame, a SliceV, add []Value) Value {
	n := len(a) + len(add)
	if len(add) == 0 {
		return a
	}
	if n <= cap(a) {
		r := a[:n]
		for i, v := range add {
			p := &r[len(a)+i]
			if m.raceOn {
				m.access(fr, p, true)
			}
			m.set(p, copyVal(v))
		}
		return r
	}
	c := cap(a) * 2
	if c < n {
		c = n
	}
	if cap(a) == 0 && n < 4 {
		c = n
	}
	r := make(SliceV, n, c)
	copy(r, a)
	for i := range a {
		r[i] = copyVal(r[i])
	}
	for i, v := range add {
		r[len(a)+i] = copyVal(v)
	}
	return r
}
