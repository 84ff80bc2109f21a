package main

import (
	"fmt"
	"go/types"
	"math"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

var intr = map[string]intrinsic{}

func reg(name string, f intrinsic) { intr[name] = f }
func regs(f intrinsic, names ...string) {
	for _, n := range names {
		intr[n] = f
	}
}

// packages whose functions have no effect the properties speak about: they return zero values
var noopPkgs = []string{
	"github.com/prometheus/", "go.uber.org/zap", "go.uber.org/multierr",
}

func (w *World) lookupIntrinsic(fn *ssa.Function) intrinsic {
	name := fn.String()
	if f, ok := intr[name]; ok {
		return f
	}
	pkg := fn.Pkg
	if pkg == nil && fn.Object() != nil && fn.Object().Pkg() != nil {
		pkg = w.prog.Package(fn.Object().Pkg())
	}
	if pkg != nil {
		path := pkg.Pkg.Path()
		if path == modPath+"/internal/zzverif/nd" {
			if f, ok := intr["nd."+fn.Name()]; ok && fn.Signature.Recv() == nil {
				return f
			}
			return nil
		}
		for _, p := range noopPkgs {
			if strings.HasPrefix(path, p) && !strings.HasPrefix(path, "github.com/prometheus/client_model") {
				n := fn.Name()
				if strings.HasPrefix(n, "Panic") || strings.HasPrefix(n, "Fatal") || strings.HasPrefix(n, "DPanic") {
					return func(m *M, fr *frame, fn *ssa.Function, args []Value) Value {
						panic(&targetPanic{v: Iface{t: types.Typ[types.String], v: Str{s: "logger panic"}}, text: "logger " + n})
					}
				}
				return zeroIntr
			}
		}
	}
	return nil
}

func init() {
	// what a registry holds is said by the harness (natively it holds the same)
	reg("(*github.com/prometheus/client_golang/prometheus.Registry).Gather", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		p := m.w.prog.ImportedPackage(modPath + "/internal/zzverif/hmetrics")
		if p == nil || p.Func("Families") == nil {
			unsupported("contents of a metrics registry")
		}
		return TupleV{m.callSSA(fr, p.Func("Families"), nil, nil), Iface{}}
	})
}

func zeroIntr(m *M, fr *frame, fn *ssa.Function, args []Value) Value {
	return m.zeroResult(fn.Signature)
}

func (m *M) i64(v int64) *Term { return m.st.Const(64, uint64(v)) }

func (m *M) needStr(v Value, what string) string {
	s, ok := v.(Str)
	if !ok || s.b != nil || s.opaque {
		unsupported("%s with symbolic text", what)
	}
	return s.s
}

func concStr(v Value) (string, bool) {
	s, ok := v.(Str)
	if !ok || s.b != nil || s.opaque {
		return "", false
	}
	return s.s, true
}

func (m *M) errorString(text string, opaque bool) Value {
	t := m.w.namedType("errors", "errorString")
	var v Value = StructV{Str{s: text, opaque: opaque}}
	return Iface{t: types.NewPointer(t), v: &v}
}

// newSym creates a symbolic input.
func (m *M) newSym(sort Sort, name string, ranged bool, lo, hi int64) *Term {
	name = m.fresh(name)
	var v *Term
	if ranged {
		if lo == hi {
			m.choices[name] = int(lo)
			return m.st.Const(sort, uint64(lo))
		}
		v = m.st.VarRange(sort, name, lo, hi)
	} else {
		v = m.st.Var(sort, name)
	}
	m.vars = append(m.vars, v)
	if _, ok := m.model[v.name]; !ok {
		d := int64(0)
		if ranged && (d < lo || d > hi) {
			d = lo
		}
		m.model[v.name] = uint64(d) & mask(sort)
	}
	if ranged && sort > 0 {
		// bypass simplification: these two facts justify the interval
		s := m.st
		if lo > smin(sort) {
			m.sol.Assert(s.mk(OSLe, SortBool, 0, "", s.Const(sort, uint64(lo)), v))
		}
		if hi < smax(sort) {
			m.sol.Assert(s.mk(OSLe, SortBool, 0, "", v, s.Const(sort, uint64(hi))))
		}
	}
	return v
}

func (m *M) sideGet(k interface{}, mk func() interface{}) interface{} {
	if v, ok := m.side[k]; ok {
		return v
	}
	v := mk()
	m.side[k] = v
	return v
}

type mutexSt struct {
	w  bool
	r  int
	vc VC
	rv VC
}

func (m *M) mutex(v Value) *mutexSt {
	p := m.ptr(v)
	return m.sideGet(p, func() interface{} { return &mutexSt{} }).(*mutexSt)
}

type wgSt struct {
	n  int64
	vc VC
}

func init() {
	// ---------------- nd
	reg("nd.Int64", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		lo, hi := a[1].(*Term), a[2].(*Term)
		if !lo.isConst() || !hi.isConst() {
			unsupported("symbolic range")
		}
		l, h := sx(lo.val, 64), sx(hi.val, 64)
		if l > h {
			panic(pathEnd{"assume"})
		}
		return m.newSym(64, m.needStr(a[0], "nd"), !(l == math.MinInt64 && h == math.MaxInt64), l, h)
	})
	reg("nd.Bool", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		return m.newSym(SortBool, m.needStr(a[0], "nd"), false, 0, 0)
	})
	reg("nd.Float64", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		return m.newSym(SortFP, m.needStr(a[0], "nd"), false, 0, 0)
	})
	reg("nd.Byte", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		return m.newSym(8, m.needStr(a[0], "nd"), false, 0, 0)
	})
	reg("nd.Bytes", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		n := int(m.concInt(a[1].(*Term), true))
		name := m.fresh(m.needStr(a[0], "nd"))
		b := make([]*Term, n)
		for i := range b {
			b[i] = m.newSym(8, fmt.Sprintf("%s.%d", name, i), false, 0, 0)
		}
		if n == 0 {
			return Str{}
		}
		return Str{b: b}
	})
	reg("nd.Choose", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		n := m.concInt(a[1].(*Term), true)
		return m.i64(int64(m.choose(m.needStr(a[0], "nd"), int(n), false)))
	})
	reg("nd.Assume", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		m.assume(a[0].(*Term))
		return nil
	})
	reg("nd.Assert", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		m.assertProp(a[0].(*Term), m.needStr(a[1], "label"), "", nil)
		return nil
	})
	reg("nd.AssertKnown", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		m.assertProp(a[0].(*Term), m.needStr(a[1], "label"), m.needStr(a[2], "known"), a[3].(*Term))
		return nil
	})
	reg("nd.Unsupported", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		s := m.needStr(a[0], "nd")
		unsupported("%s", s)
		return nil
	})
	reg("nd.Cover", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		m.covers[m.needStr(a[0], "label")] = true
		return nil
	})
	reg("nd.ObserveInt", observe)
	reg("nd.ObserveStr", observe)
	reg("nd.ObserveFloat", observe)
	reg("nd.ObserveBool", observe)
	reg("nd.And", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		r := m.st.tt
		for _, x := range a[0].(SliceV) {
			r = m.st.And(r, x.(*Term))
		}
		return r
	})
	reg("nd.Or", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		r := m.st.ff
		for _, x := range a[0].(SliceV) {
			r = m.st.Or(r, x.(*Term))
		}
		return r
	})
	reg("nd.Implies", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		return m.st.Implies(a[0].(*Term), a[1].(*Term))
	})
	reg("nd.Iff", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		return m.st.Eq(a[0].(*Term), a[1].(*Term))
	})
	regs(func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		return m.st.Ite(a[0].(*Term), a[1].(*Term), a[2].(*Term))
	}, "nd.IteInt", "nd.IteFloat")
	reg("nd.Same", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		return m.st.Eq(a[0].(*Term), a[1].(*Term))
	})
	reg("nd.StrEq", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		return m.strEq(a[0].(Str), a[1].(Str))
	})
	reg("nd.B2I", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		return m.st.Ite(a[0].(*Term), m.i64(1), m.i64(0))
	})
	structOf := func(v Value) (*types.Struct, *Value) {
		i, ok := v.(Iface)
		if !ok || i.t == nil {
			return nil, nil
		}
		p, ok := i.t.Underlying().(*types.Pointer)
		if !ok {
			return nil, nil
		}
		st, ok := p.Elem().Underlying().(*types.Struct)
		q, _ := i.v.(*Value)
		if !ok || q == nil {
			return nil, nil
		}
		return st, q
	}
	reg("nd.Fields", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		st, _ := structOf(a[0])
		if st == nil {
			return m.i64(-1)
		}
		return m.i64(int64(st.NumFields()))
	})
	reg("nd.FieldName", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		st, _ := structOf(a[0])
		return m.str(st.Field(int(m.concInt(a[1].(*Term), true))).Name())
	})
	reg("nd.FieldTag", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		st, _ := structOf(a[0])
		return m.str(st.Tag(int(m.concInt(a[1].(*Term), true))))
	})
	reg("nd.FieldPtr", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		st, p := structOf(a[0])
		i := int(m.concInt(a[1].(*Term), true))
		return Iface{t: canon(types.NewPointer(st.Field(i).Type())), v: &(*p).(StructV)[i]}
	})
	reg("nd.MapValue", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		p := a[0].(Iface)
		mt := p.t.Underlying().(*types.Pointer).Elem().Underlying().(*types.Map)
		mp, _ := (*m.ptr(p.v)).(*MapV)
		if e := m.mapFind(mp, a[1]); e != nil {
			return Iface{t: canon(mt.Elem()), v: copyVal(e.val)}
		}
		return Iface{}
	})
	reg("nd.MapOrder", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		m.mapOrd = m.branch(a[0].(*Term))
		return nil
	})
	reg("nd.Threads", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		m.preempt = int(m.concInt(a[0].(*Term), true))
		m.schedND = true
		m.raceOn = true
		return nil
	})
	reg("nd.NoThreads", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		m.preempt, m.schedND, m.raceOn = 0, false, false
		return nil
	})
	reg("nd.Go", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		m.spawn(fr, a[0], nil)
		return nil
	})
	reg("nd.Quiesce", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		m.quiesce()
		return nil
	})
	reg("nd.Yield", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		m.schedPoint()
		return nil
	})
	reg("os/signal.Notify", zeroIntr)
	reg("nd.Jitter", zeroIntr)
	reg("nd.Single", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value { return nil })
	reg("nd.Elapse", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		c := &Chan{cap: 1}
		m.addTimer(a[0].(*Term), c, false, nil)
		m.block(func() bool { return len(c.buf) > 0 })
		return nil
	})
	reg("nd.Skip", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		if m.skew == nil {
			m.skew = m.i64(0)
		}
		m.skew = m.st.Bin(OAdd, m.skew, a[0].(*Term))
		return a[0]
	})
	reg("nd.Timers", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		m.ctrs["timers"] = int(m.concInt(a[0].(*Term), true))
		return nil
	})
	reg("nd.Symbolic", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value { return m.st.tt })

	// ---------------- sync
	reg("(*sync.Mutex).Lock", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		s := m.mutex(a[0])
		m.schedPoint()
		m.block(func() bool { return !s.w })
		s.w = true
		m.cur.vc = m.cur.vc.join(s.vc)
		return nil
	})
	reg("(*sync.Mutex).TryLock", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		s := m.mutex(a[0])
		m.schedPoint()
		if s.w {
			return m.st.ff
		}
		s.w = true
		m.cur.vc = m.cur.vc.join(s.vc)
		return m.st.tt
	})
	reg("(*sync.Mutex).Unlock", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		s := m.mutex(a[0])
		if !s.w {
			m.goPanic("fatal error: sync: unlock of unlocked mutex")
		}
		m.tick()
		s.vc = s.vc.join(m.cur.vc)
		s.w = false
		m.schedPoint()
		return nil
	})
	reg("(*sync.RWMutex).Lock", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		s := m.mutex(a[0])
		m.schedPoint()
		m.block(func() bool { return !s.w && s.r == 0 })
		s.w = true
		m.cur.vc = m.cur.vc.join(s.vc).join(s.rv)
		return nil
	})
	reg("(*sync.RWMutex).Unlock", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		s := m.mutex(a[0])
		if !s.w {
			m.goPanic("fatal error: sync: Unlock of unlocked RWMutex")
		}
		m.tick()
		s.vc = s.vc.join(m.cur.vc)
		s.w = false
		m.schedPoint()
		return nil
	})
	reg("(*sync.RWMutex).RLock", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		s := m.mutex(a[0])
		m.schedPoint()
		m.block(func() bool { return !s.w })
		s.r++
		m.cur.vc = m.cur.vc.join(s.vc)
		return nil
	})
	reg("(*sync.RWMutex).RUnlock", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		s := m.mutex(a[0])
		if s.r == 0 {
			m.goPanic("fatal error: sync: RUnlock of unlocked RWMutex")
		}
		m.tick()
		s.rv = s.rv.join(m.cur.vc)
		s.r--
		m.schedPoint()
		return nil
	})
	wg := func(m *M, v Value) *wgSt {
		p := m.ptr(v)
		return m.sideGet([2]interface{}{p, "wg"}, func() interface{} { return &wgSt{} }).(*wgSt)
	}
	add := func(m *M, s *wgSt, d int64) {
		m.tick()
		s.vc = s.vc.join(m.cur.vc)
		s.n += d
		if s.n < 0 {
			m.goPanic("sync: negative WaitGroup counter")
		}
		m.schedPoint()
	}
	reg("(*sync.WaitGroup).Add", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		add(m, wg(m, a[0]), m.concInt(a[1].(*Term), true))
		return nil
	})
	reg("(*sync.WaitGroup).Done", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		add(m, wg(m, a[0]), -1)
		return nil
	})
	reg("(*sync.WaitGroup).Wait", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		s := wg(m, a[0])
		m.schedPoint()
		m.block(func() bool { return s.n == 0 })
		m.cur.vc = m.cur.vc.join(s.vc)
		return nil
	})
	reg("(*sync.WaitGroup).Go", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		s := wg(m, a[0])
		add(m, s, 1)
		f := a[1]
		m.spawn(fr, &HostFn{name: "wg.Go", fn: func(m *M, _ []Value) Value {
			m.call(nil, f, nil)
			add(m, s, -1)
			return nil
		}}, nil)
		return nil
	})
	type onceSt struct {
		state int
		vc    VC
	}
	reg("(*sync.Once).Do", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		p := m.ptr(a[0])
		// the flag lives in the Once itself so that it survives package initialisation
		s := (*p).(StructV)
		fld := func() *Value { return firstInt(&s) }()
		if t, ok := (*fld).(*Term); ok && t.isConst() && t.val == 1 {
			st := m.sideGet([2]interface{}{p, "once"}, func() interface{} { return &onceSt{state: 2} }).(*onceSt)
			m.block(func() bool { return st.state == 2 })
			m.cur.vc = m.cur.vc.join(st.vc)
			return nil
		}
		m.set(fld, m.st.Const((*fld).(*Term).sort, 1))
		st := &onceSt{}
		m.side[[2]interface{}{p, "once"}] = st
		m.call(fr, a[1], nil)
		m.tick()
		st.vc = m.cur.vc.clone()
		st.state = 2
		return nil
	})
	reg("(*sync.Pool).Get", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		s := (*m.ptr(a[0])).(StructV)
		f := s[len(s)-1]
		if isNilFunc(f) {
			return Iface{}
		}
		return m.call(fr, f, nil)
	})
	reg("(*sync.Pool).Put", zeroIntr)
	smap := func(m *M, v Value) *MapV {
		p := m.ptr(v)
		return m.sideGet([2]interface{}{p, "smap"}, func() interface{} { return m.newMap() }).(*MapV)
	}
	reg("(*sync.Map).Load", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		m.schedPoint()
		if e := m.mapFind(smap(m, a[0]), a[1]); e != nil {
			return TupleV{e.val, m.st.tt}
		}
		return TupleV{Iface{}, m.st.ff}
	})
	reg("(*sync.Map).Store", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		m.schedPoint()
		m.mapSet(smap(m, a[0]), a[1], a[2])
		return nil
	})
	reg("(*sync.Map).LoadOrStore", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		m.schedPoint()
		if e := m.mapFind(smap(m, a[0]), a[1]); e != nil {
			return TupleV{e.val, m.st.tt}
		}
		m.mapSet(smap(m, a[0]), a[1], a[2])
		return TupleV{a[2], m.st.ff}
	})
	reg("(*sync.Map).Delete", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		m.schedPoint()
		m.mapDelete(smap(m, a[0]), a[1])
		return nil
	})
	reg("(*sync.Map).LoadAndDelete", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		m.schedPoint()
		e := m.mapFind(smap(m, a[0]), a[1])
		if e == nil {
			return TupleV{Iface{}, m.st.ff}
		}
		v := e.val
		m.mapDelete(smap(m, a[0]), a[1])
		return TupleV{v, m.st.tt}
	})
	reg("(*sync.Map).Range", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		mp := smap(m, a[0])
		for _, e := range append([]*mapEntry{}, mp.entries...) {
			if e.dead {
				continue
			}
			if !m.branch(m.call(fr, a[1], []Value{e.key, e.val}).(*Term)) {
				break
			}
		}
		return nil
	})

	// ---------------- sync/atomic
	for _, pk := range []string{"sync/atomic", "internal/runtime/atomic"} {
		for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
			reg(pk+".Load"+ty, func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
				m.schedPoint()
				p := m.ptr(a[0])
				m.atomicSync(p)
				return *p
			})
			reg(pk+".Store"+ty, func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
				m.schedPoint()
				p := m.ptr(a[0])
				m.atomicSync(p)
				m.set(p, a[1])
				return nil
			})
			reg(pk+".Swap"+ty, func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
				m.schedPoint()
				p := m.ptr(a[0])
				m.atomicSync(p)
				o := *p
				m.set(p, a[1])
				return o
			})
			reg(pk+".CompareAndSwap"+ty, func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
				m.schedPoint()
				p := m.ptr(a[0])
				m.atomicSync(p)
				if m.branch(m.eqVal(*p, a[1])) {
					m.set(p, a[2])
					return m.st.tt
				}
				return m.st.ff
			})
			reg(pk+".Add"+ty, func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
				m.schedPoint()
				p := m.ptr(a[0])
				m.atomicSync(p)
				v := m.st.Bin(OAdd, (*p).(*Term), a[1].(*Term))
				m.set(p, v)
				return v
			})
		}
	}
	reg("(*sync/atomic.Value).Load", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		m.schedPoint()
		p := m.ptr(a[0])
		m.atomicSync(p)
		return (*p).(StructV)[0]
	})
	reg("(*sync/atomic.Value).Store", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		m.schedPoint()
		p := m.ptr(a[0])
		m.atomicSync(p)
		m.set(&(*p).(StructV)[0], a[1])
		return nil
	})
	reg("(*sync/atomic.Value).CompareAndSwap", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		p := m.ptr(a[0])
		m.atomicSync(p)
		c := &(*p).(StructV)[0]
		if m.branch(m.eqVal(*c, a[1])) {
			m.set(c, a[2])
			return m.st.tt
		}
		return m.st.ff
	})

	// ---------------- runtime & co
	regs(zeroIntr, "runtime.SetFinalizer", "runtime.KeepAlive", "runtime.GC", "runtime.Callers", "runtime.Caller",
		"time.initLocal", "(*strings.Builder).copyCheck", "runtime.ReadMemStats", "os.init", "log.Printf", "log.Println", "log.Print",
		"internal/race.Acquire", "internal/race.Release", "internal/race.Enable", "internal/race.Disable", "runtime/debug.SetGCPercent",
		"os.runtime_args", "syscall.runtime_envs", "internal/godebug.setUpdate", "internal/godebug.registerMetric",
		"(*internal/godebug.Setting).IncNonDefault", "internal/synctest.IsInBubble", "time.syncTimer")
	reg("(*internal/godebug.Setting).Value", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value { return Str{} })
	reg("runtime.Gosched", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		if len(m.threads) > 1 {
			m.schedPoint()
		}
		return nil
	})
	reg("runtime.NumCPU", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value { return m.i64(8) })
	reg("runtime.GOMAXPROCS", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value { return m.i64(8) })
	env := func(m *M) map[string]Str {
		return m.sideGet("env", func() interface{} { return map[string]Str{} }).(map[string]Str)
	}
	reg("os.Getenv", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value { return env(m)[m.needStr(a[0], "Getenv")] })
	reg("os.LookupEnv", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		v, ok := env(m)[m.needStr(a[0], "LookupEnv")]
		return TupleV{v, m.st.Bool(ok)}
	})
	reg("os.Setenv", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		env(m)[m.needStr(a[0], "Setenv")] = a[1].(Str)
		return Iface{}
	})
	reg("os.Unsetenv", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		delete(env(m), m.needStr(a[0], "Unsetenv"))
		return Iface{}
	})
	// dereferences pointers; anything else is returned as it is
	reg("github.com/spf13/cast.indirect", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		i := a[0].(Iface)
		if i.t != nil {
			if _, ok := i.t.Underlying().(*types.Pointer); ok {
				unsupported("cast of a pointer")
			}
		}
		return TupleV{i, m.st.ff}
	})
	reg("os.Hostname", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value { return TupleV{Str{s: "host"}, Iface{}} })

	// ---------------- time
	reg("time.Now", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value { return m.timeNowValue() })
	reg("time.now", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		return TupleV{m.i64(baseSec + m.now/1e9), m.st.Const(32, uint64(m.now%1e9)), m.i64(m.now)}
	})
	reg("time.runtimeNano", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value { return m.i64(m.now) })
	reg("time.runtimeNow", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		return TupleV{m.i64(baseSec + m.now/1e9), m.st.Const(32, uint64(m.now%1e9)), m.i64(m.now)}
	})
	reg("time.Sleep", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		c := &Chan{cap: 1}
		m.addTimer(a[0].(*Term), c, false, nil)
		m.block(func() bool { return len(c.buf) > 0 })
		return nil
	})
	reg("time.After", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		c := &Chan{cap: 1}
		m.addTimer(a[0].(*Term), c, false, nil)
		return c
	})
	reg("time.Tick", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		c := &Chan{cap: 1}
		m.addTimer(a[0].(*Term), c, true, nil)
		return c
	})
	mkTimer := func(m *M, fn *ssa.Function, c *Chan, tr *timerRec) Value {
		pt := fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer)
		v := m.zero(pt.Elem())
		v.(StructV)[0] = c
		p := &v
		m.side[[2]interface{}{p, "timer"}] = tr
		return p
	}
	reg("time.NewTimer", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		c := &Chan{cap: 1}
		return mkTimer(m, fn, c, m.addTimer(a[0].(*Term), c, false, nil))
	})
	reg("time.NewTicker", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		if t := a[0].(*Term); t.isConst() && int64(t.val) <= 0 {
			m.goPanic("non-positive interval for NewTicker")
		}
		c := &Chan{cap: 1}
		return mkTimer(m, fn, c, m.addTimer(a[0].(*Term), c, true, nil))
	})
	reg("time.AfterFunc", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		c := &Chan{cap: 1}
		return mkTimer(m, fn, c, m.addTimer(a[0].(*Term), c, false, a[1]))
	})
	stop := func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		if tr, ok := m.side[[2]interface{}{a[0], "timer"}].(*timerRec); ok {
			was := !tr.dead
			tr.dead = true
			if fn.Signature.Results().Len() == 1 {
				return m.st.Bool(was)
			}
		}
		return m.zeroResult(fn.Signature)
	}
	reg("(*time.Timer).Stop", stop)
	reg("(*time.Ticker).Stop", stop)
	reset := func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		if tr, ok := m.side[[2]interface{}{a[0], "timer"}].(*timerRec); ok {
			was := !tr.dead
			d := int64(0)
			if t := a[1].(*Term); t.isConst() {
				d = int64(t.val)
			}
			tr.at, tr.dead = m.now+d, false
			if fn.Signature.Results().Len() == 1 {
				return m.st.Bool(was)
			}
		}
		return m.zeroResult(fn.Signature)
	}
	reg("(*time.Timer).Reset", reset)
	reg("(*time.Ticker).Reset", reset)
	reg("(time.Time).Format", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		return Str{s: "<time>", opaque: true}
	})
	reg("(time.Time).String", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		return Str{s: "<time>", opaque: true}
	})
	reg("(time.Duration).String", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		if t := a[0].(*Term); t.isConst() {
			return Str{s: time.Duration(t.val).String()}
		}
		if m.branch(m.st.Eq(a[0].(*Term), m.i64(0))) {
			return Str{s: "0s"}
		}
		return Str{s: "<duration>", opaque: true}
	})

	// ---------------- errors
	reg("errors.Is", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		return m.st.Bool(m.errorsIs(fr, a[0].(Iface), a[1].(Iface)))
	})
	reg("errors.As", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		return m.st.Bool(m.errorsAs(fr, a[0].(Iface), a[1].(Iface)))
	})

	// ---------------- fmt
	reg("fmt.Sprintf", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value { return m.format(fr, a[0], a[1]) })
	reg("fmt.Sprint", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value { return m.sprint(fr, a[0], false) })
	reg("fmt.Sprintln", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value { return m.sprint(fr, a[0], true) })
	reg("fmt.Errorf", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		s := m.format(fr, a[0], a[1])
		f := m.strModel(a[0].(Str))
		if i := strings.Index(f, "%w"); i >= 0 {
			// which argument is wrapped
			n := 0
			for j := 0; j < i; j++ {
				if f[j] == '%' {
					if j+1 < len(f) && f[j+1] == '%' {
						j++
						continue
					}
					n++
				}
			}
			args, _ := a[1].(SliceV)
			if n < len(args) {
				t := m.w.namedType("fmt", "wrapError")
				var v Value = StructV{s, args[n]}
				return Iface{t: types.NewPointer(t), v: &v}
			}
		}
		t := m.w.namedType("errors", "errorString")
		var v Value = StructV{s}
		return Iface{t: types.NewPointer(t), v: &v}
	})
	reg("fmt.Println", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value { return TupleV{m.i64(0), Iface{}} })
	reg("fmt.Printf", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value { return TupleV{m.i64(0), Iface{}} })
	reg("fmt.Print", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value { return TupleV{m.i64(0), Iface{}} })

	// ---------------- math
	reg("math.Float64bits", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		return m.st.FUn(OFPToBits, a[0].(*Term), 0)
	})
	reg("math.Float64frombits", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		return m.st.FUn(OBitsToFP, a[0].(*Term), 0)
	})
	reg("math.Float32bits", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		t := a[0].(*Term)
		if !t.isConst() {
			unsupported("float32 bits")
		}
		return m.st.Const(32, uint64(math.Float32bits(float32(math.Float64frombits(t.val)))))
	})
	reg("math.IsNaN", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value { return m.st.FUn(OFIsNaN, a[0].(*Term), 0) })
	reg("math.IsInf", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		s := m.st
		x := a[0].(*Term)
		sign := sx(m.concretize(a[1].(*Term)), 64)
		r := s.ff
		if sign >= 0 {
			r = s.Or(r, s.FBin(OFEq, x, s.F64(math.Inf(1))))
		}
		if sign <= 0 {
			r = s.Or(r, s.FBin(OFEq, x, s.F64(math.Inf(-1))))
		}
		return r
	})
	reg("math.Abs", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value { return m.st.FUn(OFAbs, a[0].(*Term), 0) })
	reg("math.Sqrt", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value { return m.st.FUn(OSqrt, a[0].(*Term), 0) })
	for i, n := range []string{"Floor", "Ceil", "Trunc", "RoundToEven"} {
		mode := uint64(i)
		reg("math."+n, func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
			return m.st.FUn(OFRound, a[0].(*Term), mode)
		})
	}
	reg("math.archMax", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		return m.call(fr, fn.Pkg.Func("max"), a)
	})
	reg("math.archMin", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		return m.call(fr, fn.Pkg.Func("min"), a)
	})

	// ---------------- strings and bytes primitives
	regs(func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		return m.i64(int64(m.indexByte(m.seq(a[0]), a[1].(*Term))))
	}, "internal/bytealg.IndexByteString", "internal/bytealg.IndexByte", "strings.IndexByte", "bytes.IndexByte", "internal/stringslite.IndexByte")
	regs(func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		x, y := m.seq(a[0]), m.seq(a[1])
		return m.i64(int64(m.indexSeq(x, y)))
	}, "internal/bytealg.IndexString", "internal/bytealg.Index", "strings.Index", "bytes.Index", "internal/stringslite.Index")
	reg("strings.Contains", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		if x, ok := concStr(a[0]); ok {
			if y, ok := concStr(a[1]); ok {
				return m.st.Bool(strings.Contains(x, y))
			}
		}
		// one condition instead of one fork per position
		x, y := m.seq(a[0]), m.seq(a[1])
		r := m.st.ff
		for i := 0; i+len(y) <= len(x); i++ {
			c := m.st.tt
			for j := range y {
				c = m.st.And(c, m.st.Eq(x[i+j], y[j]))
			}
			r = m.st.Or(r, c)
		}
		return r
	})
	regs(func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		x := m.seq(a[0])
		c := a[1].(*Term)
		n := m.i64(0)
		for _, t := range x {
			n = m.st.Bin(OAdd, n, m.st.Ite(m.st.Eq(t, c), m.i64(1), m.i64(0)))
		}
		return n
	}, "internal/bytealg.CountString", "internal/bytealg.Count")
	regs(func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		x, c := m.seq(a[0]), a[1].(*Term)
		for i := len(x) - 1; i >= 0; i-- {
			if m.branch(m.st.Eq(x[i], c)) {
				return m.i64(int64(i))
			}
		}
		return m.i64(-1)
	}, "internal/bytealg.LastIndexByteString", "internal/bytealg.LastIndexByte", "strings.LastIndexByte")
	reg("internal/bytealg.MakeNoZero", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		n := int(m.concInt(a[0].(*Term), true))
		r := make(SliceV, n)
		for i := range r {
			r[i] = m.st.Const(8, 0)
		}
		return r
	})
	regs(func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		return m.strEq(m.mkStr(m.seq(a[0])), m.mkStr(m.seq(a[1])))
	}, "internal/bytealg.Equal", "bytes.Equal")
	regs(func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		x, y := m.mkStr(m.seq(a[0])), m.mkStr(m.seq(a[1]))
		s := m.st
		return s.Ite(m.strEq(x, y), m.i64(0), s.Ite(m.strLess(x, y, false), m.i64(-1), m.i64(1)))
	}, "internal/bytealg.Compare", "internal/bytealg.CompareString", "strings.Compare", "cmp.CompareString", "runtime.cmpstring")

	// one condition for a set of ASCII characters
	reg("strings.IndexAny", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		cs, ok := concStr(a[1])
		if s, conc := concStr(a[0]); ok && conc {
			return m.i64(int64(strings.IndexAny(s, cs)))
		}
		for i := 0; i < len(cs); i++ {
			ok = ok && cs[i] < 0x80
		}
		if !ok {
			return m.runBody(fr, fn, a)
		}
		x := m.seq(a[0])
		r := m.i64(-1)
		for i := len(x) - 1; i >= 0; i-- {
			c := m.st.ff
			for j := 0; j < len(cs); j++ {
				c = m.st.Or(c, m.st.Eq(x[i], m.st.Const(8, uint64(cs[j]))))
			}
			r = m.st.Ite(c, m.i64(int64(i)), r)
		}
		return r
	})

	host1 := func(name string, f func(s string) string) {
		reg(name, func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
			if s, ok := concStr(a[0]); ok {
				return Str{s: f(s)}
			}
			return m.runBody(fr, fn, a)
		})
	}
	host1("strings.ToLower", strings.ToLower)
	host1("strings.ToUpper", strings.ToUpper)
	host1("strings.TrimSpace", strings.TrimSpace)
	reg("internal/stringslite.Clone", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value { return a[0] })
	reg("strings.Clone", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value { return a[0] })
	host1("strconv.Quote", strconv.Quote)
	host2 := func(name string, f func(s, t string) Value2) {
		reg(name, func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
			if s, ok := concStr(a[0]); ok {
				if t, ok := concStr(a[1]); ok {
					return f(s, t).val(m)
				}
			}
			return m.runBody(fr, fn, a)
		})
	}
	host2("strings.Split", func(s, t string) Value2 { return strsV(strings.Split(s, t)) })
	host2("strings.TrimPrefix", func(s, t string) Value2 { return strV(strings.TrimPrefix(s, t)) })
	host2("strings.TrimSuffix", func(s, t string) Value2 { return strV(strings.TrimSuffix(s, t)) })
	host2("strings.EqualFold", func(s, t string) Value2 { return boolV(strings.EqualFold(s, t)) })
	reg("strings.Replace", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		x, ok1 := concStr(a[0])
		y, ok2 := concStr(a[1])
		z, ok3 := concStr(a[2])
		if ok1 && ok2 && ok3 {
			return Str{s: strings.Replace(x, y, z, int(m.concInt(a[3].(*Term), true)))}
		}
		return m.runBody(fr, fn, a)
	})
	reg("strings.ReplaceAll", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		x, ok1 := concStr(a[0])
		y, ok2 := concStr(a[1])
		z, ok3 := concStr(a[2])
		if ok1 && ok2 && ok3 {
			return Str{s: strings.ReplaceAll(x, y, z)}
		}
		return m.runBody(fr, fn, a)
	})
	// number formatting and parsing on concrete text; failures run the real code to build the error
	reg("strconv.Itoa", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		if t := a[0].(*Term); t.isConst() {
			return Str{s: strconv.FormatInt(int64(t.val), 10)}
		}
		return m.runBody(fr, fn, a)
	})
	reg("strconv.FormatInt", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		t, b := a[0].(*Term), a[1].(*Term)
		if t.isConst() && b.isConst() {
			return Str{s: strconv.FormatInt(int64(t.val), int(b.val))}
		}
		return m.runBody(fr, fn, a)
	})
	reg("strconv.FormatFloat", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		t := a[0].(*Term)
		if t.isConst() && a[1].(*Term).isConst() && a[2].(*Term).isConst() {
			return Str{s: strconv.FormatFloat(math.Float64frombits(t.val), byte(a[1].(*Term).val), int(int64(a[2].(*Term).val)), int(a[3].(*Term).val))}
		}
		return Str{s: "<float>", opaque: true}
	})
	reg("strconv.FormatBool", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		if m.branch(a[0].(*Term)) {
			return Str{s: "true"}
		}
		return Str{s: "false"}
	})
	reg("strconv.ParseInt", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		if s, ok := concStr(a[0]); ok && a[1].(*Term).isConst() && a[2].(*Term).isConst() {
			if v, err := strconv.ParseInt(s, int(a[1].(*Term).val), int(a[2].(*Term).val)); err == nil {
				return TupleV{m.i64(v), Iface{}}
			}
		}
		return m.runBody(fr, fn, a)
	})
	reg("strconv.ParseFloat", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		if s, ok := concStr(a[0]); ok && a[1].(*Term).isConst() {
			if v, err := strconv.ParseFloat(s, int(a[1].(*Term).val)); err == nil {
				return TupleV{m.st.F64(v), Iface{}}
			}
		}
		return m.runBody(fr, fn, a)
	})

	// ---------------- sort
	sorter := func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		s, _ := a[0].(Iface).v.(SliceV)
		less := a[1]
		n := len(s)
		if n > 20 {
			unsupported("sort of %d elements", n)
		}
		// insertion sort: what the library does for at most 12 elements (20 for the stable variant)
		for i := 1; i < n; i++ {
			for j := i; j > 0; j-- {
				if !m.branch(m.call(fr, less, []Value{m.i64(int64(j)), m.i64(int64(j - 1))}).(*Term)) {
					break
				}
				x, y := copyVal(s[j]), copyVal(s[j-1])
				m.storeTo(&s[j], y)
				m.storeTo(&s[j-1], x)
			}
		}
		return nil
	}
	reg("sort.Slice", sorter)
	reg("sort.SliceStable", sorter)

	// ---------------- reflection
	reg("reflect.DeepEqual", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		return m.deepEq(a[0], a[1], 0)
	})
}

// Value2 defers building of engine values from host results.
type Value2 interface{ val(m *M) Value }
type strV string
type strsV []string
type boolV bool

func (s strV) val(m *M) Value  { return Str{s: string(s)} }
func (s boolV) val(m *M) Value { return m.st.Bool(bool(s)) }
func (s strsV) val(m *M) Value {
	if s == nil {
		return SliceV(nil)
	}
	r := make(SliceV, len(s))
	for i, x := range s {
		r[i] = Str{s: x}
	}
	return r
}

func observe(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
	m.obs = append(m.obs, obsRec{name: m.needStr(a[0], "nd"), v: a[1]})
	return nil
}

// firstInt finds the first integer cell of a (nested) struct.
func firstInt(s *StructV) *Value {
	for i := range *s {
		switch x := (*s)[i].(type) {
		case *Term:
			return &(*s)[i]
		case StructV:
			if r := firstInt(&x); r != nil {
				return r
			}
		}
	}
	return nil
}

func (m *M) atomicSync(p *Value) {
	type at struct{ vc VC }
	if len(m.threads) < 2 {
		return
	}
	s := m.sideGet([2]interface{}{p, "atomic"}, func() interface{} { return &at{} }).(*at)
	m.tick()
	s.vc = s.vc.join(m.cur.vc)
	m.cur.vc = m.cur.vc.join(s.vc)
}

// runBody executes the source of a function that has an intrinsic.
func (m *M) runBody(fr *frame, fn *ssa.Function, args []Value) Value {
	info := m.w.bodyInfo(fn)
	if len(fn.Blocks) == 0 {
		unsupported("no body: %s", fn)
	}
	nf := &frame{fn: fn, info: info, caller: fr, regs: make([]Value, info.n)}
	for i := range fn.Params {
		nf.regs[i] = args[i]
	}
	if fn.Pkg != nil {
		m.ensureInit(fn.Pkg)
	}
	nf.block = fn.Blocks[0]
	m.run(nf)
	return nf.result
}

const baseSec = 1_700_000_000

func (m *M) timeNowValue() Value {
	// wall clock without monotonic reading, like time.Unix(sec, nsec)
	t := m.w.namedType("time", "Time")
	v := m.zero(t).(StructV)
	sec := int64(baseSec) + m.now/1e9
	v[0] = m.st.Const(64, uint64(m.now%1e9))
	v[1] = m.i64(sec + 62135596800)
	if m.skew != nil {
		t := m.st.Bin(OAdd, m.skew, m.i64(m.now))
		v[0] = m.st.Bin(OSRem, t, m.i64(1e9))
		v[1] = m.st.Bin(OAdd, m.i64(baseSec+62135596800), m.st.Bin(OSDiv, t, m.i64(1e9)))
	}
	if p := m.w.prog.ImportedPackage("time"); p != nil {
		if g, ok := p.Members["localLoc"].(*ssa.Global); ok {
			v[2] = m.global(g)
		}
	}
	return v
}

func (m *M) addTimer(d *Term, c *Chan, every bool, fn Value) *timerRec {
	dd := int64(0)
	if d.isConst() {
		dd = int64(d.val)
	} else {
		dd = int64(m.eval(d)) // the order of virtual timers is all that depends on it
		m.native = true
	}
	tr := &timerRec{at: m.now + max(dd, 0), c: c}
	if every {
		tr.every = max(dd, 1)
	}
	tr.fn = fn
	m.timers = append(m.timers, tr)
	return tr
}

// seq is the byte sequence of a string or []byte.
func (m *M) seq(v Value) []*Term {
	switch x := v.(type) {
	case Str:
		return m.strBytes(x)
	case SliceV:
		r := make([]*Term, len(x))
		for i := range x {
			r[i] = x[i].(*Term)
		}
		return r
	}
	unsupported("byte sequence %T", v)
	return nil
}

func (m *M) indexByte(x []*Term, c *Term) int {
	for i, t := range x {
		if m.branch(m.st.Eq(t, c)) {
			return i
		}
	}
	return -1
}

func (m *M) indexSeq(x, y []*Term) int {
	for i := 0; i+len(y) <= len(x); i++ {
		c := m.st.tt
		for j := range y {
			c = m.st.And(c, m.st.Eq(x[i+j], y[j]))
		}
		if m.branch(c) {
			return i
		}
	}
	return -1
}

func (m *M) errorsIs(fr *frame, err, target Iface) bool {
	if err.t == nil || target.t == nil {
		return err.t == nil && target.t == nil
	}
	for err.t != nil {
		if types.Comparable(target.t) && canon(err.t) == canon(target.t) && m.branch(m.eqVal(err, target)) {
			return true
		}
		if f := m.methodByName(err.t, "Is"); f != nil && f.Signature.Params().Len() == 1 {
			if m.branch(m.call(fr, f, []Value{err.v, target}).(*Term)) {
				return true
			}
		}
		f := m.methodByName(err.t, "Unwrap")
		if f == nil {
			return false
		}
		switch r := m.call(fr, f, []Value{err.v}).(type) {
		case Iface:
			err = r
		case SliceV:
			for _, e := range r {
				if m.errorsIs(fr, e.(Iface), target) {
					return true
				}
			}
			return false
		}
	}
	return false
}

func (m *M) errorsAs(fr *frame, err, target Iface) bool {
	pt, ok := target.t.Underlying().(*types.Pointer)
	if !ok {
		m.goPanic("errors: target must be a non-nil pointer")
	}
	want := pt.Elem()
	for err.t != nil {
		if types.IsInterface(want) {
			if m.implements(err.t, want) {
				m.storeTo(target.v.(*Value), err)
				return true
			}
		} else if canon(want) == canon(err.t) {
			m.storeTo(target.v.(*Value), err.v)
			return true
		}
		f := m.methodByName(err.t, "Unwrap")
		if f == nil {
			return false
		}
		r, ok := m.call(fr, f, []Value{err.v}).(Iface)
		if !ok {
			return false
		}
		err = r
	}
	return false
}

// ---- formatting

func (m *M) hostArg(fr *frame, v Value) (interface{}, bool) {
	i, ok := v.(Iface)
	if !ok {
		return "?", true
	}
	if i.t == nil {
		return nil, false
	}
	if e := m.methodByName(i.t, "Error"); e != nil && e.Signature.Params().Len() == 0 {
		if p, ok := i.v.(*Value); ok && p == nil {
			return "<nil>", false
		}
		if s, ok := m.call(fr, e, []Value{i.v}).(Str); ok {
			return m.strModel(s), s.opaque || s.b != nil
		}
	}
	if e := m.methodByName(i.t, "String"); e != nil && e.Signature.Params().Len() == 0 && e.Signature.Results().Len() == 1 {
		if s, ok := m.call(fr, e, []Value{i.v}).(Str); ok {
			return m.strModel(s), s.opaque || s.b != nil
		}
	}
	switch x := i.v.(type) {
	case Str:
		return m.strModel(x), x.opaque || x.b != nil
	case *Term:
		if !x.isConst() {
			return "<sym>", true
		}
		switch {
		case x.sort == SortBool:
			return x.val == 1, false
		case x.sort == SortFP:
			return math.Float64frombits(x.val), false
		}
		if isSigned(i.t) {
			return sx(x.val, x.sort), false
		}
		return x.val, false
	case SliceV:
		if el, ok := i.t.Underlying().(*types.Slice); ok {
			if b, ok := el.Elem().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				var out []string
				op := false
				for _, e := range x {
					out = append(out, m.strModel(e.(Str)))
					op = op || e.(Str).opaque || e.(Str).b != nil
				}
				return out, op
			}
		}
	}
	return "<" + i.t.String() + ">", true
}

func (m *M) format(fr *frame, f Value, args Value) Str {
	fs := f.(Str)
	op := fs.opaque || fs.b != nil
	var hs []interface{}
	sl, _ := args.(SliceV)
	// plain concatenation of strings keeps symbolic bytes
	if !op {
		if s, ok := m.formatStrings(fs.s, sl); ok {
			return s
		}
	}
	for _, a := range sl {
		h, o := m.hostArg(fr, a)
		op = op || o
		hs = append(hs, h)
	}
	text := strings.ReplaceAll(m.strModel(fs), "%w", "%v")
	if op {
		// verbs for numbers get placeholders
		for i, h := range hs {
			if h == "<sym>" {
				hs[i] = "<sym>"
			}
		}
	}
	return Str{s: fmt.Sprintf(text, hs...), opaque: op}
}

// formatStrings handles formats of only %s/%v applied to strings.
func (m *M) formatStrings(f string, args SliceV) (Str, bool) {
	sym := false
	for _, a := range args {
		i, ok := a.(Iface)
		if !ok {
			return Str{}, false
		}
		s, ok := i.v.(Str)
		if !ok || s.opaque || m.methodByName(i.t, "Error") != nil || m.methodByName(i.t, "String") != nil {
			return Str{}, false
		}
		sym = sym || s.b != nil
	}
	if !sym {
		return Str{}, false
	}
	out := Str{}
	n := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			out = m.strCat(out, Str{s: f[i : i+1]})
			continue
		}
		if i+1 >= len(f) {
			return Str{}, false
		}
		i++
		switch f[i] {
		case '%':
			out = m.strCat(out, Str{s: "%"})
		case 's', 'v':
			if n >= len(args) {
				return Str{}, false
			}
			out = m.strCat(out, args[n].(Iface).v.(Str))
			n++
		default:
			return Str{}, false
		}
	}
	if n != len(args) {
		return Str{}, false
	}
	return out, true
}

func (m *M) sprint(fr *frame, args Value, ln bool) Str {
	sl, _ := args.(SliceV)
	op := false
	var hs []interface{}
	all := true
	for _, a := range sl {
		if i, ok := a.(Iface); !ok || i.t == nil {
			all = false
		} else if s, ok := i.v.(Str); !ok || s.opaque {
			all = false
		}
	}
	if all && !ln {
		out := Str{}
		for _, a := range sl {
			out = m.strCat(out, a.(Iface).v.(Str))
		}
		return out
	}
	for _, a := range sl {
		h, o := m.hostArg(fr, a)
		op = op || o
		hs = append(hs, h)
	}
	if ln {
		return Str{s: fmt.Sprintln(hs...), opaque: op}
	}
	return Str{s: fmt.Sprint(hs...), opaque: op}
}

func (m *M) deepEq(a, b Value, d int) *Term {
	if d > 50 {
		unsupported("deep equality of a cyclic value")
	}
	s := m.st
	switch x := a.(type) {
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			return s.ff
		}
		if x.t == nil || y.t == nil {
			return s.Bool(x.t == nil && y.t == nil)
		}
		if canon(x.t) != canon(y.t) {
			return s.ff
		}
		return m.deepEq(x.v, y.v, d+1)
	case *Value:
		y := b.(*Value)
		if x == y {
			return s.tt
		}
		if x == nil || y == nil {
			return s.ff
		}
		return m.deepEq(*x, *y, d+1)
	case StructV:
		y := b.(StructV)
		r := s.tt
		for i := range x {
			r = s.And(r, m.deepEq(x[i], y[i], d+1))
		}
		return r
	case ArrV:
		return m.deepEq(StructV(x), StructV(b.(ArrV)), d)
	case SliceV:
		y := b.(SliceV)
		if (x == nil) != (y == nil) || len(x) != len(y) {
			return s.ff
		}
		return m.deepEq(StructV(x), StructV(y), d)
	case *MapV:
		y := b.(*MapV)
		if x == y {
			return s.tt
		}
		if x == nil || y == nil || x.live != y.live {
			return s.ff
		}
		r := s.tt
		for _, e := range x.entries {
			if e.dead {
				continue
			}
			f := m.mapFind(y, e.key)
			if f == nil {
				return s.ff
			}
			r = s.And(r, m.deepEq(e.val, f.val, d+1))
		}
		return r
	case *ssa.Function, *Closure:
		return s.Bool(isNilFunc(a) && isNilFunc(b))
	}
	return m.eqVal(a, b)
}

func init() {
	reg("nd.Thorough", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value { return m.st.Bool(m.w.thorough) })
}
