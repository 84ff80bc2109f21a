package main

import (
	"fmt"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// Value is one of: *Term (bool, integer, float64), Str, *Value (pointer), StructV, ArrV, SliceV, *MapV, Iface,
// *Chan, *ssa.Function / *Closure / *HostFn / *ssa.Builtin (func), TupleV, *mapIter, *strIter, Cplx (unsupported).
type Value interface{}

type StructV []Value
type ArrV []Value
type SliceV []Value
type TupleV []Value

// Str is a Go string: concrete text, or a list of 8-bit terms. Opaque strings (formatted from symbolic
// data) may be carried around but not inspected.
type Str struct {
	s      string
	b      []*Term
	opaque bool
}

func (s Str) Len() int {
	if s.b != nil {
		return len(s.b)
	}
	return len(s.s)
}

type Iface struct {
	t types.Type
	v Value
}

type Closure struct {
	fn  *ssa.Function
	env []Value
}

type HostFn struct {
	name string
	fn   func(m *M, args []Value) Value
}

type mapEntry struct {
	key  Value
	val  Value
	dead bool
}

type MapV struct {
	entries []*mapEntry
	idx     map[interface{}]*mapEntry
	nsym    int
	live    int
	id      int
}

type Chan struct {
	cap    int
	buf    []Value
	closed bool
	nilch  bool
	// waiting receivers count and senders (for unbuffered rendezvous)
	sendq []*sendWait
	recvw int
	never bool
	vc    VC
	bufvc []VC
}

type sendWait struct {
	v    Value
	done bool
	vc   VC
}

type Unsupported struct{ why string }
type pathEnd struct{ why string }

func unsupported(f string, a ...interface{}) { panic(Unsupported{fmt.Sprintf(f, a...)}) }

// ---- type canonicalisation

var typeMu sync.Mutex
var typeMap typeutil.Map
var typeCache sync.Map

func canon(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if c, ok := typeCache.Load(t); ok {
		return c.(types.Type)
	}
	typeMu.Lock()
	defer typeMu.Unlock()
	u := types.Unalias(t)
	if c := typeMap.At(u); c != nil {
		typeCache.Store(t, c)
		return c.(types.Type)
	}
	typeMap.Set(u, u)
	typeCache.Store(t, u)
	return u
}

// ---- strings

func (m *M) str(s string) Str { return Str{s: s} }

func (m *M) strBytes(s Str) []*Term {
	if s.b != nil {
		return s.b
	}
	if s.opaque {
		m.opaqueUse()
	}
	r := make([]*Term, len(s.s))
	for i := 0; i < len(s.s); i++ {
		r[i] = m.st.Const(8, uint64(s.s[i]))
	}
	return r
}

func (m *M) mkStr(b []*Term) Str {
	for _, t := range b {
		if !t.isConst() {
			return Str{b: b}
		}
	}
	r := make([]byte, len(b))
	for i, t := range b {
		r[i] = byte(t.val)
	}
	return Str{s: string(r)}
}

func (m *M) strSlice(s Str, lo, hi int) Str {
	if s.opaque {
		m.opaqueUse()
	}
	if s.b != nil {
		return m.mkStr(s.b[lo:hi:hi])
	}
	return Str{s: s.s[lo:hi]}
}

func (m *M) strCat(a, b Str) Str {
	if a.b == nil && b.b == nil {
		return Str{s: a.s + b.s, opaque: a.opaque || b.opaque}
	}
	if a.opaque || b.opaque {
		return Str{s: m.strModel(a) + m.strModel(b), opaque: true}
	}
	return m.mkStr(append(append([]*Term{}, m.strBytes(a)...), m.strBytes(b)...))
}

// strModel is the text under the current model.
func (m *M) strModel(s Str) string {
	if s.b == nil {
		return s.s
	}
	r := make([]byte, len(s.b))
	for i, t := range s.b {
		r[i] = byte(m.eval(t))
	}
	return string(r)
}

func (m *M) strEq(a, b Str) *Term {
	if a.opaque || b.opaque {
		m.opaqueUse()
	}
	if a.b == nil && b.b == nil {
		return m.st.Bool(a.s == b.s)
	}
	if a.Len() != b.Len() {
		return m.st.ff
	}
	x, y := m.strBytes(a), m.strBytes(b)
	r := m.st.tt
	for i := range x {
		r = m.st.And(r, m.st.Eq(x[i], y[i]))
		if r.isFalse() {
			return r
		}
	}
	return r
}

func (m *M) strLess(a, b Str, orEq bool) *Term {
	if a.opaque || b.opaque {
		m.opaqueUse()
	}
	if a.b == nil && b.b == nil {
		if orEq {
			return m.st.Bool(a.s <= b.s)
		}
		return m.st.Bool(a.s < b.s)
	}
	x, y := m.strBytes(a), m.strBytes(b)
	n := min(len(x), len(y))
	var r *Term
	if orEq {
		r = m.st.Bool(len(x) <= len(y))
	} else {
		r = m.st.Bool(len(x) < len(y))
	}
	for i := n - 1; i >= 0; i-- {
		r = m.st.Or(m.st.Bin(OULt, x[i], y[i]), m.st.And(m.st.Eq(x[i], y[i]), r))
	}
	return r
}

// ---- zero values, copying

func (m *M) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.UnsafePointer:
			return (*Value)(nil)
		case u.Info()&types.IsBoolean != 0:
			return m.st.ff
		case u.Info()&types.IsInteger != 0:
			return m.st.Const(intWidth(u), 0)
		case u.Info()&types.IsFloat != 0:
			return m.st.F64(0)
		case u.Info()&types.IsString != 0:
			return Str{}
		case u.Kind() == types.UntypedNil:
			return Iface{}
		}
		return Unsupported{"zero of " + u.String()}
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Array:
		r := make(ArrV, u.Len())
		for i := range r {
			r[i] = m.zero(u.Elem())
		}
		return r
	case *types.Struct:
		r := make(StructV, u.NumFields())
		for i := range r {
			r[i] = m.zero(u.Field(i).Type())
		}
		return r
	case *types.Slice:
		return SliceV(nil)
	case *types.Map:
		return (*MapV)(nil)
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return (*ssa.Function)(nil)
	case *types.Tuple:
		r := make(TupleV, u.Len())
		for i := range r {
			r[i] = m.zero(u.At(i).Type())
		}
		return r
	case *types.TypeParam:
		unsupported("zero of type parameter %s", t)
	}
	unsupported("zero of %s", t)
	return nil
}

func intWidth(b *types.Basic) Sort {
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	}
	return 64
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned == 0
}

func copyVal(v Value) Value {
	switch v := v.(type) {
	case StructV:
		r := make(StructV, len(v))
		for i, x := range v {
			r[i] = copyVal(x)
		}
		return r
	case ArrV:
		r := make(ArrV, len(v))
		for i, x := range v {
			r[i] = copyVal(x)
		}
		return r
	}
	return v
}

// set writes a cell, remembering the old content for the end of the path.
func (m *M) set(p *Value, v Value) {
	if m.logging {
		m.undo = append(m.undo, undoRec{p: p, old: *p})
	}
	*p = v
}

func (m *M) onUndo(f func()) {
	if m.logging {
		m.undo = append(m.undo, undoRec{f: f})
	}
}

// storeTo copies v into the variable at p; aggregates are updated in place so that field pointers stay valid.
func (m *M) storeTo(p *Value, v Value) {
	switch v := v.(type) {
	case StructV:
		if d, ok := (*p).(StructV); ok && len(d) == len(v) {
			for i := range v {
				m.storeTo(&d[i], v[i])
			}
			return
		}
		m.set(p, copyVal(v))
	case ArrV:
		if d, ok := (*p).(ArrV); ok && len(d) == len(v) {
			for i := range v {
				m.storeTo(&d[i], v[i])
			}
			return
		}
		m.set(p, copyVal(v))
	default:
		m.set(p, v)
	}
}

// ---- maps

func (m *M) newMap() *MapV {
	m.nmaps++
	return &MapV{idx: map[interface{}]*mapEntry{}, id: m.nmaps}
}

type strKey string
type termK struct {
	s Sort
	v uint64
}
type ifaceK struct {
	t types.Type
	v interface{}
}

// hkey is a host key for a concrete value; ok=false when symbolic.
func (m *M) hkey(v Value) (interface{}, bool) {
	switch v := v.(type) {
	case *Term:
		if v.isConst() {
			if v.sort == SortFP && v.val == 1<<63 {
				return termK{v.sort, 0}, true
			}
			return termK{v.sort, v.val}, true
		}
		return nil, false
	case Str:
		if v.opaque {
			m.opaqueUse()
		}
		if v.b == nil {
			return strKey(v.s), true
		}
		return nil, false
	case Iface:
		if v.t == nil {
			return ifaceK{}, true
		}
		k, ok := m.hkey(v.v)
		return ifaceK{canon(v.t), k}, ok
	case StructV:
		var sb strings.Builder
		for _, x := range v {
			k, ok := m.hkey(x)
			if !ok {
				return nil, false
			}
			fmt.Fprintf(&sb, "%T|%v|", k, k)
		}
		return sb.String(), true
	case ArrV:
		return m.hkey(StructV(v))
	case *Value, *Chan:
		return v, true
	}
	unsupported("map key %T", v)
	return nil, false
}

func (m *M) mapFind(mp *MapV, key Value) *mapEntry {
	if mp == nil {
		return nil
	}
	k, conc := m.hkey(key)
	if conc {
		if e := mp.idx[k]; e != nil {
			return e
		}
		if mp.nsym == 0 {
			return nil
		}
	}
	for _, e := range mp.entries {
		if e.dead {
			continue
		}
		if conc {
			if _, c := m.hkey(e.key); c {
				continue
			}
		}
		if m.branch(m.eqVal(key, e.key)) {
			return e
		}
	}
	return nil
}

func (m *M) mapSet(mp *MapV, key, val Value) {
	if e := m.mapFind(mp, key); e != nil {
		m.set(&e.val, copyVal(val))
		return
	}
	k, conc := m.hkey(key)
	e := &mapEntry{key: copyVal(key), val: copyVal(val)}
	// compact when mostly dead
	mp.entries = append(mp.entries, e)
	mp.live++
	if conc {
		mp.idx[k] = e
	} else {
		mp.nsym++
	}
	m.onUndo(func() {
		mp.live--
		for i := len(mp.entries) - 1; i >= 0; i-- {
			if mp.entries[i] == e {
				mp.entries = append(mp.entries[:i:i], mp.entries[i+1:]...)
				break
			}
		}
		if conc {
			delete(mp.idx, k)
		} else {
			mp.nsym--
		}
	})
}

func (m *M) mapDelete(mp *MapV, key Value) {
	e := m.mapFind(mp, key)
	if e == nil {
		return
	}
	k, conc := m.hkey(e.key)
	e.dead = true
	mp.live--
	if conc {
		delete(mp.idx, k)
	} else {
		mp.nsym--
	}
	old := mp.entries
	ne := make([]*mapEntry, 0, len(old))
	for _, x := range old {
		if x != e {
			ne = append(ne, x)
		}
	}
	mp.entries = ne
	m.onUndo(func() {
		e.dead = false
		mp.live++
		if conc {
			mp.idx[k] = e
		} else {
			mp.nsym++
		}
		mp.entries = old
	})
}

type mapIter struct {
	mp    *MapV
	order []*mapEntry
	i     int
	seen  map[*mapEntry]bool
}

func (it *mapIter) next(m *M) *mapEntry {
	for it.i < len(it.order) {
		e := it.order[it.i]
		it.i++
		if !e.dead {
			it.seen[e] = true
			return e
		}
	}
	// entries added while iterating may or may not be visited: they are not
	return nil
}

type strIter struct {
	s Str
	i int
}

// ---- equality

func (m *M) eqVal(a, b Value) *Term {
	switch x := a.(type) {
	case *Term:
		y := b.(*Term)
		if x.sort == SortFP {
			return m.st.FBin(OFEq, x, y)
		}
		return m.st.Eq(x, y)
	case Str:
		return m.strEq(x, b.(Str))
	case *Value:
		y, _ := b.(*Value)
		return m.st.Bool(x == y)
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			unsupported("comparing interface with %T", b)
		}
		if x.t == nil || y.t == nil {
			return m.st.Bool(x.t == nil && y.t == nil)
		}
		if canon(x.t) != canon(y.t) {
			return m.st.ff
		}
		if !types.Comparable(x.t) {
			m.goPanic("runtime error: comparing uncomparable type " + x.t.String())
		}
		return m.eqVal(x.v, y.v)
	case StructV:
		y := b.(StructV)
		r := m.st.tt
		for i := range x {
			r = m.st.And(r, m.eqVal(x[i], y[i]))
		}
		return r
	case ArrV:
		y := b.(ArrV)
		r := m.st.tt
		for i := range x {
			r = m.st.And(r, m.eqVal(x[i], y[i]))
		}
		return r
	case *MapV:
		y, _ := b.(*MapV)
		return m.st.Bool(x == y)
	case *Chan:
		y, _ := b.(*Chan)
		return m.st.Bool(x == y)
	case SliceV:
		// only against nil
		y, _ := b.(SliceV)
		return m.st.Bool(x == nil && y == nil)
	case *ssa.Function:
		if isNilFunc(b) || x == nil {
			return m.st.Bool(x == nil && isNilFunc(b))
		}
		y, _ := b.(*ssa.Function)
		return m.st.Bool(x == y)
	case *Closure, *HostFn, *ssa.Builtin:
		return m.st.Bool(!isNilFunc(b) && a == b)
	}
	unsupported("equality of %T", a)
	return nil
}

func isNilFunc(v Value) bool {
	switch v := v.(type) {
	case *ssa.Function:
		return v == nil
	case *Closure:
		return v == nil
	case nil:
		return true
	}
	return false
}
