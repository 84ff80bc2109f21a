package main

import (
	"fmt"
	"math"
	"math/bits"
	"strconv"
	"strings"
)

// Sorts: width 0 = Bool, 1..64 = bit-vector, SortFP = Float64.
type Sort int16

const (
	SortBool Sort = 0
	SortFP   Sort = -1
)

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OIte
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OBAnd
	OBOr
	OBXor
	OBNot
	ONeg
	OShl
	OLShr
	OAShr
	OULt
	OULe
	OSLt
	OSLe
	OExtract // val = lo ; sort = width
	OZExt
	OSExt
	OConcat
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFNeg
	OFAbs
	OFLt
	OFLe
	OFEq
	OFIsNaN
	OFRound   // val: 0=RNA? see roundModes
	OSIntToFP // signed bv -> fp
	OUIntToFP
	OFPToSInt // fp -> signed bv64 (amd64 semantics)
	OFPToUInt // fp -> unsigned bv64 (amd64 go semantics)
	OBitsToFP // bv64 -> fp
	OFPToBits // fp -> bv64 (canonical NaN)
	OSqrt
)

var opNames = map[Op]string{OAnd: "and", OOr: "or", ONot: "not", OEq: "=", OIte: "ite", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul",
	OUDiv: "bvudiv", OSDiv: "bvsdiv", OURem: "bvurem", OSRem: "bvsrem", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OBNot: "bvnot",
	ONeg: "bvneg", OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr", OULt: "bvult", OULe: "bvule", OSLt: "bvslt", OSLe: "bvsle", OConcat: "concat",
	OFNeg: "fp.neg", OFAbs: "fp.abs", OFLt: "fp.lt", OFLe: "fp.leq", OFEq: "fp.eq", OFIsNaN: "fp.isNaN"}

type Term struct {
	op   Op
	sort Sort
	args []*Term
	val  uint64
	name string
	id   int32
	// evaluation cache
	gen  uint32
	ev   uint64
	emit uint32 // solver context generation in which it was defined
	// hasFP marks terms containing floating-point operations
	hasFP bool
	// signed interval of the value (bit-vectors); exact: computed without wrap-around
	lo, hi int64
	exact  bool
	vset   []int32
	hard   uint8 // 2: contains multiplication or division
}

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isTrue() bool  { return t.op == OConst && t.sort == SortBool && t.val == 1 }
func (t *Term) isFalse() bool { return t.op == OConst && t.sort == SortBool && t.val == 0 }

type termKey struct {
	op      Op
	sort    Sort
	a, b, c int32
	val     uint64
	name    string
}

// Store hash-conses terms; one per worker.
type Store struct {
	tab    map[termKey]*Term
	nextID int32
	tt, ff *Term
}

func NewStore() *Store {
	s := &Store{tab: map[termKey]*Term{}}
	s.ff = s.Const(SortBool, 0)
	s.tt = s.Const(SortBool, 1)
	return s
}

func mask(w Sort) uint64 {
	if w == SortBool {
		return 1
	}
	if w >= 64 || w < 0 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func (s *Store) mk(op Op, sort Sort, val uint64, name string, args ...*Term) *Term {
	k := termKey{op: op, sort: sort, val: val, name: name, a: -1, b: -1, c: -1}
	if len(args) > 0 {
		k.a = args[0].id
	}
	if len(args) > 1 {
		k.b = args[1].id
	}
	if len(args) > 2 {
		k.c = args[2].id
	}
	if t, ok := s.tab[k]; ok {
		return t
	}
	t := &Term{op: op, sort: sort, val: val, name: name, args: args, id: s.nextID}
	t.hasFP = sort == SortFP
	for _, a := range args {
		if a.hasFP {
			t.hasFP = true
		}
	}
	s.nextID++
	s.tab[k] = t
	if sort > 0 {
		t.setRange()
	}
	return t
}

func (s *Store) Const(sort Sort, v uint64) *Term {
	return s.mk(OConst, sort, v&mask(sort), "")
}
func (s *Store) Bool(b bool) *Term {
	if b {
		return s.tt
	}
	return s.ff
}
func (s *Store) F64(f float64) *Term {
	b := math.Float64bits(f)
	if f != f {
		b = 0x7ff8000000000001
	}
	return s.Const(SortFP, b)
}
func (s *Store) Var(sort Sort, name string) *Term { return s.mk(OVar, sort, 0, name) }

// VarRange is a variable known to lie in [lo,hi] (the caller asserts it on the path). The range is part of its name.
func (s *Store) VarRange(sort Sort, name string, lo, hi int64) *Term {
	t := s.mk(OVar, sort, 0, fmt.Sprintf("%s[%d,%d]", name, lo, hi))
	t.lo, t.hi = lo, hi
	return t
}

func (s *Store) Not(a *Term) *Term {
	if a.isConst() {
		return s.Bool(a.val == 0)
	}
	if a.op == ONot {
		return a.args[0]
	}
	switch a.op {
	case OSLt:
		return s.mk(OSLe, SortBool, 0, "", a.args[1], a.args[0])
	case OSLe:
		return s.mk(OSLt, SortBool, 0, "", a.args[1], a.args[0])
	case OULt:
		return s.mk(OULe, SortBool, 0, "", a.args[1], a.args[0])
	case OULe:
		return s.mk(OULt, SortBool, 0, "", a.args[1], a.args[0])
	}
	return s.mk(ONot, SortBool, 0, "", a)
}
func (s *Store) And(a, b *Term) *Term {
	if a.isFalse() || b.isFalse() {
		return s.ff
	}
	if a.isTrue() {
		return b
	}
	if b.isTrue() || a == b {
		return a
	}
	if s.Not(a) == b {
		return s.ff
	}
	if a.id > b.id {
		a, b = b, a
	}
	return s.mk(OAnd, SortBool, 0, "", a, b)
}
func (s *Store) Or(a, b *Term) *Term {
	if a.isTrue() || b.isTrue() {
		return s.tt
	}
	if a.isFalse() {
		return b
	}
	if b.isFalse() || a == b {
		return a
	}
	if s.Not(a) == b {
		return s.tt
	}
	if a.id > b.id {
		a, b = b, a
	}
	return s.mk(OOr, SortBool, 0, "", a, b)
}
func (s *Store) Implies(a, b *Term) *Term { return s.Or(s.Not(a), b) }
func (s *Store) Ite(c, a, b *Term) *Term {
	if c.isTrue() {
		return a
	}
	if c.isFalse() {
		return b
	}
	if a == b {
		return a
	}
	if a.sort == SortBool {
		if a.isTrue() && b.isFalse() {
			return c
		}
		if a.isFalse() && b.isTrue() {
			return s.Not(c)
		}
		if a.isTrue() {
			return s.Or(c, b)
		}
		if a.isFalse() {
			return s.And(s.Not(c), b)
		}
		if b.isTrue() {
			return s.Or(s.Not(c), a)
		}
		if b.isFalse() {
			return s.And(c, a)
		}
	}
	return s.mk(OIte, a.sort, 0, "", c, a, b)
}

// Eq is structural equality of the sort (for FP: SMT "=", bit identity except NaN; use FEq for Go ==).
func (s *Store) Eq(a, b *Term) *Term {
	if a == b {
		return s.tt
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq sorts %v %v: %s %s", a.sort, b.sort, a, b))
	}
	if a.isConst() && b.isConst() {
		return s.Bool(a.val == b.val)
	}
	if a.sort > 0 && (a.hi < b.lo || b.hi < a.lo) {
		return s.ff
	}
	if a.sort == SortFP {
		if x, y := s.exactInt(a), s.exactInt(b); x != nil && y != nil {
			return s.Eq(x, y)
		}
	}
	if a.sort == SortBool {
		if a.isTrue() {
			return b
		}
		if b.isTrue() {
			return a
		}
		if a.isFalse() {
			return s.Not(b)
		}
		if b.isFalse() {
			return s.Not(a)
		}
	}
	if b.isConst() {
		a, b = b, a
	}
	if a.isConst() && b.op == OIte {
		x, y := b.args[1], b.args[2]
		if x.isConst() || y.isConst() {
			return s.Ite(b.args[0], s.Eq(a, x), s.Eq(a, y))
		}
	}
	if a.isConst() && (b.op == OZExt || b.op == OSExt) {
		in := b.args[0]
		if a.val == (signExtIf(b.op == OSExt, a.val&mask(in.sort), in.sort) & mask(b.sort)) {
			return s.Eq(s.Const(in.sort, a.val), in)
		}
		return s.ff
	}
	if a.sort > 0 && a.exact && b.exact && (a.op == OAdd || a.op == OSub || a.op == OMul || b.op == OAdd || b.op == OSub || b.op == OMul) {
		if r := s.eqLinear(a, b); r != nil {
			return r
		}
	}
	if a.isConst() && b.op == OAdd && b.args[1].isConst() {
		return s.Eq(s.Const(a.sort, a.val-b.args[1].val), b.args[0])
	}
	if !a.isConst() && a.id > b.id {
		a, b = b, a
	}
	return s.mk(OEq, SortBool, 0, "", a, b)
}

func signExtIf(c bool, v uint64, w Sort) uint64 {
	if c {
		return uint64(sx(v, w))
	}
	return v
}

func sx(v uint64, w Sort) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := uint(64 - w)
	return int64(v<<sh) >> sh
}

// Bin builds bit-vector binary operations.
func (s *Store) Bin(op Op, a, b *Term) *Term {
	w := a.sort
	if a.sort != b.sort {
		panic(fmt.Sprintf("Bin %s sorts %v %v", opNames[op], a.sort, b.sort))
	}
	rs := w
	switch op {
	case OULt, OULe, OSLt, OSLe:
		rs = SortBool
	}
	if a.isConst() && b.isConst() {
		return s.Const(rs, evalBin(op, a.val, b.val, w))
	}
	if w > 0 {
		if r := s.rangeSimp(op, a, b); r != nil {
			return r
		}
	}
	switch op {
	case OAdd:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.val == 0 {
				return a
			}
			if a.op == OAdd && a.args[1].isConst() {
				return s.Bin(OAdd, a.args[0], s.Const(w, a.args[1].val+b.val))
			}
		}
	case OSub:
		if b.isConst() {
			return s.Bin(OAdd, a, s.Const(w, -b.val))
		}
		if a == b {
			return s.Const(w, 0)
		}
	case OMul:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.val == 0 {
				return b
			}
			if b.val == 1 {
				return a
			}
		}
	case OUDiv, OSDiv:
		if b.isConst() && b.val == 1 {
			return a
		}
	case OBAnd:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.val == 0 {
				return b
			}
			if b.val == mask(w) {
				return a
			}
			if a.op == OZExt && b.val&mask(a.args[0].sort) == mask(a.args[0].sort) {
				return a
			}
			if b.val == 1<<63 && w == 64 {
				return s.Ite(s.signBit(a), b, s.Const(w, 0))
			}
			if a.lo >= 0 {
				bits := uint64(1)
				for bits-1 < uint64(a.hi) {
					bits <<= 1
				}
				switch b.val & (bits - 1) {
				case 0:
					return s.Const(w, 0)
				case bits - 1:
					return a
				}
			}
		}
		if a == b {
			return a
		}
	case OBOr, OBXor:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() && b.val == 0 {
			return a
		}
		if a == b {
			if op == OBXor {
				return s.Const(w, 0)
			}
			return a
		}
	case OShl, OLShr, OAShr:
		if b.isConst() {
			if b.val == 0 {
				return a
			}
			if b.val >= uint64(w) && op != OAShr {
				return s.Const(w, 0)
			}
			if op == OLShr && a.op == OZExt && b.val >= uint64(a.args[0].sort) {
				return s.Const(w, 0)
			}
		}
		if a.isConst() && a.val == 0 {
			return a
		}
	case OULt:
		if a == b {
			return s.ff
		}
		if b.isConst() && b.val == 0 {
			return s.ff
		}
		if b.isConst() && b.val == 1 {
			return s.Eq(a, s.Const(w, 0))
		}
		if a.op == OZExt && b.isConst() {
			in := a.args[0]
			if b.val > mask(in.sort) {
				return s.tt
			}
			return s.Bin(OULt, in, s.Const(in.sort, b.val))
		}
		if b.op == OZExt && a.isConst() {
			in := b.args[0]
			if a.val >= mask(in.sort) {
				return s.ff
			}
			return s.Bin(OULt, s.Const(in.sort, a.val), in)
		}
	case OULe:
		if a == b {
			return s.tt
		}
		if a.isConst() && a.val == 0 {
			return s.tt
		}
		if a.op == OZExt && b.isConst() {
			in := a.args[0]
			if b.val >= mask(in.sort) {
				return s.tt
			}
			return s.Bin(OULe, in, s.Const(in.sort, b.val))
		}
		if b.op == OZExt && a.isConst() {
			in := b.args[0]
			if a.val > mask(in.sort) {
				return s.ff
			}
			return s.Bin(OULe, s.Const(in.sort, a.val), in)
		}
	case OSLt:
		if a == b {
			return s.ff
		}
		if a.op == OZExt && b.isConst() && sx(b.val, w) <= 0 {
			return s.ff
		}
		if a.op == OZExt && b.isConst() {
			return s.Bin(OULt, a, b)
		}
		if b.op == OZExt && a.isConst() {
			if sx(a.val, w) < 0 {
				return s.tt
			}
			return s.Bin(OULt, a, b)
		}
	case OSLe:
		if a == b {
			return s.tt
		}
		if a.op == OZExt && b.isConst() {
			if sx(b.val, w) < 0 {
				return s.ff
			}
			return s.Bin(OULe, a, b)
		}
		if b.op == OZExt && a.isConst() {
			if sx(a.val, w) <= 0 {
				return s.tt
			}
			return s.Bin(OULe, a, b)
		}
	}
	if rs == SortBool {
		// push comparisons into ite with constant arms
		if a.isConst() && b.op == OIte && (b.args[1].isConst() || b.args[2].isConst()) {
			return s.Ite(b.args[0], s.Bin(op, a, b.args[1]), s.Bin(op, a, b.args[2]))
		}
		if b.isConst() && a.op == OIte && (a.args[1].isConst() || a.args[2].isConst()) {
			return s.Ite(a.args[0], s.Bin(op, a.args[1], b), s.Bin(op, a.args[2], b))
		}
	}
	r := s.mk(op, rs, 0, "", a, b)
	if rs > 0 && r.exact && r.lo == r.hi {
		return s.Const(rs, uint64(r.lo))
	}
	return r
}

// signBit is true when the term is negative.
func (s *Store) signBit(a *Term) *Term {
	switch a.op {
	case OBAnd:
		return s.And(s.signBit(a.args[0]), s.signBit(a.args[1]))
	case OBOr:
		return s.Or(s.signBit(a.args[0]), s.signBit(a.args[1]))
	}
	return s.Bin(OSLt, a, s.Const(a.sort, 0))
}

func (s *Store) BNot(a *Term) *Term {
	if a.isConst() {
		return s.Const(a.sort, ^a.val)
	}
	return s.mk(OBNot, a.sort, 0, "", a)
}
func (s *Store) Neg(a *Term) *Term {
	if a.isConst() {
		return s.Const(a.sort, -a.val)
	}
	return s.mk(ONeg, a.sort, 0, "", a)
}
func (s *Store) Extract(a *Term, lo uint, w Sort) *Term {
	if lo == 0 && w == a.sort {
		return a
	}
	if a.isConst() {
		return s.Const(w, a.val>>lo)
	}
	if lo == 0 && (a.op == OZExt || a.op == OSExt) {
		in := a.args[0]
		if w == in.sort {
			return in
		}
		if w < in.sort {
			return s.Extract(in, 0, w)
		}
		if a.op == OZExt {
			return s.ZExt(in, w)
		}
		return s.SExt(in, w)
	}
	return s.mk(OExtract, w, uint64(lo), "", a)
}
func (s *Store) ZExt(a *Term, w Sort) *Term {
	if w == a.sort {
		return a
	}
	if a.isConst() {
		return s.Const(w, a.val)
	}
	if a.op == OZExt {
		return s.ZExt(a.args[0], w)
	}
	if a.op == OExtract && a.val == 0 && a.args[0].sort >= w && a.sort < 64 {
		if x := a.args[0]; x.lo >= 0 && uint64(x.hi) <= mask(a.sort) {
			return s.Extract(x, 0, w)
		}
	}
	return s.mk(OZExt, w, 0, "", a)
}
func (s *Store) SExt(a *Term, w Sort) *Term {
	if w == a.sort {
		return a
	}
	if a.isConst() {
		return s.Const(w, uint64(sx(a.val, a.sort)))
	}
	if a.op == OExtract && a.val == 0 && a.args[0].sort >= w {
		if x := a.args[0]; x.lo >= smin(a.sort) && x.hi <= smax(a.sort) {
			return s.Extract(x, 0, w)
		}
	}
	return s.mk(OSExt, w, 0, "", a)
}

// --- floats
func (s *Store) FBin(op Op, a, b *Term) *Term {
	rs := SortFP
	if op == OFLt || op == OFLe || op == OFEq {
		rs = SortBool
	}
	if a.isConst() && b.isConst() {
		v := evalFBin(op, a.val, b.val)
		return s.Const(rs, v)
	}
	if rs == SortBool {
		if a == b && (op == OFLt || a.op == OSIntToFP || a.op == OUIntToFP) {
			return s.Const(SortBool, map[bool]uint64{true: 1}[op != OFLt])
		}
		if a.isConst() && isNaNBits(a.val) || b.isConst() && isNaNBits(b.val) {
			return s.ff
		}
		if x, y := s.exactInt(a), s.exactInt(b); x != nil && y != nil {
			switch op {
			case OFLt:
				return s.Bin(OSLt, x, y)
			case OFLe:
				return s.Bin(OSLe, x, y)
			case OFEq:
				return s.Eq(x, y)
			}
		}
		// exact: comparison of a small integer converted to float with a constant
		if t := s.fcmpInt(op, a, b); t != nil {
			return t
		}
		if a.isConst() && b.op == OIte && (b.args[1].isConst() || b.args[2].isConst()) {
			return s.Ite(b.args[0], s.FBin(op, a, b.args[1]), s.FBin(op, a, b.args[2]))
		}
		if b.isConst() && a.op == OIte && (a.args[1].isConst() || a.args[2].isConst()) {
			return s.Ite(a.args[0], s.FBin(op, a.args[1], b), s.FBin(op, a.args[2], b))
		}
	}
	if op == OFAdd || op == OFSub {
		if x, y := s.exactInt(a), s.exactInt(b); x != nil && y != nil {
			bop := OAdd
			if op == OFSub {
				bop = OSub
			}
			r := s.Bin(bop, x, y)
			// -0 cannot arise: exactInt excludes it
			if r.exact && r.lo >= -exactMax && r.hi <= exactMax {
				return s.FUn(OSIntToFP, r, 0)
			}
		}
	}
	if op == OFEq && a.id > b.id {
		a, b = b, a
	}
	return s.mk(op, rs, 0, "", a, b)
}

// fcmpInt rewrites comparisons between float64(x) and float64(y) / constants to integer comparisons when the
// conversion is monotone and the constant is a boundary that can be decided exactly. float64(int64) is monotone
// (non strictly) so:  float(x) < c  <=>  x < K  where K is the least int with float(K) >= c.
func (s *Store) fcmpInt(op Op, a, b *Term) *Term {
	conv := func(t *Term) *Term {
		if t.op == OSIntToFP && t.args[0].sort == 64 {
			return t.args[0]
		}
		return nil
	}
	ai, bi := conv(a), conv(b)
	if ai != nil && b.isConst() {
		c := math.Float64frombits(b.val)
		// least K with float(K) >= c ; least L with float(L) > c
		k, kok := leastGE(c, false)
		l, lok := leastGE(c, true)
		switch op {
		case OFLt: // x < K
			if !kok {
				return s.tt
			}
			return s.Bin(OSLt, ai, s.Const(64, uint64(k)))
		case OFLe: // x < L
			if !lok {
				return s.tt
			}
			return s.Bin(OSLt, ai, s.Const(64, uint64(l)))
		case OFEq: // K <= x < L
			r := s.tt
			if !kok {
				return s.ff
			}
			r = s.Bin(OSLe, s.Const(64, uint64(k)), ai)
			if lok {
				r = s.And(r, s.Bin(OSLt, ai, s.Const(64, uint64(l))))
			}
			return r
		}
	}
	if bi != nil && a.isConst() {
		c := math.Float64frombits(a.val)
		k, kok := leastGE(c, false)
		l, lok := leastGE(c, true)
		switch op {
		case OFLt: // c < float(x)  <=> x >= L
			if !lok {
				return s.ff
			}
			return s.Bin(OSLe, s.Const(64, uint64(l)), bi)
		case OFLe:
			if !kok {
				return s.ff
			}
			return s.Bin(OSLe, s.Const(64, uint64(k)), bi)
		case OFEq:
			return s.fcmpInt(op, b, a)
		}
	}
	return nil
}

// leastGE returns the least int64 K with float64(K) >= c (or > c when strict); ok=false if none.
func leastGE(c float64, strict bool) (int64, bool) {
	good := func(x int64) bool {
		if strict {
			return float64(x) > c
		}
		return float64(x) >= c
	}
	if !good(math.MaxInt64) {
		return 0, false
	}
	lo, hi := int64(math.MinInt64), int64(math.MaxInt64)
	for lo < hi {
		mid := lo + int64((uint64(hi)-uint64(lo))/2)
		if good(mid) {
			hi = mid
		} else {
			lo = mid + 1
		}
	}
	return lo, true
}

func (s *Store) FUn(op Op, a *Term, mode uint64) *Term {
	rs := SortFP
	switch op {
	case OFIsNaN:
		rs = SortBool
	case OFPToSInt, OFPToUInt, OFPToBits:
		rs = 64
	}
	if a.isConst() {
		return s.Const(rs, evalFUn(op, a.val, mode, a.sort))
	}
	switch op {
	case OFPToSInt:
		if x := s.exactInt(a); x != nil {
			return x
		}
	case OFIsNaN:
		if a.op == OSIntToFP || a.op == OUIntToFP {
			return s.ff
		}
	case OFRound:
		if a.op == OSIntToFP || a.op == OUIntToFP {
			return a
		}
	case OFPToBits:
		if a.op == OBitsToFP {
			// canonical unless NaN: keep bits
			return a.args[0]
		}
	case OBitsToFP:
		if a.op == OFPToBits {
			return a.args[0]
		}
	}
	return s.mk(op, rs, mode, "", a)
}

func isNaNBits(v uint64) bool { f := math.Float64frombits(v); return f != f }

func canonF(f float64) uint64 {
	if f != f {
		return 0x7ff8000000000001
	}
	return math.Float64bits(f)
}

func evalFBin(op Op, a, b uint64) uint64 {
	x, y := math.Float64frombits(a), math.Float64frombits(b)
	b2u := func(c bool) uint64 {
		if c {
			return 1
		}
		return 0
	}
	switch op {
	case OFAdd:
		return canonF(x + y)
	case OFSub:
		return canonF(x - y)
	case OFMul:
		return canonF(x * y)
	case OFDiv:
		return canonF(x / y)
	case OFLt:
		return b2u(x < y)
	case OFLe:
		return b2u(x <= y)
	case OFEq:
		return b2u(x == y)
	}
	panic("evalFBin")
}

func evalFUn(op Op, a uint64, mode uint64, sort Sort) uint64 {
	x := math.Float64frombits(a)
	switch op {
	case OFNeg:
		return canonF(-x)
	case OFAbs:
		return canonF(math.Abs(x))
	case OSqrt:
		return canonF(math.Sqrt(x))
	case OFIsNaN:
		if x != x {
			return 1
		}
		return 0
	case OFRound:
		switch mode {
		case 0:
			return canonF(math.Floor(x))
		case 1:
			return canonF(math.Ceil(x))
		case 2:
			return canonF(math.Trunc(x))
		}
		return canonF(math.RoundToEven(x))
	case OSIntToFP:
		return canonF(float64(sx(a, sort)))
	case OUIntToFP:
		return canonF(float64(a))
	case OFPToSInt:
		return f2i(x)
	case OFPToUInt:
		return f2u(x)
	case OBitsToFP:
		return canonF(x)
	case OFPToBits:
		return a
	}
	panic("evalFUn")
}

// amd64 semantics of int64(f): out of range and NaN give 0x8000000000000000.
func f2i(x float64) uint64 {
	if x >= -9223372036854775808.0 && x < 9223372036854775808.0 {
		return uint64(int64(x))
	}
	return 0x8000000000000000
}
func f2u(x float64) uint64 {
	if x < 9223372036854775808.0 {
		return f2i(x)
	}
	return f2i(x-9223372036854775808.0) ^ 0x8000000000000000
}

func evalBin(op Op, a, b uint64, w Sort) uint64 {
	m := mask(w)
	b2u := func(c bool) uint64 {
		if c {
			return 1
		}
		return 0
	}
	switch op {
	case OAdd:
		return (a + b) & m
	case OSub:
		return (a - b) & m
	case OMul:
		return (a * b) & m
	case OUDiv:
		if b == 0 {
			return m
		}
		return a / b
	case OURem:
		if b == 0 {
			return a
		}
		return a % b
	case OSDiv:
		x, y := sx(a, w), sx(b, w)
		if y == 0 {
			if x >= 0 {
				return m
			}
			return 1
		}
		if y == -1 {
			return uint64(-x) & m
		}
		return uint64(x/y) & m
	case OSRem:
		x, y := sx(a, w), sx(b, w)
		if y == 0 {
			return a
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & m
	case OBAnd:
		return a & b
	case OBOr:
		return a | b
	case OBXor:
		return a ^ b
	case OShl:
		if b >= uint64(w) {
			return 0
		}
		return (a << b) & m
	case OLShr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OAShr:
		x := sx(a, w)
		if b >= uint64(w) {
			b = 63
		}
		return uint64(x>>b) & m
	case OULt:
		return b2u(a < b)
	case OULe:
		return b2u(a <= b)
	case OSLt:
		return b2u(sx(a, w) < sx(b, w))
	case OSLe:
		return b2u(sx(a, w) <= sx(b, w))
	}
	panic("evalBin " + opNames[op])
}

var _ = bits.Len64

// ---- evaluation under a model

type Model map[string]uint64

type Evaluator struct {
	m   Model
	gen uint32
}

func (e *Evaluator) set(m Model) { e.m = m; e.gen++ }

func (e *Evaluator) Eval(t *Term) uint64 {
	if t.op == OConst {
		return t.val
	}
	if t.gen == e.gen {
		return t.ev
	}
	var v uint64
	switch t.op {
	case OVar:
		v = e.m[t.name] & mask(t.sort)
		if t.sort == SortFP && isNaNBits(v) {
			v = 0x7ff8000000000001
		}
	case ONot:
		v = 1 - e.Eval(t.args[0])
	case OAnd:
		v = e.Eval(t.args[0])
		if v == 1 {
			v = e.Eval(t.args[1])
		}
	case OOr:
		v = e.Eval(t.args[0])
		if v == 0 {
			v = e.Eval(t.args[1])
		}
	case OEq:
		if e.Eval(t.args[0]) == e.Eval(t.args[1]) {
			v = 1
		}
	case OIte:
		if e.Eval(t.args[0]) == 1 {
			v = e.Eval(t.args[1])
		} else {
			v = e.Eval(t.args[2])
		}
	case OBNot:
		v = ^e.Eval(t.args[0]) & mask(t.sort)
	case ONeg:
		v = (-e.Eval(t.args[0])) & mask(t.sort)
	case OExtract:
		v = (e.Eval(t.args[0]) >> t.val) & mask(t.sort)
	case OZExt:
		v = e.Eval(t.args[0])
	case OSExt:
		v = uint64(sx(e.Eval(t.args[0]), t.args[0].sort)) & mask(t.sort)
	case OConcat:
		v = e.Eval(t.args[0])<<uint(t.args[1].sort) | e.Eval(t.args[1])
	case OFAdd, OFSub, OFMul, OFDiv, OFLt, OFLe, OFEq:
		v = evalFBin(t.op, e.Eval(t.args[0]), e.Eval(t.args[1]))
	case OFNeg, OFAbs, OFIsNaN, OFRound, OSIntToFP, OUIntToFP, OFPToSInt, OFPToUInt, OBitsToFP, OFPToBits, OSqrt:
		v = evalFUn(t.op, e.Eval(t.args[0]), t.val, t.args[0].sort)
	default:
		v = evalBin(t.op, e.Eval(t.args[0]), e.Eval(t.args[1]), t.args[0].sort)
	}
	t.gen, t.ev = e.gen, v
	return v
}

// ---- SMT-LIB printing

func sortSMT(s Sort) string {
	switch {
	case s == SortBool:
		return "Bool"
	case s == SortFP:
		return "(_ FloatingPoint 11 53)"
	}
	return "(_ BitVec " + strconv.Itoa(int(s)) + ")"
}

func constSMT(t *Term) string {
	switch {
	case t.sort == SortBool:
		if t.val == 1 {
			return "true"
		}
		return "false"
	case t.sort == SortFP:
		if isNaNBits(t.val) {
			return "(_ NaN 11 53)"
		}
		b := fmt.Sprintf("%064b", t.val)
		return "(fp #b" + b[:1] + " #b" + b[1:12] + " #b" + b[12:] + ")"
	case t.sort%4 == 0:
		return fmt.Sprintf("#x%0*x", int(t.sort)/4, t.val)
	}
	return fmt.Sprintf("#b%0*b", int(t.sort), t.val)
}

func quoteSym(s string) string { return "|" + s + "|" }

// expr prints t with references to already emitted arguments.
func (t *Term) expr(ref func(*Term) string) string {
	a := func(i int) string { return ref(t.args[i]) }
	switch t.op {
	case OConst:
		return constSMT(t)
	case OVar:
		if t.sort == SortFP {
			return "((_ to_fp 11 53) " + quoteSym(t.name) + ")"
		}
		return quoteSym(t.name)
	case OExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", int(t.val)+int(t.sort)-1, t.val, a(0))
	case OZExt:
		return fmt.Sprintf("((_ zero_extend %d) %s)", int(t.sort-t.args[0].sort), a(0))
	case OSExt:
		return fmt.Sprintf("((_ sign_extend %d) %s)", int(t.sort-t.args[0].sort), a(0))
	case OFAdd, OFSub, OFMul, OFDiv:
		n := map[Op]string{OFAdd: "fp.add", OFSub: "fp.sub", OFMul: "fp.mul", OFDiv: "fp.div"}[t.op]
		return "(" + n + " RNE " + a(0) + " " + a(1) + ")"
	case OSqrt:
		return "(fp.sqrt RNE " + a(0) + ")"
	case OFRound:
		return "(fp.roundToIntegral " + []string{"RTN", "RTP", "RTZ", "RNE"}[t.val] + " " + a(0) + ")"
	case OSIntToFP:
		return "((_ to_fp 11 53) RNE " + a(0) + ")"
	case OUIntToFP:
		return "((_ to_fp_unsigned 11 53) RNE " + a(0) + ")"
	case OFPToSInt:
		x := a(0)
		return "(ite (and (fp.leq (fp #b1 #b10000111110 #x0000000000000) " + x + ") (fp.lt " + x + " (fp #b0 #b10000111110 #x0000000000000))) ((_ fp.to_sbv 64) RTZ " + x + ") #x8000000000000000)"
	case OFPToUInt:
		x := a(0)
		big := "(fp #b0 #b10000111110 #x0000000000000)"
		y := "(fp.sub RNE " + x + " " + big + ")"
		conv := func(x string) string {
			return "(ite (and (fp.leq (fp #b1 #b10000111110 #x0000000000000) " + x + ") (fp.lt " + x + " " + big + ")) ((_ fp.to_sbv 64) RTZ " + x + ") #x8000000000000000)"
		}
		return "(ite (fp.lt " + x + " " + big + ") " + conv(x) + " (bvxor " + conv(y) + " #x8000000000000000))"
	case OBitsToFP:
		return "((_ to_fp 11 53) " + a(0) + ")"
	case OFPToBits:
		return "(fp.to_ieee_bv " + a(0) + ")"
	}
	var sb strings.Builder
	sb.WriteString("(" + opNames[t.op])
	for i := range t.args {
		sb.WriteString(" " + a(i))
	}
	sb.WriteString(")")
	return sb.String()
}

func (t *Term) String() string {
	if t == nil {
		return "<nil>"
	}
	return t.str(0)
}
func (t *Term) str(d int) string {
	if d > 6 {
		return "..."
	}
	return t.expr(func(x *Term) string { return x.str(d + 1) })
}
