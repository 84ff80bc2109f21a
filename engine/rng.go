package main

import (
	"math"
	"math/big"
)

const exactMax = int64(1) << 53

func smin(w Sort) int64 {
	if w >= 64 {
		return math.MinInt64
	}
	return -(int64(1) << uint(w-1))
}
func smax(w Sort) int64 {
	if w >= 64 {
		return math.MaxInt64
	}
	return int64(1)<<uint(w-1) - 1
}

func addOK(a, b int64) (int64, bool) {
	c := a + b
	return c, (c > a) == (b > 0)
}
func mulOK(a, b int64) (int64, bool) {
	if a == 0 || b == 0 {
		return 0, true
	}
	c := a * b
	if c/b != a || (a == -1 && b == math.MinInt64) || (b == -1 && a == math.MinInt64) {
		return 0, false
	}
	return c, true
}

// setRange computes a sound signed interval of a bit-vector term.
func (t *Term) setRange() {
	w := t.sort
	t.lo, t.hi, t.exact = smin(w), smax(w), false
	fit := func(lo, hi int64, ok bool) {
		if ok && lo >= smin(w) && hi <= smax(w) {
			t.lo, t.hi, t.exact = lo, hi, true
		}
	}
	switch t.op {
	case OConst:
		v := sx(t.val, w)
		t.lo, t.hi, t.exact = v, v, true
	case OVar:
		t.exact = true
	case OAdd:
		a, b := t.args[0], t.args[1]
		lo, ok1 := addOK(a.lo, b.lo)
		hi, ok2 := addOK(a.hi, b.hi)
		fit(lo, hi, ok1 && ok2)
	case OSub:
		a, b := t.args[0], t.args[1]
		lo, ok1 := subOK(a.lo, b.hi)
		hi, ok2 := subOK(a.hi, b.lo)
		fit(lo, hi, ok1 && ok2)
	case ONeg:
		a := t.args[0]
		if a.lo != smin(w) {
			fit(-a.hi, -a.lo, true)
		}
	case OMul:
		a, b := t.args[0], t.args[1]
		lo, hi := int64(math.MaxInt64), int64(math.MinInt64)
		for _, x := range []int64{a.lo, a.hi} {
			for _, y := range []int64{b.lo, b.hi} {
				p, ok := mulOK(x, y)
				if !ok {
					return
				}
				lo, hi = min(lo, p), max(hi, p)
			}
		}
		fit(lo, hi, true)
	case OSDiv:
		a, b := t.args[0], t.args[1]
		if b.isConst() && sx(b.val, w) > 0 {
			c := sx(b.val, w)
			t.lo, t.hi, t.exact = a.lo/c, a.hi/c, true
		}
	case OSRem:
		a, b := t.args[0], t.args[1]
		if b.isConst() && sx(b.val, w) > 0 {
			c := sx(b.val, w)
			t.exact = true
			t.lo, t.hi = 0, 0
			if a.lo < 0 {
				t.lo = max(-(c - 1), a.lo)
			}
			if a.hi > 0 {
				t.hi = min(c-1, a.hi)
			}
		}
	case OUDiv, OURem, OLShr:
		a, b := t.args[0], t.args[1]
		if a.lo >= 0 && b.lo >= 0 {
			t.lo, t.hi, t.exact = 0, a.hi, true
			if t.op == OURem && b.lo > 0 {
				t.hi = min(t.hi, b.hi-1)
			}
			if t.op == OLShr && b.isConst() && b.val < 64 {
				t.lo, t.hi = a.lo>>b.val, a.hi>>b.val
			}
			if t.op == OUDiv && b.isConst() && b.val > 0 {
				t.lo, t.hi = a.lo/int64(b.val), a.hi/int64(b.val)
			}
			if t.op == OUDiv && b.lo == 0 {
				t.lo, t.hi, t.exact = smin(w), smax(w), false
			}
		}
	case OAShr:
		b := t.args[1]
		if b.isConst() && b.val < 64 {
			t.lo, t.hi, t.exact = t.args[0].lo>>b.val, t.args[0].hi>>b.val, true
		}
	case OShl:
		a, b := t.args[0], t.args[1]
		if b.isConst() && b.val < 62 {
			lo, ok1 := mulOK(a.lo, int64(1)<<b.val)
			hi, ok2 := mulOK(a.hi, int64(1)<<b.val)
			fit(lo, hi, ok1 && ok2)
		}
	case OBAnd:
		for _, x := range t.args {
			if x.lo >= 0 {
				t.lo, t.exact = 0, true
				t.hi = min(t.hi, x.hi)
			}
		}
	case OBOr, OBXor:
		a, b := t.args[0], t.args[1]
		if a.lo >= 0 && b.lo >= 0 {
			m := int64(1)
			for m-1 < max(a.hi, b.hi) && m > 0 {
				m <<= 1
			}
			if m > 0 {
				t.lo, t.hi, t.exact = 0, m-1, true
			} else {
				t.lo = 0
			}
		}
	case OZExt:
		a := t.args[0]
		if a.lo >= 0 {
			t.lo, t.hi, t.exact = a.lo, a.hi, true
		} else {
			t.lo, t.hi, t.exact = 0, int64(mask(a.sort)), true
		}
	case OSExt:
		t.lo, t.hi, t.exact = t.args[0].lo, t.args[0].hi, true
	case OExtract:
		a := t.args[0]
		if t.val == 0 && a.lo >= smin(w) && a.hi <= smax(w) {
			t.lo, t.hi, t.exact = a.lo, a.hi, true
		}
	case OIte:
		a, b := t.args[1], t.args[2]
		t.lo, t.hi, t.exact = min(a.lo, b.lo), max(a.hi, b.hi), true
	}
}

func subOK(a, b int64) (int64, bool) {
	r := new(big.Int).Sub(big.NewInt(a), big.NewInt(b))
	return a - b, r.IsInt64()
}

type linTerm struct {
	c int64
	t *Term
}

// linear decomposes an exact (wrap-free) sum into constants times terms.
func (t *Term) linear() (ts []linTerm, k int64, ok bool) {
	var walk func(t *Term, c int64) bool
	walk = func(t *Term, c int64) bool {
		if len(ts) > 12 {
			return false
		}
		if t.isConst() {
			p, ok := mulOK(c, sx(t.val, t.sort))
			if !ok {
				return false
			}
			k, ok = addOK2(k, p)
			return ok
		}
		if t.exact {
			switch t.op {
			case OAdd:
				return walk(t.args[0], c) && walk(t.args[1], c)
			case OSub:
				return c != math.MinInt64 && walk(t.args[0], c) && walk(t.args[1], -c)
			case ONeg:
				return c != math.MinInt64 && walk(t.args[0], -c)
			case OMul:
				if t.args[1].isConst() {
					p, ok := mulOK(c, sx(t.args[1].val, t.sort))
					return ok && walk(t.args[0], p)
				}
			}
		}
		for i := range ts {
			if ts[i].t == t {
				s, ok := addOK2(ts[i].c, c)
				ts[i].c = s
				return ok
			}
		}
		ts = append(ts, linTerm{c, t})
		return true
	}
	if !walk(t, 1) {
		return nil, 0, false
	}
	out := ts[:0]
	for _, x := range ts {
		if x.c != 0 {
			out = append(out, x)
		}
	}
	return out, k, true
}

func addOK2(a, b int64) (int64, bool) {
	if b == 0 {
		return a, true
	}
	return addOK(a, b)
}

func linRange(ts []linTerm, k int64) (lo, hi int64, ok bool) {
	l, h := big.NewInt(k), big.NewInt(k)
	for _, x := range ts {
		a := new(big.Int).Mul(big.NewInt(x.c), big.NewInt(x.t.lo))
		b := new(big.Int).Mul(big.NewInt(x.c), big.NewInt(x.t.hi))
		if a.Cmp(b) > 0 {
			a, b = b, a
		}
		l.Add(l, a)
		h.Add(h, b)
	}
	if !l.IsInt64() || !h.IsInt64() {
		return 0, 0, false
	}
	return l.Int64(), h.Int64(), true
}

func (s *Store) fromLinear(w Sort, ts []linTerm, k int64) *Term {
	var r *Term
	for _, x := range ts {
		e := s.Bin(OMul, x.t, s.Const(w, uint64(x.c)))
		if r == nil {
			r = e
		} else {
			r = s.Bin(OAdd, r, e)
		}
	}
	if r == nil {
		return s.Const(w, uint64(k))
	}
	return s.Bin(OAdd, r, s.Const(w, uint64(k)))
}

// rangeSimp simplifies with interval information; nil when nothing applies.
func (s *Store) rangeSimp(op Op, a, b *Term) *Term {
	w := a.sort
	switch op {
	case OSLt:
		if a.hi < b.lo {
			return s.tt
		}
		if a.lo >= b.hi {
			return s.ff
		}
	case OSLe:
		if a.hi <= b.lo {
			return s.tt
		}
		if a.lo > b.hi {
			return s.ff
		}
	case OULt, OULe:
		if a.lo >= 0 && b.lo >= 0 {
			o := OSLt
			if op == OULe {
				o = OSLe
			}
			if r := s.rangeSimp(o, a, b); r != nil {
				return r
			}
		}
	}
	switch op {
	case OSLt, OSLe:
		// compare exact sums after cancelling what they share
		if !a.isConst() && !b.isConst() && (a.op == OAdd || b.op == OAdd || a.op == OSub || b.op == OSub || a.op == OMul && b.op == OMul) && a.exact && b.exact {
			if ta, ka, ok := a.linear(); ok {
				if tb, kb, ok := b.linear(); ok {
					if r := s.cmpLinear(op, w, ta, ka, tb, kb); r != nil {
						return r
					}
				}
			}
		}
	case OSDiv, OSRem:
		if b.isConst() && sx(b.val, w) > 0 {
			d := sx(b.val, w)
			if ts, k, ok := a.linear(); ok && a.exact {
				var q, r []linTerm
				for _, x := range ts {
					if x.c%d == 0 {
						q = append(q, linTerm{x.c / d, x.t})
					} else {
						r = append(r, x)
					}
				}
				km := ((k % d) + d) % d
				kq := (k - km) / d
				if len(q) == 0 && len(ts) > 0 && kq == 0 && a.lo < 0 {
					break
				}
				if lo, hi, ok := linRange(r, km); ok && lo >= 0 && hi < d {
					if _, _, ok := linRange(q, kq); ok {
						rem := s.fromLinear(w, r, km)
						quo := s.fromLinear(w, q, kq)
						if a.lo < 0 && !(lo == 0 && hi == 0) {
							// truncation toward zero moves negative sums with a remainder up by one
							up := s.And(s.Bin(OSLt, a, s.Const(w, 0)), s.Not(s.Eq(rem, s.Const(w, 0))))
							one := s.Ite(up, s.Const(w, 1), s.Const(w, 0))
							rem = s.Bin(OSub, rem, s.Bin(OMul, one, s.Const(w, uint64(d))))
							quo = s.Bin(OAdd, quo, one)
						}
						if op == OSRem {
							return rem
						}
						return quo
					}
				}
			}
		}
	}
	return nil
}

// cmpLinear rewrites sum_a < sum_b (exact sums) with common terms cancelled.
func (s *Store) cmpLinear(op Op, w Sort, ta []linTerm, ka int64, tb []linTerm, kb int64) *Term {
	common := false
	var l, r []linTerm
	left := append([]linTerm{}, ta...)
	for _, y := range tb {
		hit := false
		for i := range left {
			if left[i].t == y.t {
				hit, common = true, true
				c, ok := subOK(left[i].c, y.c)
				if !ok {
					return nil
				}
				left[i].c = c
				break
			}
		}
		if !hit {
			r = append(r, y)
		}
	}
	for _, x := range left {
		if x.c > 0 {
			l = append(l, x)
		} else if x.c < 0 {
			if x.c == math.MinInt64 {
				return nil
			}
			r = append(r, linTerm{-x.c, x.t})
		}
	}
	k, ok := subOK(kb, ka)
	if !ok || (!common && !(ka != 0 && kb != 0)) {
		return nil
	}
	kl, kr := int64(0), k
	if k < 0 && k != math.MinInt64 {
		kl, kr = -k, 0
	}
	if _, _, ok := linRange(l, kl); !ok {
		return nil
	}
	if _, _, ok := linRange(r, kr); !ok {
		return nil
	}
	if w != 64 {
		return nil
	}
	return s.Bin(op, s.fromLinear(w, l, kl), s.fromLinear(w, r, kr))
}

// exactInt returns the integer an FP term certainly equals exactly (never -0), or nil.
func (s *Store) exactInt(t *Term) *Term {
	switch t.op {
	case OConst:
		f := math.Float64frombits(t.val)
		if f == math.Trunc(f) && math.Abs(f) <= float64(exactMax) && !(f == 0 && math.Signbit(f)) {
			return s.Const(64, uint64(int64(f)))
		}
	case OSIntToFP:
		x := t.args[0]
		if x.sort == 64 && x.lo >= -exactMax && x.hi <= exactMax {
			return x
		}
	case OIte:
		a, b := s.exactInt(t.args[1]), s.exactInt(t.args[2])
		if a != nil && b != nil {
			return s.Ite(t.args[0], a, b)
		}
	}
	return nil
}

// eqLinear decides or cancels an equation between exact sums.
func (s *Store) eqLinear(a, b *Term) *Term {
	ta, ka, ok1 := a.linear()
	tb, kb, ok2 := b.linear()
	if !ok1 || !ok2 {
		return nil
	}
	d := append([]linTerm{}, ta...)
	common := false
next:
	for _, y := range tb {
		for i := range d {
			if d[i].t == y.t {
				c, ok := subOK(d[i].c, y.c)
				if !ok {
					return nil
				}
				d[i].c = c
				common = true
				continue next
			}
		}
		if y.c == math.MinInt64 {
			return nil
		}
		d = append(d, linTerm{-y.c, y.t})
	}
	k, ok := subOK(kb, ka)
	if !ok {
		return nil
	}
	var l, r []linTerm
	var g int64
	for _, x := range d {
		if x.c == 0 {
			continue
		}
		if x.c == math.MinInt64 {
			return nil
		}
		c := x.c
		if c < 0 {
			c = -c
		}
		for y := c; y != 0; {
			g, y = y, g%y
		}
		if x.c > 0 {
			l = append(l, x)
		} else {
			r = append(r, linTerm{-x.c, x.t})
		}
	}
	w := a.sort
	if len(l)+len(r) == 0 {
		return s.Bool(k == 0)
	}
	if k%g != 0 {
		return s.ff
	}
	if len(l)+len(r) == 1 {
		if len(l) == 1 {
			return s.eqPlain(l[0].t, s.Const(w, uint64(k/g)))
		}
		return s.eqPlain(r[0].t, s.Const(w, uint64(-(k/g))))
	}
	if !common && g == 1 {
		return nil
	}
	for i := range l {
		l[i].c /= g
	}
	for i := range r {
		r[i].c /= g
	}
	k /= g
	kl, kr := int64(0), k
	if k < 0 && k != math.MinInt64 {
		kl, kr = -k, 0
	}
	lo1, hi1, ok1 := linRange(l, kl)
	lo2, hi2, ok2 := linRange(r, kr)
	if !ok1 || !ok2 || lo1 < smin(w) || hi1 > smax(w) || lo2 < smin(w) || hi2 > smax(w) {
		return nil
	}
	if hi1 < lo2 || hi2 < lo1 {
		return s.ff
	}
	return s.eqPlain(s.fromLinear(w, l, kl), s.fromLinear(w, r, kr))
}

// eqPlain is Eq without linear cancellation (to keep rewriting finite).
func (s *Store) eqPlain(a, b *Term) *Term {
	if a == b {
		return s.tt
	}
	if a.isConst() && b.isConst() {
		return s.Bool(a.val == b.val)
	}
	if a.hi < b.lo || b.hi < a.lo {
		return s.ff
	}
	if b.isConst() {
		a, b = b, a
	}
	if a.isConst() && b.op != OAdd && b.op != OSub && b.op != OMul {
		return s.Eq(a, b)
	}
	if !a.isConst() && a.id > b.id {
		a, b = b, a
	}
	return s.mk(OEq, SortBool, 0, "", a, b)
}
