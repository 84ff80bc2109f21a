package main

import (
	"time"

	"golang.org/x/tools/go/ssa"
)

// AddDate with a concrete shift moves a time by a number of seconds that depends only on the
// day. Over the known range of the time the numbers are tabulated with the real function: they
// change on few days, so the result is a short case distinction instead of calendar arithmetic
// over a symbolic day.
func init() {
	reg("(time.Time).AddDate", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		v := a[0].(StructV)
		wall, ext := v[0].(*Term), v[1].(*Term)
		y, mo, d := a[1].(*Term), a[2].(*Term), a[3].(*Term)
		const internal = 62135596800
		if ext.isConst() || !y.isConst() || !mo.isConst() || !d.isConst() || wall.lo < 0 || wall.hi > 1e9 ||
			ext.lo < internal-3e9 || ext.hi > internal+9.2e9 {
			return m.runBody(fr, fn, a)
		}
		shift := func(day int64) int64 {
			t := time.Unix(day*86400, 0).UTC()
			return t.AddDate(int(int64(y.val)), int(int64(mo.val)), int(int64(d.val))).Unix() - t.Unix()
		}
		floor := func(x int64) int64 {
			q := x / 86400
			if x%86400 < 0 {
				q--
			}
			return q
		}
		lo, hi := floor(ext.lo-internal), floor(ext.hi-internal)
		type step struct{ day, s int64 }
		steps := []step{{lo, shift(lo)}}
		for day := lo + 1; day <= hi; day++ {
			if s := shift(day); s != steps[len(steps)-1].s {
				if steps = append(steps, step{day, s}); len(steps) > 64 {
					return m.runBody(fr, fn, a)
				}
			}
		}
		sum := m.st.Bin(OAdd, ext, m.i64(steps[0].s))
		for _, s := range steps[1:] {
			later := m.st.Not(m.st.Bin(OSLt, ext, m.i64(s.day*86400+internal)))
			sum = m.st.Ite(later, m.st.Bin(OAdd, ext, m.i64(s.s)), sum)
		}
		r := append(StructV{}, v...)
		r[1] = sum
		return r
	})
}

// Sub without the branches that look for an overflow, where the times are known to be near enough.
func init() {
	reg("(time.Time).Sub", func(m *M, fr *frame, fn *ssa.Function, a []Value) Value {
		v, w := a[0].(StructV), a[1].(StructV)
		v0, w0 := v[0].(*Term), w[0].(*Term)
		v1, w1 := v[1].(*Term), w[1].(*Term)
		if v0.lo < 0 || w0.lo < 0 || v0.hi > 1e9 || w0.hi > 1e9 || (v1.isConst() && w1.isConst()) {
			return m.runBody(fr, fn, a)
		}
		d := m.st.Bin(OSub, v1, w1)
		if !d.exact || d.lo < -9.2e9 || d.hi > 9.2e9 {
			return m.runBody(fr, fn, a)
		}
		return m.st.Bin(OAdd, m.st.Bin(OMul, d, m.i64(1e9)), m.st.Bin(OSub, v0, w0))
	})
}
