// Package hbase checks the small shared building blocks: scores, times and queue names.
package hbase

import (
	"time"

	"github.com/takenet/deckard/internal/dtime"
	"github.com/takenet/deckard/internal/queue/message"
	"github.com/takenet/deckard/internal/queue/score"
	"github.com/takenet/deckard/internal/zzverif/nd"
)

const maxScore = 9007199254740992.0

// clock is an arbitrary wall-clock value with millisecond part, from 1970 to 9999.
func clock() (time.Time, int64) {
	s := nd.Int64("clock.s", 0, 9000000000)
	ms := nd.Int64("clock.ms", 0, 999)
	return nd.Time(s, ms), s*1000 + ms
}

func VH_P01_AddScore() {
	now, ms := clock()
	dtime.SetNowProvider(func() time.Time { return now })
	x := nd.Float64("score")
	r := score.GetAddScore(x)
	nd.ObserveFloat("r", r)
	nd.Assert(nd.Implies(x == 0, r == float64(ms)), "zero means the current time in milliseconds")
	nd.Assert(nd.Implies(nd.And(x > 0, x <= maxScore), r == x), "scores in range are kept")
	nd.Assert(nd.Implies(x < 0, r == 0), "negative scores become the minimum")
	nd.Assert(nd.Implies(x > maxScore, r == maxScore), "scores above the maximum become the maximum")
	nd.Assert(r == r, "a score that is not a number is never used")
	nd.Assert(nd.And(r >= 0, r <= maxScore), "the result is in the documented range")
}

func VH_P01_Bounds() {
	x := nd.Float64("score")
	hi, lo := score.GetPullMaxScore(x), score.GetPullMinScore(x)
	if x == 0 {
		nd.Assert(hi == nil && lo == nil, "zero means no filter")
		return
	}
	if x != x {
		nd.Assert(hi == nil || *hi == *hi, "a bound that is not a number is not used as maximum")
		nd.Assert(lo == nil || *lo == *lo, "a bound that is not a number is not used as minimum")
		return
	}
	nd.Assert(hi != nil && lo != nil, "other values are a filter")
	nd.ObserveFloat("hi", *hi)
	nd.ObserveFloat("lo", *lo)
	w := nd.IteFloat(x < 0, 0, nd.IteFloat(x > maxScore, maxScore, x))
	nd.Assert(*hi == w, "the maximum filter is the bound capped into the range")
	nd.Assert(*lo == w, "the minimum filter is the bound capped into the range")
	nd.Cover("filter")
}

func VH_P01_Constants() {
	nd.Assert(score.Max == maxScore, "documented maximum")
	nd.Assert(score.Min == 0, "documented minimum")
	nd.Assert(score.IsUndefined(score.Undefined), "undefined is recognised")
	nd.Assert(score.Undefined < score.Min, "undefined is no valid score")
	x := nd.Float64("x")
	nd.Assert(nd.Implies(nd.And(x >= 0, x <= maxScore), !score.IsUndefined(x)), "no valid score means undefined")
	now, ms := clock()
	dtime.SetNowProvider(func() time.Time { return now })
	nd.Assert(score.GetScoreByDefaultAlgorithm() == float64(ms), "default score is the time in milliseconds")
	nd.Assert(score.GetScoreFromTime(&now) == float64(ms), "time score is the time in milliseconds")
	nd.ObserveFloat("d", score.GetScoreByDefaultAlgorithm())
}

// two pulls with different bounds do not influence each other or the constants
func VH_P01_BoundsIndependent() {
	x, y := nd.Float64("x"), nd.Float64("y")
	a := score.GetPullMaxScore(x)
	b := score.GetPullMinScore(y)
	c := score.GetPullMaxScore(y)
	_ = b
	_ = c
	a2 := score.GetPullMaxScore(x)
	if a != nil && a2 != nil && x == x {
		nd.Assert(*a == *a2, "bounds are functions of their argument")
		nd.Cover("both")
	}
	nd.Assert(nd.And(score.Max == maxScore, score.Min == 0), "constants are not changed")
}

const (
	loMs = -9200000000000 // 1678
	hiMs = 9200000000000  // 2261
)

func VH_P25_MsRoundTrip() {
	// ms = 1000*s + m covers every millisecond value, also negative ones
	s := nd.Int64("s", loMs/1000, hiMs/1000)
	m := nd.Int64("m", 0, 999)
	ms := s*1000 + m
	t := dtime.MsToTime(ms)
	nd.Assert(dtime.TimeToMs(&t) == ms, "milliseconds survive the round trip")
	nd.ObserveInt("back", dtime.TimeToMs(&t))
	p := dtime.MsPrecision(&t)
	nd.Assert(p.Equal(t), "a whole millisecond is unchanged by MsPrecision")
	nd.Assert(t.Unix() == s, "the instant has the right second")
	nd.Assert(int64(t.Nanosecond()) == m*1000000, "the instant has the right fraction")
}

func VH_P25_Truncate() {
	s := nd.Int64("s", loMs/1000, hiMs/1000)
	m := nd.Int64("m", 0, 999)
	ns := nd.Int64("ns", 0, 999999)
	t := time.Unix(s, m*1000000+ns)
	ms := dtime.TimeToMs(&t)
	nd.ObserveInt("ms", ms)
	p := dtime.MsPrecision(&t)
	exact := s*1000 + m
	// toward zero: instants before the epoch with a fraction round up
	w := exact + nd.IteInt(nd.And(exact < 0, ns > 0), 1, 0)
	nd.Assert(ms == w, "a time converts to its millisecond number")
	d := nd.IteInt(nd.And(exact < 0, ns > 0), 1000000-ns, ns)
	nd.Assert(d < 1000000, "less than a millisecond is lost")
	wt := nd.Time(s, m)
	if ns == 0 {
		nd.Assert(p.Equal(t), "nothing is lost without a fraction")
		nd.Cover("no fraction")
	} else if exact >= 0 {
		nd.Assert(p.Equal(wt), "the fraction is cut off")
		nd.Cover("fraction")
	}
}

func VH_P25_Monotone() {
	s1, s2 := nd.Int64("s1", loMs/1000, hiMs/1000), nd.Int64("s2", loMs/1000, hiMs/1000)
	n1, n2 := nd.Int64("m1", 0, 999), nd.Int64("m2", 0, 999)
	a, b := nd.Time(s1, n1), nd.Time(s2, n2)
	nd.Assume(nd.Or(s1 < s2, nd.And(s1 == s2, n1 <= n2)))
	nd.Assert(dtime.TimeToMs(&a) <= dtime.TimeToMs(&b), "later times never get smaller millisecond values")
}

func VH_P25_Now() {
	now, ms := clock()
	dtime.SetNowProvider(func() time.Time { return now })
	nd.Assert(dtime.NowMs() == ms, "the current time in milliseconds")
	x := dtime.Now()
	nd.Assert(x.Equal(now), "the current time")
	nd.ObserveInt("ms", dtime.NowMs())
}

// name is an arbitrary string of up to max bytes.
func name(n string, max int) string {
	return nd.Bytes(n, nd.Choose(n+".len", max+1))
}

// split is the reference: the first "::".
func split(q string) (string, string, bool) {
	for i := 0; i+1 < len(q); i++ {
		if nd.And(q[i] == ':', q[i+1] == ':') {
			return q[:i], q[i+2:], true
		}
	}
	return q, "", false
}

func VH_P22_Split() {
	max := 7
	if nd.Thorough() {
		max = 10
	}
	q := name("q", max)
	wp, ws, found := split(q)
	p, s := message.GetQueueParts(q)
	nd.ObserveStr("p", p)
	nd.ObserveStr("s", s)
	nd.Assert(nd.StrEq(p, wp), "prefix is the part before the first separator")
	nd.Assert(nd.StrEq(s, ws), "suffix is everything after it")
	nd.Assert(nd.StrEq(message.GetQueuePrefix(q), wp), "GetQueuePrefix agrees")
	m := message.Message{Queue: q}
	mp, ms := m.GetQueueParts()
	nd.Assert(nd.And(nd.StrEq(mp, wp), nd.StrEq(ms, ws)), "Message.GetQueueParts agrees")
	if found {
		nd.Assert(nd.StrEq(p+"::"+s, q), "joining gives the name back")
		nd.Cover("separator")
	} else {
		nd.Assert(nd.And(nd.StrEq(p, q), s == ""), "without separator the name is its own prefix")
		nd.Cover("no separator")
	}
}
