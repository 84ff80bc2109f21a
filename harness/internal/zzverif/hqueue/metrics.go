package hqueue

import (
	"context"
	"strconv"
	"strings"
	"time"

	"github.com/takenet/deckard/internal/config"
	"github.com/takenet/deckard/internal/dtime"
	"github.com/takenet/deckard/internal/queue"
	"github.com/takenet/deckard/internal/queue/message"
	"github.com/takenet/deckard/internal/shutdown"
	"github.com/takenet/deckard/internal/zzverif/nd"
	"go.opentelemetry.io/otel/attribute"
	"go.opentelemetry.io/otel/exporters/prometheus"
	"go.opentelemetry.io/otel/metric"
	sdk "go.opentelemetry.io/otel/sdk/metric"
)

// scrape is what a reader of the metrics sees: the observed value by queue.
type scrape struct {
	vals map[string]int64
	n    map[string]int
}

func (s *scrape) Observe(v int64, opts ...metric.ObserveOption) {
	name := "?"
	for _, o := range opts {
		m, ok := o.(metric.MeasurementOption)
		if !ok {
			continue
		}
		for i := 0; i < m.Set.Len(); i++ {
			if kv, _ := m.Set.Get(i); kv.Key == attribute.Key("queue") {
				name = kv.Value.AsString()
			}
		}
	}
	s.vals[name] = v
	s.n[name]++
}

func observe(gauge string) *scrape {
	s := &scrape{map[string]int64{}, map[string]int{}}
	nd.Assert(len(metric.Gauges[gauge]) == 1, "the gauge is reported")
	for _, f := range metric.Gauges[gauge] {
		nd.Assert(f(context.Background(), s) == nil, "reading the metrics succeeds")
	}
	for q := range s.n {
		nd.Assert(s.n[q] == 1, "one value for each queue")
	}
	return s
}

// usage is when a stored message was last used.
type usage struct {
	q, id string
	at    int64
	t     time.Time
}

type meters struct {
	*world
	us []*usage
}

func (m *meters) add(q, id string) {
	m.world.store(q, id)
	m.us = append(m.us, &usage{q, id, m.Now, m.T})
}

func (m *meters) ack(u *usage) {
	t := m.T
	n, err := m.mem.Ack(m.Ctx, &message.Message{ID: u.id, Queue: u.q, LastUsage: &t, Score: 1})
	nd.Assert(err == nil && n == 1, "setup: ack")
	u.at, u.t = m.Now, t
}

func (m *meters) remove(i int) {
	u := m.us[i]
	n, err := m.mem.Remove(m.Ctx, u.q, u.id)
	nd.Assert(err == nil && n == 1, "setup: remove")
	m.drop(u.q, u.id, true, true)
	m.us = append(append([]*usage{}, m.us[:i]...), m.us[i+1:]...)
}

// want is what has to be reported for a queue prefix.
func (m *meters) want(prefix string) (total int64, oldest *usage) {
	for _, u := range m.us {
		if u.q != prefix && !strings.HasPrefix(u.q, prefix+"::") {
			continue
		}
		total++
		if oldest == nil || u.at < oldest.at {
			oldest = u
		}
	}
	return
}

var prefixes = []string{"q", "r"}

// span is the age of the message before and after a pass.
type span struct{ from, to int64 }

func (m *meters) ages(f func()) map[string]span {
	r := map[string]span{}
	for _, p := range prefixes {
		if _, o := m.want(p); o != nil {
			r[p] = span{dtime.ElapsedTime(o.t), 0}
		}
	}
	f()
	for _, p := range prefixes {
		if _, o := m.want(p); o != nil {
			r[p] = span{r[p].from, dtime.ElapsedTime(o.t)}
		}
	}
	return r
}

func (m *meters) pass() { queue.ComputeMetrics(m.Ctx, m.q) }

// exact checks everything reported after a pass without failure. seen are the prefixes that had
// messages in an earlier pass.
func (m *meters) exact(a map[string]span, seen map[string]bool) {
	old, tot := observe("deckard_oldest_message"), observe("deckard_total_messages")
	for _, p := range prefixes {
		n, o := m.want(p)
		if o == nil {
			nd.Assert(nd.And(tot.vals[p] == 0, old.vals[p] == 0), "a queue that has vanished reports zero")
			nd.Assert(seen[p] == (tot.n[p] == 1) && seen[p] == (old.n[p] == 1), "a queue that has vanished is still reported")
			continue
		}
		seen[p] = true
		nd.Assert(tot.n[p] == 1 && old.n[p] == 1, "every queue is reported")
		nd.Assert(tot.vals[p] == n, "the number of messages of the queue is reported")
		nd.Assert(nd.And(old.vals[p] >= a[p].from, old.vals[p] <= a[p].to), "the age of the least recently used message is reported")
	}
	nd.Assert(len(tot.n) <= len(prefixes) && len(old.n) <= len(prefixes), "only queues are reported")
}

func newMeters(n int) *meters {
	m := &meters{world: newWorld()}
	m.mapOrder(false)
	k := nd.Choose("size", n+1)
	for i := 0; i < k; i++ {
		m.Tick()
		m.add([]string{"q", "q::1", "r"}[nd.Choose("queue", 3)], names[i])
	}
	return m
}

// what is reported after each pass, with messages coming, used and going in between
func VH_P23_Report() {
	n := 2
	if nd.Thorough() {
		n = 3
	}
	m := newMeters(n)
	seen := map[string]bool{}
	a := m.ages(m.pass)
	m.exact(a, seen)
	m.Tick()
	switch nd.Choose("change", 4) {
	case 0:
		m.add([]string{"q::2", "r"}[nd.Choose("queue", 2)], "z")
	case 1:
		if len(m.us) > 0 {
			m.ack(m.us[nd.Choose("which", len(m.us))])
		}
	case 2:
		if len(m.us) > 0 {
			m.remove(nd.Choose("which", len(m.us)))
		}
	case 3:
		for len(m.us) > 0 {
			m.remove(0)
		}
	}
	m.mapOrder(true)
	a = m.ages(m.pass)
	m.mapOrder(false)
	m.exact(a, seen)
	nd.Cover("end")
}

// a failing read of one queue leaves the others reported, and is not reported as an empty queue
func VH_P28_Metrics() {
	m := &meters{world: newWorld()}
	m.mapOrder(false)
	m.Tick()
	m.add("q", "a")
	m.add("r", "b")
	if nd.Thorough() {
		m.Tick()
		m.add("q::1", "c")
	}
	first := nd.Choose("first", 2) == 1
	seen := map[string]bool{}
	if first {
		m.exact(m.ages(m.pass), seen)
	}
	before, beforeAge := observe("deckard_total_messages"), observe("deckard_oldest_message")
	m.Tick()
	m.add("q", "y")
	m.add("r", "z")
	m.f.on, m.f.budget = true, 1
	if nd.Thorough() {
		m.f.budget = 2
	}
	m.mapOrder(true)
	a := m.ages(m.pass)
	m.mapOrder(false)
	m.f.on = false
	bad := map[string]bool{}
	for _, q := range m.f.queues {
		bad[q] = true
	}
	tot, old := observe("deckard_total_messages"), observe("deckard_oldest_message")
	for _, p := range prefixes {
		n, _ := m.want(p)
		right := tot.n[p] == 1 && old.n[p] == 1 && nd.And(tot.vals[p] == n, old.vals[p] >= a[p].from, old.vals[p] <= a[p].to)
		if !bad[p] && !bad[""] {
			nd.Assert(right, "queues without failure are reported")
			continue
		}
		nd.Assert(tot.n[p] == 1 && tot.vals[p] == n || tot.n[p] == before.n[p] && tot.vals[p] == before.vals[p],
			"a count that failed is not reported as a number of messages")
		nd.Assert(old.n[p] == 1 && nd.And(old.vals[p] >= a[p].from, old.vals[p] <= a[p].to) || old.n[p] == beforeAge.n[p] && old.vals[p] == beforeAge.vals[p],
			"a read that failed is not reported as an age")
	}
	m.exact(m.ages(m.pass), seen)
	nd.Cover("end")
}

// shutdown during a pass does not make queues look empty
func VH_P23_Shutdown() {
	m := &meters{world: newWorld()}
	m.mapOrder(false)
	m.Tick()
	m.add("q", "a")
	m.add("r", "b")
	seen := map[string]bool{}
	m.exact(m.ages(m.pass), seen)
	before := observe("deckard_oldest_message")
	at := nd.Choose("at", 5)
	m.s.on = func(op, q string) {
		if at == 0 {
			shutdown.Start()
		}
		at--
	}
	m.mapOrder(true)
	a := m.ages(m.pass)
	m.mapOrder(false)
	tot, old := observe("deckard_total_messages"), observe("deckard_oldest_message")
	for _, p := range prefixes {
		nd.Assert(tot.n[p] == 1 && tot.vals[p] == 1, "the number of messages stays reported")
		nd.Assert(old.n[p] == 1 && nd.Or(old.vals[p] == before.vals[p], nd.And(old.vals[p] >= a[p].from, old.vals[p] <= a[p].to)), "the age stays reported")
	}
}

// reading the metrics while a pass runs
func VH_P23_Concurrent() {
	m := &meters{world: newWorld()}
	m.mapOrder(false)
	m.Tick()
	m.add("q", "a")
	m.pass()
	m.add("r", "b")
	k := 1
	if nd.Thorough() {
		k = 2
	}
	nd.Threads(k)
	nd.Go(m.pass)
	nd.Go(func() {
		tot := observe("deckard_total_messages")
		nd.Assert(tot.n["q"] == 1 && tot.vals["q"] == 1, "the queue is reported while a pass runs")
		nd.Assert(tot.n["r"] == 0 || tot.vals["r"] == 1, "a new queue is reported right")
	})
	nd.Go(func() {
		old := observe("deckard_oldest_message")
		nd.Assert(old.n["q"] == 1 && len(old.n) <= 2, "the queue is reported while a pass runs")
	})
	nd.Quiesce()
	nd.NoThreads()
}

func VH_P23_Elapsed() {
	w := nd.Int64("s", 0, 4000000000)
	t := nd.Time(w, nd.Int64("ms", 0, 999)).Add(time.Duration(nd.Int64("ns", 0, 999999)))
	from := time.Since(t)
	e := dtime.ElapsedTime(t)
	to := time.Since(t)
	nd.Assert(nd.And(e*1000000 >= int64(from)-999999, e*1000000 <= int64(to)+999999), "ages are in milliseconds")
	nd.Assert(nd.Implies(from >= 0, e*1000000 <= int64(to)), "ages are whole milliseconds")
}

func boundaries() []float64 {
	nd.Assert(prometheus.Selector != nil, "histograms are configured")
	h, ok := prometheus.Selector(sdk.InstrumentKindHistogram).(sdk.AggregationExplicitBucketHistogram)
	nd.Assert(ok, "histograms have explicit buckets")
	return h.Boundaries
}

// the buckets configured in the environment are those the histograms are created with: the
// library asks for them once, when a histogram is created
func VH_P23_BucketsTaken() {
	for _, h := range metric.Histograms {
		a, ok := h.(sdk.AggregationExplicitBucketHistogram)
		nd.Assert(ok && len(a.Boundaries) == 3 && a.Boundaries[0] == 3 && a.Boundaries[1] == 4 && a.Boundaries[2] == 77,
			"histograms are created with the configured buckets")
	}
}

// the buckets of the histograms, for every short list
func VH_P23_Buckets() {
	n := 3
	if nd.Thorough() {
		n = 4
	}
	s := nd.Bytes("buckets", 1+nd.Choose("len", n))
	// one separator and the characters of numbers that mean one without exponent
	for i := 0; i < len(s); i++ {
		nd.Assume(nd.Or(nd.And(s[i] >= '0', s[i] <= '9'), s[i] == ',', s[i] == ' ', s[i] == 'x', s[i] == '-'))
	}
	config.Configure(true)
	config.MetricsHistogramBuckets.Set(s)
	var want []float64
	bad := false
	for _, p := range strings.Split(s, ",") {
		v, ok := number(strings.Trim(p, " "))
		bad = bad || !ok
		want = append(want, v)
	}
	if bad {
		want = nil
		for _, p := range strings.Split("0,1,2,5,10,15,20,30,35,50,100,200,400,600,800,1000,1500,2000,5000,10000", ",") {
			v, _ := strconv.ParseFloat(p, 64)
			want = append(want, v)
		}
	}
	got := boundaries()
	nd.Cover("end")
	nd.Assert(len(got) == len(want), "the configured buckets are used, or all the default ones")
	for i := range got {
		nd.Assert(got[i] == want[i], "the configured buckets are used, or all the default ones")
	}
}

// number reads a decimal integer.
func number(s string) (float64, bool) {
	neg := false
	if len(s) > 0 && s[0] == '-' {
		neg, s = true, s[1:]
	}
	if s == "" {
		return 0, false
	}
	v := int64(0)
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return 0, false
		}
		v = v*10 + int64(s[i]-'0')
	}
	if neg {
		v = -v
	}
	return float64(v), true
}
