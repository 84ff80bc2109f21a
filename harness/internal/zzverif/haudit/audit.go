package haudit

import (
	"context"
	"math"
	"net/http"
	"sync"
	"time"

	"github.com/takenet/deckard/internal/audit"
	"github.com/takenet/deckard/internal/config"
	"github.com/takenet/deckard/internal/zzverif/nd"
)

// one entry arrives with everything it says
func VH_P19_Entry() {
	w := connect(size, wait)
	e := audit.Entry{
		ID: []string{"a", "", "x\"\n"}[nd.Choose("id", 3)], Queue: []string{"q", "q::s", "q::", "::s", "q::s::t"}[nd.Choose("queue", 5)],
		Signal: signals[nd.Choose("signal", len(signals))], Reason: []string{"", "why"}[nd.Choose("reason", 2)],
		Breakpoint: "bp", LockMs: nd.Int64("lock", math.MinInt64, math.MaxInt64), LastScoreSubtract: nd.Float64("subtract"),
	}
	pre, suf := "q", ""
	switch e.Queue {
	case "q::s":
		suf = "s"
	case "::s":
		pre, suf = "", "s"
	case "q::s::t":
		suf = "s::t"
	}
	odd := nd.Choose("odd", 2) == 1
	finite := nd.And(e.LastScoreSubtract-e.LastScoreSubtract == 0)
	nd.Assume(finite != odd)
	before := time.Now()
	w.a.Store(context.Background(), e)
	after := time.Now()
	second := audit.Entry{ID: "z", Queue: "q"}
	w.a.Store(context.Background(), second)
	go w.a.StartSender(w.ctx)
	nd.Quiesce()
	w.stop()
	w.wg.Wait()
	l := w.s.lines()
	id, ok := nd.JSONString(l[len(l)-1].text, "id")
	nd.Assert(ok && id == "z", "an entry that cannot be written keeps no other back")
	if odd {
		return
	}
	nd.Assert(len(l) == 2, "every entry is sent once")
	str := func(key, want string) {
		s, ok := nd.JSONString(l[0].text, key)
		nd.Assert(ok && s == want, "the entry arrives as it was stored: "+key)
	}
	str("id", e.ID)
	str("queue", e.Queue)
	str("queue_prefix", pre)
	str("queue_suffix", suf)
	str("signal", string(e.Signal))
	str("reason", e.Reason)
	str("breakpoint", e.Breakpoint)
	n, ok := nd.JSONInt(l[0].text, "lock_ms")
	nd.Assert(ok && n == e.LockMs, "the entry arrives as it was stored: lock_ms")
	f, ok := nd.JSONFloat(l[0].text, "last_score_subtract")
	nd.Assert(ok && f == e.LastScoreSubtract, "the entry arrives as it was stored: last_score_subtract")
	t, ok := nd.JSONTime(l[0].text, "timestamp")
	nd.Assert(ok && !t.Before(before.Truncate(time.Millisecond)) && !t.After(after), "the entry arrives with the time it was stored")
}

// entries stored one after another, with pauses, and the shutdown at the end
func VH_P19_Sequence() {
	w := connect(size, wait)
	go w.a.StartSender(w.ctx)
	nd.Quiesce()
	nd.Timers(40)
	n := 3
	if nd.Thorough() {
		n = 5
	}
	k := nd.Choose("entries", n+1)
	for i := 0; i < k; i++ {
		w.a.Store(context.Background(), w.next())
		if nd.Choose("pause", 2) == 1 {
			nd.Elapse(10 * wait)
			w.arrived(size)
		}
	}
	w.stop()
	w.wg.Wait()
	nd.Cover("end")
	w.arrived(size)
}

// without auditing nothing is sent, nothing is connected to and nothing blocks
func VH_P19_Disabled() {
	s := &sink{}
	http.DefaultTransport = s
	config.AuditEnabled.Set(false)
	config.ElasticAddress.Set("http://localhost:9200/")
	wg := &sync.WaitGroup{}
	a, err := audit.NewAuditor(wg)
	nd.Assert(err == nil && a != nil, "an auditor that is switched off is created")
	ctx, stop := context.WithCancel(context.Background())
	for i := 0; i < 3; i++ {
		a.Store(ctx, audit.Entry{ID: "a", Queue: "q"})
	}
	a.StartSender(ctx)
	a.Store(ctx, audit.Entry{ID: "a", Queue: "q"})
	stop()
	a.Store(ctx, audit.Entry{ID: "a", Queue: "q"})
	wg.Wait()
	nd.Assert(s.asked == 0, "nothing is sent")
}

// a server that does not answer as it should
func VH_P19_Connect() {
	how := nd.Choose("how", 3)
	s := &sink{how: func(what string) int { return how }}
	http.DefaultTransport = s
	config.AuditEnabled.Set(true)
	config.ElasticAddress.Set([]string{"http://localhost:9200/", "http://u:p@elastic:9200", "://"}[nd.Choose("address", 3)])
	bad := config.ElasticAddress.Get() == "://"
	a, err := audit.NewAuditor(&sync.WaitGroup{})
	nd.Assert((err == nil) == (how == fine && !bad), "an auditor is created exactly when the server answers")
	nd.Assert((err == nil) == (a != nil), "an auditor or an error")
}

// failing requests lose their own entries only
func VH_P19_Failing() {
	w := connect(size, wait)
	n := 0
	fails := map[int]int{}
	w.s.how = func(what string) int {
		if what != "bulk" {
			return fine
		}
		n++
		h := nd.Choose("how", 3)
		if h != fine {
			fails[n] = h
		}
		return h
	}
	k := 2 + nd.Choose("entries", 4)
	for i := 0; i < k; i++ {
		w.a.Store(context.Background(), w.next())
	}
	go w.a.StartSender(w.ctx)
	nd.Quiesce()
	w.stop()
	w.wg.Wait()
	nd.Cover("end")
	// entry i is in request i/2
	var keep []audit.Entry
	for i, e := range w.sent {
		if fails[i/2+1] == fine {
			keep = append(keep, e)
		}
	}
	w.sent = keep
	w.arrived(size)
	nd.Assert(n == (k+1)/2, "every batch is sent")
}

// entries that are waiting when the shutdown starts
func VH_P19_Waiting() {
	w := connect(size, wait)
	n := 4
	if nd.Thorough() {
		n = 7
	}
	k := nd.Choose("entries", n+1)
	early := nd.Choose("early", 2) == 1
	if early {
		go w.a.StartSender(w.ctx)
		nd.Quiesce()
	}
	for i := 0; i < k; i++ {
		w.a.Store(context.Background(), w.next())
	}
	w.stop()
	if !early {
		w.a.StartSender(w.ctx)
	}
	w.wg.Wait()
	nd.Cover("end")
	w.arrived(size)
	// a task that ends later does no harm
	w.a.Store(context.Background(), audit.Entry{ID: "z", Queue: "q"})
}

// entries stored by other threads around the shutdown
func VH_P19_Threads() {
	k := 1
	if nd.Thorough() {
		k = 2
	}
	w := connect(size, wait)
	go w.a.StartSender(w.ctx)
	nd.Quiesce()
	nd.Threads(k)
	k = nd.Choose("entries", 3)
	var mu sync.Mutex
	var first, later []string
	stopped := false
	tasks := &sync.WaitGroup{}
	store := func(id string) {
		w.a.Store(context.Background(), audit.Entry{ID: id, Queue: "q"})
		mu.Lock()
		defer mu.Unlock()
		if stopped {
			later = append(later, id)
		} else {
			first = append(first, id)
		}
	}
	tasks.Add(1)
	go func() {
		defer tasks.Done()
		store("t")
		store("u")
	}()
	for i := 0; i < k; i++ {
		store(string(rune('a' + i)))
	}
	mu.Lock()
	stopped = true
	mu.Unlock()
	w.stop()
	tasks.Wait()
	w.wg.Wait()
	nd.NoThreads()
	nd.Cover("end")
	in := map[string]int{}
	for _, l := range w.s.lines() {
		id, ok := nd.JSONString(l.text, "id")
		nd.Assert(ok, "entries have an identifier")
		in[id]++
		nd.Assert(in[id] == 1, "no entry is sent twice")
	}
	for _, id := range first {
		nd.Assert(in[id] == 1, "every entry stored before the shutdown is sent")
	}
	for id := range in {
		hit := false
		for _, x := range append(append([]string{}, first...), later...) {
			hit = hit || x == id
		}
		nd.Assert(hit, "only stored entries are sent")
	}
}
