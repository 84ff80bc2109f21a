package hqueue

import (
	"github.com/takenet/deckard"
	"github.com/takenet/deckard/internal/queue"
	"github.com/takenet/deckard/internal/queue/cache"
	"github.com/takenet/deckard/internal/zzverif/hcache"
	"github.com/takenet/deckard/internal/zzverif/nd"
)

func (w *world) key(k string) string {
	v, err := w.C.Get(w.Ctx, k)
	nd.Assert(err == nil, "setup: key")
	return v
}

// recovered says whether the recovery task has nothing more to do.
func (w *world) recovered() bool {
	return w.key(cache.RECOVERY_STORAGE_BREAKPOINT_KEY) == cache.RECOVERY_FINISHED
}

// lost is a world whose cache has been lost: up to n messages are stored, some of them have been
// added to the cache again already.
func lostCache(n int, states ...int) *world {
	w := newWorld()
	nd.MapOrder(false)
	w.Tick()
	k := nd.Choose("size", n+1)
	last := 0
	for i := 0; i < k; i++ {
		q := []string{"q", "q::2"}[nd.Choose("queue", 2)]
		d := w.store(q, names[i])
		j := last + nd.Choose("state", len(states)-last)
		last = j
		if states[j] != hcache.Absent {
			w.Add(q, d.id, states[j])
		}
	}
	return w
}

// recover repeats the task until it is done, at most n times.
func (w *world) recover(n int) {
	for i := 0; i < n && !w.recovered(); i++ {
		try(func() { queue.RecoveryMessagesPool(w.Ctx, w.q) })
	}
	w.f.on = false
	nd.Assert(w.recovered(), "recovery finishes")
	nd.Assert(w.key(cache.RECOVERY_RUNNING) != "true", "a finished recovery is not running")
	// it stays finished
	n0 := len(w.f.calls)
	w.f.on, w.f.budget = true, 0
	nd.Assert(!queue.RecoveryMessagesPool(w.Ctx, w.q), "a finished recovery does nothing")
	w.f.on = false
	for _, c := range w.f.calls[n0:] {
		nd.Assert(c == "cache.Get", "a finished recovery does nothing")
	}
	nd.Assert(w.key(cache.RECOVERY_RUNNING) != "true", "a finished recovery is not running")
}

// restored moves the model: every stored message is in the cache.
func (w *world) restored() {
	for _, d := range w.ds {
		if w.Find(d.queue, d.id) == nil {
			w.Es = append(w.Es, &hcache.Entry{Queue: d.queue, ID: d.id, State: hcache.Available, Score: d.score})
		}
	}
}

// recovery with a failure or crash anywhere
func VH_P11_Recovery() {
	n, budget := 2, 1
	if nd.Thorough() {
		n, budget = 3, 2
	}
	w := lostCache(n, hcache.LockedNack, hcache.Processing, hcache.Absent, hcache.Available)
	w.Tick()
	w.f.on, w.f.budget, w.f.crash = true, budget, true
	w.recover(2 + 2*budget)
	nd.Cover("end")
	w.restored()
	w.verifyAll("q", "q::2")
}

// recovery in several pages, with adding in between. The read of a page yields the given number of
// messages of interest and is filled up to its limit with others.
func VH_P11_Pages() {
	w := newWorld()
	nd.MapOrder(false)
	w.Tick()
	for i := range nd.Choose("size", 3) + 1 {
		d := &doc{queue: []string{"q", "q::2"}[i%2], id: names[i], score: float64(i), payload: "p", timeless: true}
		w.insert(d)
	}
	w.s.pages = 1
	w.Tick()
	w.f.on, w.f.budget = true, 1
	add := 1 // after so many runs something is added
	if nd.Choose("failures", 2) == 0 {
		w.f.budget = 0
		add = nd.Choose("add", 4)
	}
	svc := w.service()
	for i := 0; i < 7 && !w.recovered(); i++ {
		if i == add {
			w.f.on = false
			id := names[nd.Choose("which", 3)]
			r := &deckard.AddRequest{Messages: []*deckard.AddMessage{{Id: id, Queue: "q", Timeless: true, Score: 77}}}
			_, err := svc.Add(w.Ctx, r)
			nd.Assert(err == nil, "adding works during recovery")
			held := w.Find("q", id) != nil || i > 0
			if d := w.doc("q", id); d == nil {
				w.added(r)
			} else {
				d.payload = ""
				if !held {
					w.added(r)
				}
			}
			w.f.on = true
		}
		queue.RecoveryMessagesPool(w.Ctx, w.q)
	}
	w.f.on = false
	nd.Assert(w.recovered(), "recovery finishes")
	nd.Assert(w.key(cache.RECOVERY_RUNNING) != "true", "a finished recovery is not running")
	for _, d := range w.ds {
		p, err := w.C.PullMessages(w.Ctx, d.queue, 10, nil, nil, 1)
		nd.Assert(err == nil, "the cache can be read")
		for _, id := range p {
			w.seen = append(w.seen, d.queue+"/"+id)
		}
	}
	for _, d := range w.ds {
		nd.Assert(index(w.seen, d.queue+"/"+d.id) >= 0, "every stored message is in the cache again")
	}
	nd.Assert(len(w.seen) == len(w.ds), "recovery adds nothing else")
	nd.Cover("end")
}

// the mark is set while recovery runs, so that nothing is removed
func VH_P11_Mark() {
	w := lostCache(2, hcache.Absent)
	w.Tick()
	w.c.on = func(op, q string) {
		if op == "cache.Insert" {
			nd.Assert(w.key(cache.RECOVERY_RUNNING) == "true", "recovery is marked as running while it adds messages")
		}
	}
	w.f.on, w.f.budget, w.f.crash = true, 1, true
	w.recover(4)
}

// messages come back with their stored score, brought into the range; a locked one may be stored
// without one (-1)
func VH_P11_Scores() {
	w := newWorld()
	w.Tick()
	x := nd.Float64("stored")
	nd.Assume(x == x)
	w.insert(&doc{queue: "q", id: "a", score: x, payload: "p", timeless: true})
	w.Tick()
	queue.RecoveryMessagesPool(w.Ctx, w.q)
	nd.Assert(w.recovered(), "recovery finishes")
	want := x
	if x < 0 {
		want = 0
	} else if x > maxScore {
		want = maxScore
	}
	w.Es = append(w.Es, &hcache.Entry{Queue: "q", ID: "a", State: hcache.Available, Score: want})
	w.verifyAll("q")
	nd.Cover("end")
}
