package hqueue

import (
	"github.com/takenet/deckard/internal/audit"
	"github.com/takenet/deckard/internal/queue"
	"github.com/takenet/deckard/internal/queue/cache"
	"github.com/takenet/deckard/internal/queue/configuration"
	"github.com/takenet/deckard/internal/zzverif/hcache"
	"github.com/takenet/deckard/internal/zzverif/nd"
)

// mixed stores up to n messages with arbitrary expiry dates in two queues and puts each into an
// arbitrary state of the cache.
func (w *world) mixed(n int, states ...int) {
	k := nd.Choose("size", n+1)
	last := 0
	for i := 0; i < k; i++ {
		j := last + nd.Choose("state", len(states)-last)
		last = j
		q := []string{"q", "q::2"}[nd.Choose("queue", 2)]
		w.storeExp(q, names[i])
		w.Add(q, names[i], states[j])
	}
}

// removedOnly checks the audit entries of a pass: one removal for each document that is gone.
func (w *world) removals(gone []*doc, reason string) {
	for _, e := range w.a.es {
		nd.Assert(e.Signal == audit.REMOVE && e.Reason == reason, "a removal pass audits removals only")
		hit := 0
		for _, d := range gone {
			if d.queue == e.Queue && d.id == e.ID {
				hit++
			}
		}
		nd.Assert(hit == 1, "only removed messages are audited")
	}
	for _, d := range gone {
		nd.Assert(w.audited(audit.REMOVE, d.queue, d.id) == 1, "each removed message is audited once")
	}
}

// gone says which documents are no longer stored, and takes them out of the model.
func (w *world) gone() (r []*doc) {
	here := w.stored()
	for _, d := range append([]*doc{}, w.ds...) {
		at := -1
		for i := range here {
			if here[i].Queue == d.queue && here[i].ID == d.id {
				at = i
			}
		}
		if at < 0 {
			r = append(r, d)
			w.drop(d.queue, d.id, true, true)
		}
	}
	return
}

// available last: setting up the others pulls
var anyState = []int{hcache.LockedAck, hcache.LockedNack, hcache.Processing, hcache.Absent, hcache.Available}

// the TTL task removes exactly what has expired
func VH_P09_Ttl() {
	w := newWorld()
	w.mapOrder(false)
	w.Tick()
	n, states := 2, []int{hcache.LockedNack, hcache.Absent, hcache.Available}
	if nd.Thorough() {
		n, states = 3, anyState
	}
	w.mixed(n, states...)
	w.Tick()
	date := w.T
	now := w.Now
	if nd.Choose("date", 2) == 1 { // the pass may use a date of its own
		s, ms := nd.Int64("date.s", 0, 4000000000), nd.Int64("date.ms", 0, 999)
		date, now = nd.Time(s, ms), s*1000+ms
	}
	w.mapOrder(true)
	_, err := queue.RemoveTTLMessages(w.Ctx, w.q, &date)
	w.mapOrder(false)
	nd.Cover("end")
	nd.Assert(err == nil, "a pass without failure succeeds")
	gone := w.gone()
	for _, d := range gone {
		nd.Assert(d.exp <= now, "only expired messages are removed")
	}
	for _, d := range w.ds {
		nd.Assert(d.exp > now, "every expired message is removed")
	}
	w.removals(gone, "TTL")
	w.verifyAll("q", "q::2")
}

// more expired messages than one pass takes: the oldest go first. The read of the pass is cut to
// one message here instead of ten thousand.
func VH_P09_TtlPage() {
	w := newWorld()
	w.mapOrder(false)
	w.Tick()
	w.mixed(3, hcache.Available)
	w.Tick()
	now := w.Now
	w.s.page = 1 + nd.Choose("page", 2)
	_, err := queue.RemoveTTLMessages(w.Ctx, w.q, &w.T)
	w.Tick()
	nd.Assert(err == nil, "a pass without failure succeeds")
	gone := w.gone()
	nd.Assert(len(gone) <= w.s.page, "setup: page")
	for _, g := range gone {
		nd.Assert(g.exp <= now, "only expired messages are removed")
		for _, d := range w.ds {
			nd.Assert(d.exp >= g.exp, "what expired first is removed first")
		}
	}
	if len(gone) < w.s.page {
		for _, d := range w.ds {
			nd.Assert(d.exp > now, "every expired message is removed")
		}
	}
	w.s.page = 0
	w.verifyStorage()
}

// a TTL pass with a failure removes nothing else, and the next one finishes
func VH_P09_TtlFailure() {
	w := newWorld()
	w.mapOrder(false)
	w.Tick()
	w.mixed(2, hcache.Processing, hcache.Absent, hcache.Available)
	w.Tick()
	now := w.Now
	w.f.on, w.f.budget, w.f.crash = true, 1, true
	var err error
	dead := try(func() { _, err = queue.RemoveTTLMessages(w.Ctx, w.q, &w.T) })
	w.f.on = false
	if len(w.f.failed) > 0 && !dead {
		nd.Assert(err != nil, "a failed pass reports an error")
	}
	w.Tick()
	// removed from storage only: delivered at most until the cache is repaired, see P13
	here := w.gone()
	for _, d := range here {
		nd.Assert(d.exp <= now, "only expired messages are removed")
	}
	if !dead {
		_, err = queue.RemoveTTLMessages(w.Ctx, w.q, &w.T)
		nd.Assert(err == nil, "the next pass succeeds")
		for _, d := range w.gone() {
			nd.Assert(d.exp <= w.Now, "only expired messages are removed")
		}
		for _, d := range w.ds {
			nd.Assert(d.exp > w.Now, "every expired message is removed")
		}
	}
	w.verifyStorage()
	for _, e := range w.Es { // the cache keeps every message that is still stored
		if w.doc(e.Queue, e.ID) != nil && e.State == hcache.Available {
			p, err := w.C.PullMessages(w.Ctx, e.Queue, 10, nil, nil, 0)
			nd.Assert(err == nil && index(p, e.ID) >= 0, "remaining messages stay deliverable")
			return
		}
	}
}

// the size limit
func exceeding(w *world, limits map[string]int64) {
	w.mapOrder(len(w.ds) < 2 || nd.Thorough())
	_, err := queue.RemoveExceedingMessages(w.Ctx, w.q)
	w.mapOrder(false)
	nd.Cover("end")
	nd.Assert(err == nil, "a pass without failure succeeds")
	before := append([]*doc{}, w.ds...)
	gone := w.gone()
	for _, q := range []string{"q", "q::2"} {
		var had, lost int64
		expired := false
		for _, d := range before {
			if d.queue == q {
				had++
				expired = nd.Or(expired, d.exp <= w.Now)
			}
		}
		for _, d := range gone {
			if d.queue == q {
				lost++
			}
		}
		l := limits[q]
		if lost > 0 {
			nd.Assert(nd.And(l > 0, had > l), "queues without a limit or within it are untouched")
			nd.Assert(lost <= had-l, "not more than the excess is removed")
		}
		const known = "expired-hidden"
		nd.AssertKnown(nd.Implies(nd.And(l > 0, had > l), lost == had-l), "the excess is removed", known, expired)
		for _, g := range gone {
			if g.queue != q {
				continue
			}
			for _, d := range w.ds {
				if d.queue == q {
					nd.AssertKnown(d.exp >= g.exp, "what expires first is removed", known, d.exp <= w.Now)
				}
			}
		}
	}
	w.removals(gone, "MAX_ELEMENTS")
	for _, e := range w.Es { // the order of delivery does not matter here
		nd.Assert(w.doc(e.Queue, e.ID) != nil, "a removed message is gone everywhere")
	}
	w.verifyStorage()
	for _, q := range []string{"q", "q::2"} {
		n := 0
		for _, e := range w.Es {
			if e.Queue == q && e.State == hcache.Available {
				n++
			}
		}
		p, err := w.C.PullMessages(w.Ctx, q, 10, nil, nil, 0)
		nd.Assert(err == nil && len(p) == n, "exactly the remaining messages are available")
	}
}

func VH_P10_Exceeding() {
	w := newWorld()
	w.mapOrder(false)
	w.Tick()
	n, states := 3, []int{hcache.Available}
	if nd.Thorough() {
		n = 4
	}
	if nd.Choose("states", 2) == 1 {
		n, states = 1, anyState
		if nd.Thorough() {
			n = 2
		}
	}
	w.mixed(n, states...)
	limits := map[string]int64{}
	for i, q := range []string{"q", "q::2"} {
		if nd.Choose("limit", 2-i) == 0 {
			l := nd.Int64("limit."+q, -9223372036854775808, 9223372036854775807)
			nd.Assume(nd.Or(i == 0, l == 1))
			if l != 0 {
				limits[q] = l
			}
			nd.Assert(w.cfg.EditQueueConfiguration(w.Ctx, &configuration.QueueConfiguration{Queue: q, MaxElements: l}) == nil, "setup: limit")
		}
	}
	w.Tick()
	exceeding(w, limits)
}

// no removal for TTL or size while recovery runs, or when that cannot be told
func VH_P11_NoRemoval() {
	w := newWorld()
	w.mapOrder(false)
	w.Tick()
	w.mixed(2, hcache.Absent, hcache.Available)
	nd.Assert(w.mem.EditQueueConfiguration(w.Ctx, &configuration.QueueConfiguration{Queue: "q", MaxElements: 1}) == nil, "setup: limit")
	w.Tick()
	running := nd.Choose("running", 2) == 1
	if running {
		nd.Assert(w.C.Set(w.Ctx, cache.RECOVERY_RUNNING, "true") == nil, "setup: mark")
	} else {
		w.f.on, w.f.budget = true, 1
	}
	if nd.Choose("task", 2) == 0 {
		queue.RemoveTTLMessages(w.Ctx, w.q, &w.T)
	} else {
		queue.RemoveExceedingMessages(w.Ctx, w.q)
	}
	if running || index(w.f.failed, "cache.Get") >= 0 {
		nd.Assert(len(w.gone()) == 0, "nothing is removed while recovering")
		w.verifyAll("q", "q::2")
	}
}

// a failure of one queue during the size-limit pass leaves the others handled
func VH_P28_Exceeding() {
	w := newWorld()
	w.mapOrder(false)
	w.Tick()
	for _, q := range []string{"q", "q::2"} {
		for _, id := range []string{"a", "b"} {
			d := w.store(q, id)
			_ = d
			w.Add(q, id, hcache.Available)
		}
		nd.Assert(w.mem.EditQueueConfiguration(w.Ctx, &configuration.QueueConfiguration{Queue: q, MaxElements: 1}) == nil, "setup: limit")
	}
	w.Tick()
	w.mapOrder(true)
	w.f.on, w.f.budget = true, 1
	queue.RemoveExceedingMessages(w.Ctx, w.q)
	w.f.on = false
	w.mapOrder(false)
	bad := map[string]bool{}
	global := false
	for i, op := range w.f.failed {
		q := w.f.queues[i]
		bad[q] = true
		global = global || q == "" || op == "cache.Get"
	}
	for _, q := range []string{"q", "q::2"} {
		n := w.count(q)
		if !bad[q] && !global {
			nd.Assert(n == 1, "queues without failure are handled")
		}
		nd.Assert(n >= 1, "not more than the excess is removed")
	}
	// the next pass handles the rest
	_, err := queue.RemoveExceedingMessages(w.Ctx, w.q)
	nd.Assert(err == nil && w.count("q") == 1 && w.count("q::2") == 1, "the next pass handles the failed queue")
}

func (w *world) count(q string) (n int) {
	for _, m := range w.stored() {
		if m.Queue == q {
			n++
		}
	}
	return
}

// timeouts with a failing queue
func VH_P28_Timeout() {
	w := newWorld()
	w.mapOrder(false)
	w.Tick()
	w.store("q", "a")
	w.Add("q", "a", hcache.Processing)
	w.Add("q::2", "b", hcache.Processing)
	if nd.Thorough() {
		w.Add("r", "c", hcache.Processing)
	}
	w.Tick()
	w.mapOrder(true)
	w.f.on, w.f.budget = true, 1
	err := queue.ProcessTimeoutMessages(w.Ctx, w.q)
	w.f.on = false
	w.mapOrder(false)
	nd.Cover("end")
	w.passed(err, "cache.TimeoutMessages", audit.TIMEOUT, func(e *hcache.Entry) { e.State, e.Score = hcache.Available, 0 }, hcache.Processing)
}

// passed checks a timeout or unlock pass in which at most one call failed.
func (w *world) passed(err error, call string, sig audit.Signal, release func(e *hcache.Entry), from ...int) {
	listed := index(w.f.failed, "cache.ListQueues") < 0
	moved := map[*hcache.Entry]bool{}
	for _, e := range w.Es {
		in := false
		for _, s := range from {
			in = in || e.State == s
		}
		if !in {
			continue
		}
		bad := false
		lostCall := false
		for i, op := range w.f.failed {
			if op == call && w.f.queues[i] == e.Queue {
				bad = true
				lostCall = w.f.how[i] == lost
			}
		}
		due := e.Until <= w.Now
		n := w.audited(sig, e.Queue, e.ID)
		switch {
		case !listed:
			nd.Assert(n == 0, "a failed pass reports nothing")
		case bad:
			nd.Assert(n == 0, "nothing is reported for a failed queue")
			if !lostCall && due {
				moved[e] = true
			}
		default:
			nd.Assert(nd.Iff(due, n == 1), "exactly the messages that are due are reported")
			if n == 1 {
				moved[e] = true
			}
		}
	}
	nd.Assert(len(w.a.es) <= len(moved), "nothing else is reported")
	for e := range moved {
		release(e)
	}
	w.verifyAll("q", "q::2", "r")
}

// unlocking with a failing queue
func VH_P28_Unlock() {
	w := newWorld()
	w.mapOrder(false)
	w.Tick()
	k1, k2 := hcache.LockedAck+nd.Choose("kind", 2), hcache.LockedAck+nd.Choose("kind", 2)
	w.Add("q", "a", k1)
	w.Add("q::2", "b", k2)
	w.Tick()
	w.mapOrder(true)
	w.f.on, w.f.budget = true, 1
	queue.ProcessLockPool(w.Ctx, w.q)
	w.f.on = false
	w.mapOrder(false)
	nd.Cover("end")
	kind := nd.Choose("look", 2)
	_ = kind
	w.passedUnlock()
}

func (w *world) passedUnlock() {
	moved := 0
	listFailed := 0 // 1: the first list, 2: the second
	for i, op := range w.f.failed {
		if op == "cache.ListQueues" {
			listFailed = 1
			for _, c := range w.f.calls[:w.f.at_[i]] {
				if c == "cache.ListQueues" {
					listFailed = 2
				}
			}
		}
	}
	for _, e := range w.Es {
		bad, none := false, false
		for i, op := range w.f.failed {
			if op == "cache.UnlockMessages" && w.f.queues[i] == e.Queue {
				bad, none = true, w.f.how[i] == lost
			}
		}
		due := e.Until <= w.Now
		n := w.audited(audit.UNLOCK, e.Queue, e.ID)
		switch {
		case listFailed == 1 || listFailed == 2 && e.State == hcache.LockedNack:
			nd.Assert(n == 0, "nothing is reported when queues cannot be listed")
			continue
		case bad:
			nd.Assert(n == 0, "nothing is reported for a failed queue")
			if none || !due {
				continue
			}
		default:
			nd.Assert(nd.Iff(due, n == 1), "exactly the messages that are due are reported")
			if n == 0 {
				continue
			}
		}
		moved++
		if e.Score < 0 {
			e.Score = 0
			if e.State == hcache.LockedAck {
				e.Score = float64(w.Now)
			}
		}
		e.State = hcache.Available
	}
	nd.Assert(len(w.a.es) <= moved, "nothing else is reported")
	w.verifyAll("q", "q::2")
}
