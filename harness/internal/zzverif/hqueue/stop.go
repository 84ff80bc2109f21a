package hqueue

import (
	"strings"

	"github.com/takenet/deckard/internal/audit"
	"github.com/takenet/deckard/internal/queue"
	"github.com/takenet/deckard/internal/queue/configuration"
	"github.com/takenet/deckard/internal/shutdown"
	"github.com/takenet/deckard/internal/zzverif/hcache"
	"github.com/takenet/deckard/internal/zzverif/nd"
)

// stopAt starts the shutdown just before one of the first n calls of the cache and the storage.
// From then on the pass may finish the queue it is in and no other.
func (w *world) stopAt(n int) {
	shutdown.Reset()
	at, on, cur := nd.Choose("at", n+1), false, ""
	step := func(op, q string) {
		if strings.HasSuffix(op, "Get") || strings.HasSuffix(op, "Set") {
			q = ""
		}
		if !on && at == 0 {
			on, cur = true, q
			shutdown.Start()
		} else if on && q != "" {
			nd.Assert(q == cur, "a pass does not go on to another queue once the shutdown has started")
		}
		at--
	}
	w.s.on, w.c.on = step, step
}

// whole checks that each queue was passed over entirely or not at all.
func whole(due, done map[string]int64) {
	for q, n := range done {
		nd.Assert(nd.Or(n == 0, n == due[q]), "a queue is passed over entirely or not at all")
	}
}

// the shutdown starts while a pass goes over the queues: nothing is half moved, and the next
// process finishes the work
func VH_P24_Timeouts() {
	w := newWorld()
	w.mapOrder(false)
	w.Tick()
	w.Add("q", "a", hcache.Processing)
	w.Add("q", "b", hcache.Processing)
	w.Add("r", "c", hcache.Processing)
	w.Tick()
	w.stopAt(3)
	w.mapOrder(true)
	err := queue.ProcessTimeoutMessages(w.Ctx, w.q)
	w.mapOrder(false)
	nd.Assert(err == nil, "a stopped pass is no failure")
	w.released(hcache.Processing, audit.TIMEOUT, false)
	w.s.on, w.c.on = nil, nil
	if nd.Choose("again", 2) == 0 {
		w.verifyAll("q", "r")
		return
	}
	shutdown.Reset()
	w.Tick()
	w.a.es = nil
	nd.Assert(queue.ProcessTimeoutMessages(w.Ctx, w.q) == nil, "the next pass succeeds")
	w.released(hcache.Processing, audit.TIMEOUT, true)
	w.verifyAll("q", "r")
}

func VH_P24_Unlock() {
	w := newWorld()
	w.mapOrder(false)
	w.Tick()
	kind := hcache.LockedAck + nd.Choose("kind", 2)
	w.Add("q", "a", kind)
	w.Add("q", "b", kind)
	w.Add("r", "c", hcache.LockedAck)
	w.Tick()
	w.stopAt(5)
	w.mapOrder(true)
	queue.ProcessLockPool(w.Ctx, w.q)
	w.mapOrder(false)
	w.released(-1, audit.UNLOCK, false)
	w.s.on, w.c.on = nil, nil
	if nd.Choose("again", 2) == 0 {
		w.verifyAll("q", "r")
		return
	}
	shutdown.Reset()
	w.Tick()
	w.a.es = nil
	queue.ProcessLockPool(w.Ctx, w.q)
	w.released(-1, audit.UNLOCK, true)
	w.verifyAll("q", "r")
}

// released checks a pass that makes messages available.
func (w *world) released(from int, sig audit.Signal, all bool) {
	due, done := map[string]int64{}, map[string]int64{}
	for _, e := range w.Es {
		if e.State == hcache.Available || from >= 0 && e.State != from {
			continue
		}
		d := e.Until <= w.Now
		n := w.audited(sig, e.Queue, e.ID)
		nd.Assert(nd.Implies(n > 0, d), "only due messages are moved")
		nd.Assert(nd.Implies(all, nd.Iff(n == 1, d)), "the next pass moves every due message")
		due[e.Queue] += nd.B2I(d)
		done[e.Queue] += int64(n)
		if n == 0 {
			continue
		}
		switch {
		case from == hcache.Processing:
			e.Score = 0
		case e.Score < 0 && e.State == hcache.LockedAck:
			e.Score = float64(w.Now)
		case e.Score < 0:
			e.Score = 0
		}
		e.State = hcache.Available
	}
	whole(due, done)
}

func VH_P24_Ttl() {
	w := newWorld()
	w.mapOrder(false)
	w.Tick()
	w.expiring()
	w.Tick()
	now := w.Now
	w.stopAt(5)
	w.mapOrder(true)
	_, err := queue.RemoveTTLMessages(w.Ctx, w.q, &w.T)
	w.mapOrder(false)
	nd.Assert(err == nil, "a stopped pass is no failure")
	due, done := map[string]int64{}, map[string]int64{}
	for _, d := range w.ds {
		due[d.queue] += nd.B2I(d.exp <= now)
	}
	for _, d := range w.gone() {
		nd.Assert(d.exp <= now, "only expired messages are removed")
		done[d.queue]++
	}
	whole(due, done)
	w.s.on, w.c.on = nil, nil
	w.verifyAll("q", "r")
}

func (w *world) expiring() {
	for i, q := range []string{"q", "q", "r"} {
		w.storeExp(q, names[i])
		w.Add(q, names[i], hcache.Available)
	}
}

func VH_P24_Exceeding() {
	w := newWorld()
	w.mapOrder(false)
	w.Tick()
	for i, q := range []string{"q", "q", "r", "r"} {
		w.store(q, names[i])
		w.Add(q, names[i], hcache.Available)
	}
	for _, q := range []string{"q", "r"} {
		nd.Assert(w.cfg.EditQueueConfiguration(w.Ctx, &configuration.QueueConfiguration{Queue: q, MaxElements: 1}) == nil, "setup: limit")
	}
	w.Tick()
	w.stopAt(9)
	w.mapOrder(true)
	_, err := queue.RemoveExceedingMessages(w.Ctx, w.q)
	w.mapOrder(false)
	nd.Assert(err == nil, "a stopped pass is no failure")
	done := map[string]int64{}
	for _, d := range w.gone() {
		done[d.queue]++
	}
	whole(map[string]int64{"q": 1, "r": 1}, done)
	w.s.on, w.c.on = nil, nil
	w.verifyAll("q", "r")
}
