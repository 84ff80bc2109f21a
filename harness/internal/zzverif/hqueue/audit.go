package hqueue

import (
	"context"

	"github.com/takenet/deckard"
	"github.com/takenet/deckard/internal/audit"
	"github.com/takenet/deckard/internal/queue"
	"github.com/takenet/deckard/internal/queue/cache"
	"github.com/takenet/deckard/internal/queue/message"
	"github.com/takenet/deckard/internal/queue/storage"
	"github.com/takenet/deckard/internal/zzverif/hcache"
	"github.com/takenet/deckard/internal/zzverif/nd"
)

// entry returns the only audit entry of a message and signal, nil if there is none.
func (w *world) entry(sig audit.Signal, q, id string) *audit.Entry {
	nd.Assert(w.audited(sig, q, id) <= 1, "nothing is audited twice")
	for i := range w.a.es {
		if e := &w.a.es[i]; e.Signal == sig && e.Queue == q && e.ID == id {
			return e
		}
	}
	return nil
}

// an answer, with or without removal, to a message in any state, with a failure anywhere
func VH_P19_Answer() {
	w := newWorld()
	nd.MapOrder(false)
	w.Tick()
	q := []string{"q", "q::2"}[nd.Choose("queue", 2)]
	w.store(q, "a")
	st := nd.Choose("state", 5)
	if st < 4 {
		w.Add(q, "a", states[st])
	}
	w.Tick()
	r := &deckard.AckRequest{Id: "a", Queue: q, LockMs: nd.Int64("acklock", -century, century), RemoveMessage: nd.Choose("remove", 2) == 1}
	r.Reason = []string{"", "why"}[nd.Choose("reason", 2)]
	r.Breakpoint = []string{"", "bp"}[nd.Choose("bp", 2)]
	neg := nd.Choose("neg", 2) == 1
	sig := audit.ACK
	if neg {
		sig = audit.NACK
	}
	w.f.on, w.f.budget = true, 1
	svc := w.service()
	var err error
	if neg {
		_, err = svc.Nack(w.Ctx, r)
	} else {
		_, err = svc.Ack(w.Ctx, r)
	}
	w.f.on = false
	nd.Cover("end")
	failed := ""
	if len(w.f.failed) > 0 {
		failed = w.f.failed[0]
		nd.Assert(err != nil, "a failure is reported")
	} else {
		nd.Assert(err == nil, "an answer is accepted")
	}
	for _, e := range w.a.es {
		nd.Assert(e.Queue == q && e.ID == "a" && (e.Signal == sig || r.RemoveMessage && e.Signal == audit.REMOVE), "an answer audits its own message only")
	}
	e := w.entry(sig, q, "a")
	switch failed {
	case "storage.Ack", "storage.Nack", "cache.LockMessage", "cache.MakeAvailable":
		nd.Assert(e == nil, "a failed answer is not audited")
	default:
		if st < 4 && states[st] == hcache.Processing {
			nd.Assert(e != nil, "an effective answer is audited")
		}
	}
	if e != nil {
		nd.Assert(e.Reason == r.Reason, "the audit entry names the reason")
		nd.Assert(e.Breakpoint == r.Breakpoint, "the audit entry names the breakpoint")
		nd.Assert(nd.Implies(r.LockMs > 0, e.LockMs == r.LockMs), "the audit entry names the lock time")
		nd.Assert(nd.Implies(r.LockMs <= 0, e.LockMs == 0), "no lock, no lock time")
	}
	m := w.entry(audit.REMOVE, q, "a")
	nd.Assert((m != nil) == (r.RemoveMessage && failed == ""), "a removal with the answer is audited when it works")
}

// an addition with a failure anywhere
func VH_P19_Add() {
	w := newWorld()
	nd.MapOrder(false)
	w.Tick()
	if k := nd.Choose("before", 6); k > 0 {
		w.store("q", "a")
		if k > 1 {
			w.Add("q", "a", states[k-2])
		}
	}
	w.Tick()
	r := &deckard.AddRequest{}
	n := 1 + nd.Choose("n", 3)
	for i := 0; i < n; i++ {
		r.Messages = append(r.Messages, &deckard.AddMessage{Id: names[i], Queue: []string{"q", "q::2", "r"}[nd.Choose("queue", 3)], Timeless: true})
	}
	in := map[int]bool{}
	for i, m := range r.Messages {
		in[i] = w.Find(m.Queue, m.Id) != nil
	}
	nd.MapOrder(true)
	w.f.on, w.f.budget = true, 1
	svc := w.service()
	done := map[string]bool{}
	w.c.on = func(op, q string) { done[q] = done[q] || op == "cache.Insert" }
	_, err := svc.Add(w.Ctx, r)
	w.f.on = false
	nd.MapOrder(false)
	nd.Assert((err != nil) == (len(w.f.failed) > 0), "a failure is reported")
	total := 0
	for i, m := range r.Messages {
		e := w.entry(audit.INSERT_CACHE, m.Queue, m.Id)
		ok := done[m.Queue]
		for j, op := range w.f.failed {
			ok = ok && !(op == "cache.Insert" && w.f.queues[j] == m.Queue)
		}
		nd.Assert((e != nil) == (ok && !in[i]), "exactly the messages that enter the cache are audited")
		if e != nil {
			total++
			nd.Assert(e.Reason == "", "an addition has no reason")
		}
	}
	nd.Assert(len(w.a.es) == total, "nothing else is audited")
}

// a pass that returns messages to their queue
func VH_P19_Return() {
	w := newWorld()
	w.mapOrder(false)
	w.Tick()
	n := 2
	if nd.Thorough() {
		n = 3
	}
	k := nd.Choose("size", n+1)
	for i := 0; i < k; i++ {
		w.Add([]string{"q", "q::2"}[nd.Choose("queue", 2)], names[i], []int{hcache.Processing, hcache.LockedAck, hcache.LockedNack}[nd.Choose("state", 3)])
	}
	w.Tick()
	what := nd.Choose("pass", 2)
	if what == 0 {
		nd.Assert(queue.ProcessTimeoutMessages(w.Ctx, w.q) == nil, "a pass without failure succeeds")
	} else {
		queue.ProcessLockPool(w.Ctx, w.q)
	}
	total := 0
	for _, e := range w.Es {
		t, u := w.entry(audit.TIMEOUT, e.Queue, e.ID), w.entry(audit.UNLOCK, e.Queue, e.ID)
		due := e.Until <= w.Now
		if what == 0 && e.State == hcache.Processing {
			nd.Assert(u == nil && nd.Iff(due, t != nil), "exactly the messages whose deadline passed are audited")
			if t != nil {
				total++
			}
			continue
		}
		if what == 1 && e.State != hcache.Processing {
			nd.Assert(t == nil && nd.Iff(due, u != nil), "exactly the messages whose lock ended are audited")
			if u != nil {
				total++
				want := string(cache.LOCK_ACK)
				if e.State == hcache.LockedNack {
					want = string(cache.LOCK_NACK)
				}
				nd.Assert(u.Reason == want, "the audit entry names the kind of lock")
			}
			continue
		}
		nd.Assert(t == nil && u == nil, "a message that is not returned is not audited")
	}
	nd.Assert(len(w.a.es) == total, "nothing else is audited")
}

// a removal of arbitrary messages with a failure anywhere
func VH_P19_Remove() {
	w := newWorld()
	nd.MapOrder(false)
	w.Tick()
	w.store("q", "a")
	w.store("q::2", "b")
	if st := nd.Choose("state", 5); st < 4 {
		w.Add("q", "a", states[st])
	}
	w.Tick()
	// other messages of the request may not exist
	ids := [][]string{{}, {"a"}, {"b"}, {"a", "b"}, {"b", "a", "c"}}[nd.Choose("ids", 5)]
	q := []string{"q", "q::2"}[nd.Choose("queue", 2)]
	reason := []string{"", "why"}[nd.Choose("reason", 2)]
	w.f.on, w.f.budget = true, 1
	_, _, err := w.q.Remove(w.Ctx, q, reason, ids...)
	w.f.on = false
	failed := len(w.f.failed) > 0
	nd.Assert((err != nil) == failed, "a failure is reported")
	for _, e := range w.a.es {
		nd.Assert(e.Signal == audit.REMOVE && e.Queue == q && e.Reason == reason && index(ids, e.ID) >= 0, "a removal audits the messages named, with the reason given")
		w.entry(audit.REMOVE, q, e.ID)
	}
	if failed {
		nd.Assert(len(w.a.es) == 0, "a failed removal is not audited")
		return
	}
	for _, d := range w.ds {
		if d.queue == q && index(ids, d.id) >= 0 {
			nd.Assert(w.entry(audit.REMOVE, q, d.id) != nil, "a removed message is audited")
		}
	}
}

// the removals of the housekeeper
func VH_P19_Housekeeper() {
	w := newWorld()
	w.mapOrder(false)
	w.Tick()
	n := 2
	if nd.Thorough() {
		n = 3
	}
	w.mixed(n, hcache.LockedNack, hcache.Absent, hcache.Available)
	w.Tick()
	w.mapOrder(true)
	w.f.on, w.f.budget = true, 1
	_, err := queue.RemoveTTLMessages(w.Ctx, w.q, &w.T)
	w.f.on = false
	w.mapOrder(false)
	nd.Assert((err != nil) == (len(w.f.failed) > 0), "a failure is reported")
	gone := w.gone()
	bad := map[string]bool{}
	for i := range w.f.failed {
		bad[w.f.queues[i]] = true
	}
	total := 0
	for _, d := range gone {
		e := w.entry(audit.REMOVE, d.queue, d.id)
		nd.Assert((e != nil) == !bad[d.queue], "exactly successful removals are audited")
		if e != nil {
			total++
			nd.Assert(e.Reason == "TTL", "the audit entry names the reason")
		}
	}
	nd.Assert(len(w.a.es) == total, "nothing else is audited")
}

// recovery
func VH_P19_Recovery() {
	w := lostCache(3, hcache.Processing, hcache.LockedAck, hcache.Absent, hcache.Available)
	w.Tick()
	w.mapOrder(true)
	w.f.on, w.f.budget = true, 1
	for i := 0; i < 3; i++ {
		try(func() { queue.RecoveryMessagesPool(w.Ctx, w.q) })
	}
	w.f.on = false
	w.mapOrder(false)
	unsureInsert := map[string]bool{}
	for i, op := range w.f.failed {
		if op == "cache.Insert" && w.f.how[i] == unsure {
			unsureInsert[w.f.queues[i]] = true
		}
	}
	total := 0
	for _, d := range w.ds {
		e := w.entry(audit.INSERT_CACHE, d.queue, d.id)
		in := w.Find(d.queue, d.id) != nil
		if unsureInsert[d.queue] {
			nd.Assert(e == nil, "a failed addition is not audited")
		} else {
			nd.Assert((e != nil) == !in, "exactly the messages that enter the cache are audited")
		}
		if e != nil {
			total++
			nd.Assert(e.Reason == "recovery", "the audit entry names the reason")
		}
	}
	nd.Assert(len(w.a.es) == total, "nothing else is audited")
}

// a pull of messages that are not stored
func VH_P19_Pull() {
	w := newWorld()
	nd.MapOrder(false)
	w.Tick()
	q := []string{"q", "q::2"}[nd.Choose("queue", 2)]
	k := nd.Choose("size", 4)
	behind := map[string]bool{}
	for i := 0; i < k; i++ {
		x := nd.Choose("there", 3)
		if x != missing {
			w.store(q, names[i])
		}
		behind[names[i]] = x == late
		w.Add(q, names[i], hcache.Available)
	}
	w.s.sees = func(m *message.Message, o *storage.FindOptions) bool {
		return !behind[m.ID] || o != nil && o.Retry
	}
	w.Tick()
	n := int64(1 + nd.Choose("n", 3))
	w.f.on, w.f.budget = true, 1
	got, err := w.q.Pull(context.Background(), q, n, nil, nil, 1000)
	w.f.on = false
	w.s.sees = nil
	gone := 0
	for i := 0; i < k; i++ {
		id := names[i]
		e := w.entry(audit.MISSING_STORAGE, q, id)
		if w.doc(q, id) != nil {
			nd.Assert(e == nil, "a stored message is not audited as missing")
		}
		if e != nil {
			gone++
		}
	}
	nd.Assert(len(w.a.es) == gone, "nothing else is audited")
	if err != nil {
		nd.Assert(len(w.f.failed) > 0 && gone == 0, "a failed pull audits nothing")
		return
	}
	out := 0
	if got != nil {
		out = len(*got)
	}
	want := int(n)
	if k < want {
		want = k
	}
	nd.Assert(out+gone == want, "every message taken and not delivered is audited")
}
