package hqueue

import (
	"context"
	"strings"

	"github.com/takenet/deckard"
	"github.com/takenet/deckard/internal/queue"
	"github.com/takenet/deckard/internal/queue/configuration"
	"github.com/takenet/deckard/internal/queue/message"
	"github.com/takenet/deckard/internal/queue/storage"
	"github.com/takenet/deckard/internal/zzverif/hcache"
	"github.com/takenet/deckard/internal/zzverif/nd"
	"go.opentelemetry.io/otel/metric"
)

// counters is what a reader of the metrics sees of the counters: their value by name and labels.
type counters map[string]int64

// series names a counter and its labels, given in any order.
func series(name string, labels ...string) string {
	for i := 0; i+3 < len(labels); i += 2 {
		for j := i + 2; j+1 < len(labels); j += 2 {
			if labels[j] < labels[i] {
				labels[i], labels[i+1], labels[j], labels[j+1] = labels[j], labels[j+1], labels[i], labels[i+1]
			}
		}
	}
	return name + "{" + strings.Join(labels, ",") + "}"
}

// counted starts with counters at zero.
func counted() counters {
	c := counters{}
	metric.Recorder = func(name string, n int64, opts []metric.AddOption) {
		nd.Assert(n >= 0, "counters never go down")
		var labels []string
		for _, o := range opts {
			m, ok := o.(metric.MeasurementOption)
			if !ok {
				continue
			}
			for i := 0; i < m.Set.Len(); i++ {
				kv, _ := m.Set.Get(i)
				labels = append(labels, string(kv.Key), kv.Value.AsString())
			}
		}
		c[series(name, labels...)] += n
	}
	return c
}

// exactly checks that nothing but what is wanted was counted.
func (c counters) exactly(want counters) {
	for s := range want {
		nd.Assert(c[s] == want[s], "every event is counted once, where it happened")
	}
	for s := range c {
		if _, ok := want[s]; !ok {
			nd.Assert(c[s] == 0, "nothing is counted that did not happen")
		}
	}
}

// atMost is exactly for operations that fail: they may have had effects that are not counted.
func (c counters) atMost(want counters) {
	for s := range c {
		nd.Assert(c[s] <= want[s], "nothing is counted that did not happen")
	}
}

func (w *world) prefix(q string) string {
	p, _, _ := strings.Cut(q, "::")
	return p
}

// answers, with or without removal, with a failure anywhere
func VH_P30_Answer() {
	w := newWorld()
	nd.MapOrder(false)
	w.Tick()
	q := []string{"q", "q::2"}[nd.Choose("queue", 2)]
	w.store(q, "a")
	st := nd.Choose("state", 5)
	if st < 4 {
		w.Add(q, "a", states[st])
	}
	w.Tick()
	r := &deckard.AckRequest{Id: "a", Queue: q, LockMs: nd.Int64("acklock", -century, century), RemoveMessage: nd.Choose("remove", 2) == 1}
	r.Reason = []string{"", "why"}[nd.Choose("reason", 2)]
	if nd.Choose("valid", 2) == 1 {
		r.Id = ""
	}
	neg := nd.Choose("neg", 2) == 1
	c := counted()
	w.f.on, w.f.budget = true, 1
	svc := w.service()
	var err error
	name := "deckard_ack"
	if neg {
		name = "deckard_nack"
		_, err = svc.Nack(w.Ctx, r)
	} else {
		_, err = svc.Ack(w.Ctx, r)
	}
	w.f.on = false
	want := counters{series(name, "queue", "q", "reason", r.Reason): 1}
	nd.Cover("end")
	switch {
	case r.Id == "":
		c.exactly(counters{})
	case err == nil:
		c.exactly(want)
	case w.f.failed[0] == "storage.Ack", w.f.failed[0] == "storage.Nack":
		c.exactly(counters{})
	default:
		c.atMost(want)
	}
}

// passes that return messages to their queue, with a failure anywhere
func VH_P30_Return() {
	w := newWorld()
	w.mapOrder(false)
	w.Tick()
	n := 2
	if nd.Thorough() {
		n = 3
	}
	k := nd.Choose("size", n+1)
	for i := 0; i < k; i++ {
		w.Add([]string{"q", "q::2", "r"}[nd.Choose("queue", 3)], names[i], []int{hcache.Processing, hcache.LockedAck, hcache.LockedNack}[nd.Choose("state", 3)])
	}
	w.Tick()
	due := counters{}
	pass := nd.Choose("pass", 2)
	for _, e := range w.Es {
		switch {
		case pass == 0 && e.State == hcache.Processing:
			due[series("deckard_message_timeout", "queue", w.prefix(e.Queue))] += nd.B2I(e.Until <= w.Now)
		case pass == 1 && e.State == hcache.LockedAck:
			due[series("deckard_message_unlock", "queue", w.prefix(e.Queue), "lock_type", "lock_ack")] += nd.B2I(e.Until <= w.Now)
		case pass == 1 && e.State == hcache.LockedNack:
			due[series("deckard_message_unlock", "queue", w.prefix(e.Queue), "lock_type", "lock_nack")] += nd.B2I(e.Until <= w.Now)
		}
	}
	c := counted()
	w.f.on, w.f.budget = true, 1
	run := func() {
		if pass == 0 {
			_ = queue.ProcessTimeoutMessages(w.Ctx, w.q)
		} else {
			queue.ProcessLockPool(w.Ctx, w.q)
		}
	}
	run()
	w.f.on = false
	nd.Cover("end")
	if len(w.f.failed) == 0 {
		c.exactly(due)
		run()
		c.exactly(due)
		return
	}
	c.atMost(due)
	if w.f.how[0] == lost {
		run()
		c.exactly(due)
	}
}

// pulls of messages that are stored or not, with a failure anywhere
func VH_P30_Pull() {
	w := newWorld()
	nd.MapOrder(false)
	w.Tick()
	q := []string{"q", "q::2"}[nd.Choose("queue", 2)]
	k := nd.Choose("size", 4)
	behind := map[string]bool{}
	for i := 0; i < k; i++ {
		x := nd.Choose("there", 3)
		if x != missing {
			w.store(q, names[i])
		}
		behind[names[i]] = x == late
		w.Add(q, names[i], hcache.Available)
	}
	w.s.sees = func(m *message.Message, o *storage.FindOptions) bool {
		return !behind[m.ID] || o != nil && o.Retry
	}
	w.Tick()
	n := int64(1 + nd.Choose("n", 3))
	c := counted()
	w.f.on, w.f.budget = true, 1
	got, err := w.q.Pull(context.Background(), q, n, nil, nil, 1000)
	w.f.on = false
	w.s.sees = nil
	nd.Cover("end")
	if err != nil {
		c.exactly(counters{})
		return
	}
	out, took := int64(0), n
	if int64(k) < n {
		took = int64(k)
	}
	if got != nil {
		out = int64(len(*got))
	}
	want := counters{}
	switch {
	case k == 0:
		want[series("deckard_messages_empty_queue", "queue", "q")] = 1
	case out == 0:
		want[series("deckard_messages_empty_queue_not_found_storage", "queue", "q")] = 1
	}
	if took > out {
		want[series("deckard_messages_not_found_in_storage", "queue", "q")] = took - out
	}
	c.exactly(want)
}

// removals of the housekeeper, with a failure anywhere
func VH_P30_Removed() {
	w := newWorld()
	w.mapOrder(false)
	w.Tick()
	limit := nd.Choose("what", 2) == 1
	n := 2
	if nd.Thorough() {
		n = 3
	}
	k := 1 + nd.Choose("size", n)
	for i := 0; i < k; i++ {
		q := []string{"q::2", "r"}[nd.Choose("queue", 2)]
		if limit {
			w.store(q, names[i])
		} else {
			w.storeExp(q, names[i])
		}
		if nd.Choose("cached", 2) == 1 {
			w.Add(q, names[i], hcache.LockedNack)
		}
	}
	if limit {
		nd.Assert(w.cfg.EditQueueConfiguration(w.Ctx, &configuration.QueueConfiguration{Queue: "q::2", MaxElements: 1}) == nil, "setup: limit")
		nd.Assert(w.cfg.EditQueueConfiguration(w.Ctx, &configuration.QueueConfiguration{Queue: "r", MaxElements: 1}) == nil, "setup: limit")
	}
	w.Tick()
	c := counted()
	w.mapOrder(true)
	w.f.on, w.f.budget = true, 1
	stored, cached := "deckard_ttl_messages_removed", "deckard_ttl_messages_cache_removed"
	if limit {
		stored, cached = "deckard_exceeding_messages_removed", "deckard_exceeding_messages_cache_removed"
		_, _ = queue.RemoveExceedingMessages(w.Ctx, w.q)
	} else {
		_, _ = queue.RemoveTTLMessages(w.Ctx, w.q, &w.T)
	}
	w.f.on = false
	w.mapOrder(false)
	nd.Cover("end")
	want := counters{}
	bad := map[string]bool{}
	for i := range w.f.failed {
		bad[w.f.queues[i]] = true
	}
	in := map[*doc]bool{}
	for _, d := range w.ds {
		in[d] = w.Find(d.queue, d.id) != nil
	}
	for _, d := range w.gone() {
		if bad[d.queue] {
			continue
		}
		p := w.prefix(d.queue)
		want[series(stored, "queue", p)]++
		if in[d] {
			want[series(cached, "queue", p)]++
		}
	}
	c.exactly(want)
}
