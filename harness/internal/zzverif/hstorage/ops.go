package hstorage

import (
	"strconv"

	"github.com/takenet/deckard/internal/queue/configuration"
	"github.com/takenet/deckard/internal/queue/message"
	"github.com/takenet/deckard/internal/queue/storage"
	"github.com/takenet/deckard/internal/zzverif/nd"
	"google.golang.org/protobuf/types/known/anypb"
)

func small(name string) float64 {
	x := nd.Float64(name)
	nd.Assume(nd.And(x >= -1e15, x <= 1e15))
	return x
}

// used stores one more message that has a delivery history.
func (w *world) used(queue, id string) *doc {
	w.order++
	tag := digit(w.order)
	d := &doc{queue: queue, id: id, order: w.order}
	d.prefix, d.suffix = message.GetQueueParts(queue)
	d.expT, d.exp = instant("exp" + tag)
	d.timeless = nd.Bool("timeless" + tag)
	d.score = validScore("score" + tag)
	d.payload = "p" + tag
	d.total, d.last = small("total"+tag), small("last"+tag)
	d.usage = nd.Int64("usage"+tag, 0, 1<<40)
	d.lockMs = nd.Int64("lock"+tag, 0, 1<<40)
	d.breakpoint = "b" + tag
	m := &message.Message{ID: id, Queue: queue, QueuePrefix: d.prefix, QueueSuffix: d.suffix, ExpiryDate: d.expT, Timeless: d.timeless,
		Score: d.score, StringPayload: d.payload, TotalScoreSubtract: d.total, LastScoreSubtract: d.last, UsageCount: d.usage,
		LockMs: d.lockMs, Breakpoint: d.breakpoint}
	switch nd.Choose("diagnostics"+tag, 3) {
	case 1:
		d.acks, d.cacks = nd.Int64("acks"+tag, 0, 1<<40), nd.Int64("cacks"+tag, 0, 1<<40)
		d.nacks, d.cnacks = nd.Int64("nacks"+tag, 0, 1<<40), nd.Int64("cnacks"+tag, 0, 1<<40)
		a, b, c, e := d.acks, d.nacks, d.cacks, d.cnacks
		m.Diagnostics = &message.MessageDiagnostics{Acks: &a, Nacks: &b, ConsecutiveAcks: &c, ConsecutiveNacks: &e}
	case 2:
		d.nacks = nd.Int64("nacks"+tag, 0, 1<<40)
		b := d.nacks
		m.Diagnostics = &message.MessageDiagnostics{Nacks: &b}
	}
	if w.put != nil {
		w.put(m)
	} else {
		ins, upd, err := w.s.Insert(w.ctx, m)
		nd.Assert(err == nil && ins == 1 && upd == 0, "a new message is inserted")
	}
	// the storage sets the last usage of a new message to the current time
	d.used, d.usedT = w.now, w.t
	w.ds = append(w.ds, d)
	return d
}

// ack acknowledges (negatively) queue/id with arbitrary values.
func (w *world) ack(queue, id string, neg bool, tag string) {
	t, ms := instant("use" + tag)
	m := &message.Message{ID: id, Queue: queue, LastUsage: &t, Score: validScore("newscore" + tag), LastScoreSubtract: small("sub" + tag),
		LockMs: nd.Int64("newlock"+tag, 0, 1<<40), Breakpoint: "nb" + tag}
	d := w.find(queue, id)
	var n int64
	var err error
	if neg {
		n, err = w.s.Nack(w.ctx, m)
	} else {
		n, err = w.s.Ack(w.ctx, m)
	}
	nd.Assert(err == nil, "an ack of any message works")
	if d == nil {
		nd.Assert(n == 0, "an ack of a message that is not stored changes nothing")
		return
	}
	nd.Assert(n == 1, "an ack of a stored message is reported")
	d.score, d.lockMs = m.Score, m.LockMs
	if neg {
		d.nacks, d.cnacks, d.cacks = d.nacks+1, d.cnacks+1, 0
		return
	}
	d.acks, d.cacks, d.cnacks = d.acks+1, d.cacks+1, 0
	d.total += m.LastScoreSubtract
	d.last, d.usage, d.breakpoint = m.LastScoreSubtract, d.usage+1, m.Breakpoint
	d.usedT, d.used = t, ms
}

// opAdd adds one message that is new or already there.
func (w *world) opAdd(queue, id, tag string) {
	d := w.find(queue, id)
	neu := &doc{queue: queue, id: id, payload: "n" + tag, score: validScore("ascore" + tag), timeless: nd.Bool("atimeless" + tag)}
	neu.prefix, neu.suffix = message.GetQueueParts(queue)
	neu.expT, neu.exp = instant("aexp" + tag)
	m := &message.Message{ID: id, Queue: queue, QueuePrefix: neu.prefix, QueueSuffix: neu.suffix, ExpiryDate: neu.expT, Timeless: neu.timeless,
		Score: neu.score, StringPayload: neu.payload}
	ins, upd, err := w.s.Insert(w.ctx, m)
	nd.Assert(err == nil, "adding works")
	if d == nil {
		nd.Assert(ins == 1 && upd == 0, "a new message is reported as inserted")
		w.order++
		neu.order, neu.used, neu.usedT = w.order, w.now, w.t
		w.ds = append(w.ds, neu)
		return
	}
	nd.Assert(ins == 0 && upd == 1, "a message added again is reported as updated")
	d.payload, d.expT, d.exp, d.timeless = neu.payload, neu.expT, neu.exp, neu.timeless
}

func (w *world) opRemove(queue string, ids []string) {
	var keep []*doc
	want := int64(0)
	for _, d := range w.ds {
		hit := false
		for _, id := range ids {
			hit = hit || (d.queue == queue && d.id == id)
		}
		if hit {
			want++
		} else {
			keep = append(keep, d)
		}
	}
	n, err := w.s.Remove(w.ctx, queue, ids...)
	nd.Assert(err == nil && n == want, "removal reports each removed message once")
	w.ds = keep
}

var idLists = [][]string{{"a"}, {"b", "a"}, {"a", "a"}, {"x"}, {}, {"x", "c", "b"}}

func (w *world) step(tag string) {
	w.tick()
	q := qs[nd.Choose("opq"+tag, 2)]
	switch nd.Choose("op"+tag, 5) {
	case 0:
		w.opAdd(q, []string{"a", "b", "z"}[nd.Choose("opid"+tag, 3)], tag)
	case 1:
		w.ack(q, []string{"a", "b", "z"}[nd.Choose("opid"+tag, 3)], false, tag)
	case 2:
		w.ack(q, []string{"a", "b", "z"}[nd.Choose("opid"+tag, 3)], true, tag)
	case 3:
		w.opRemove(q, idLists[nd.Choose("oplist"+tag, len(idLists))])
	case 4:
		n, err := w.s.Flush(w.ctx)
		nd.Assert(err == nil && n == int64(len(w.ds)), "a flush reports what it removed")
		w.ds = nil
	}
}

// two stored messages with arbitrary history, one ack or nack
func VH_P15_Step() {
	w := newWorld()
	w.tick()
	w.used(qs[nd.Choose("qa", 2)], "a")
	w.used("q::1", "b")
	w.tick()
	got := w.all()
	before := *w.ds[0]
	w.ack("q::1", []string{"a", "b", "z"}[nd.Choose("id", 3)], nd.Choose("neg", 2) == 1, "1")
	w.verify()
	// what was read before does not change
	w.same(&before, got[0])
	nd.Cover("end")
}

// several acks and nacks in a row
func VH_P15_Sequence() {
	w := newWorld()
	w.mapOrder(false)
	w.tick()
	w.used("q::1", "a")
	w.used("q::2", "a")
	before := *w.ds[0]
	got := w.all()
	n := 3
	if nd.Thorough() {
		n = 5
	}
	for i := 0; i < n; i++ {
		w.ack("q::1", "a", nd.Choose("neg", 2) == 1, digit(i))
		if i == 0 && nd.Choose("readd", 2) == 1 {
			w.opAdd("q::1", "a", "r")
		}
	}
	w.verify()
	w.same(&before, got[0])
}

// removal of any list from any content
func VH_P07_Storage() {
	w := newWorld()
	w.mapOrder(false)
	w.tick()
	n := nd.Choose("size", 4)
	for i := 0; i < n; i++ {
		q := qs[nd.Choose("queue", 2)]
		if i == 2 {
			nd.Assume(q != w.ds[0].queue)
		}
		w.used(q, string(rune('a'+i%2)))
	}
	w.mapOrder(true)
	w.opRemove(qs[nd.Choose("opq", 3)], idLists[nd.Choose("list", len(idLists))])
	w.mapOrder(false)
	w.verify()
	w.opAdd("q::1", "a", "r")
	w.verify()
	nd.Cover("end")
}

// one arbitrary operation keeps all messages that it does not name
func VH_P26_StorageStep() {
	w := newWorld()
	w.mapOrder(false)
	w.tick()
	w.used("q::1", "a")
	if nd.Choose("two", 2) == 1 {
		w.used("q::2", "a")
	}
	w.step("1")
	w.verify()
	if nd.Thorough() {
		w.step("2")
		w.verify()
	}
	nd.Cover("end")
}

// content of every kind comes back, and is replaced when the message is added again
func VH_P26_StorageContent() {
	w := newWorld()
	w.tick()
	mk := func(tag string) *message.Message {
		m := &message.Message{ID: "a", Queue: "q", QueuePrefix: "q", Timeless: true, Score: validScore("score" + tag)}
		m.Description = nd.Bytes("desc"+tag, nd.Choose("dl"+tag, 2))
		m.StringPayload = nd.Bytes("data"+tag, nd.Choose("sl"+tag, 2)*2)
		if nd.Choose("payload"+tag, 2) == 1 {
			m.Payload = map[string]*anypb.Any{"p": {TypeUrl: "t" + tag, Value: []byte(nd.Bytes("any"+tag, 1))}, "e": {}}
		}
		if nd.Choose("meta"+tag, 2) == 1 {
			m.Metadata = map[string]string{"k": nd.Bytes("meta"+tag, 1), "l": ""}
		}
		return m
	}
	m := mk("1")
	first := *m
	ins, upd, err := w.s.Insert(w.ctx, m)
	nd.Assert(err == nil && ins == 1 && upd == 0, "a message is inserted")
	w.tick()
	want := first
	again := nd.Choose("again", 2) == 1
	if again {
		m2 := mk("2")
		want = *m2
		want.Score = first.Score
		ins, upd, err = w.s.Insert(w.ctx, m2)
		// MongoDB does not count a message added again as it was
		nd.Assert(err == nil && ins == 0 && (upd == 1 || w.mongo && upd == 0), "a message is updated")
	}
	r, err := w.s.Find(w.ctx, &storage.FindOptions{InternalFilter: &storage.InternalFilter{Queue: "q"}})
	nd.Assert(err == nil && len(r) == 1, "the message is found")
	g := r[0]
	// MongoDB keeps what the message added again leaves empty
	kept := func(empty bool) bool { return w.mongo && again && empty }
	nd.Assert(kept(len(want.Description) == 0) || nd.StrEq(g.Description, want.Description), "description comes back")
	nd.Assert(kept(len(want.StringPayload) == 0) || nd.StrEq(g.StringPayload, want.StringPayload), "payload comes back")
	nd.Assert(g.Score == want.Score, "the score is not reset")
	nd.Assert(kept(want.Metadata == nil) || len(g.Metadata) == len(want.Metadata), "metadata comes back")
	for k, v := range want.Metadata {
		x, ok := g.Metadata[k]
		nd.Assert(ok && nd.StrEq(x, v), "metadata comes back")
	}
	nd.Assert(kept(want.Payload == nil) || len(g.Payload) == len(want.Payload), "the structured payload comes back")
	for k, v := range want.Payload {
		x, ok := g.Payload[k]
		nd.Assert(ok && x != nil && nd.StrEq(x.TypeUrl, v.TypeUrl) && nd.StrEq(string(x.Value), string(v.Value)), "the structured payload comes back")
	}
}

// a batch: invalid messages are refused, repeated ones update
func VH_P26_StorageBatch() {
	w := newWorld()
	w.mapOrder(false)
	w.tick()
	w.used("q::1", "a")
	mk := func(q, id, p string) *message.Message {
		pre, suf := message.GetQueueParts(q)
		return &message.Message{ID: id, Queue: q, QueuePrefix: pre, QueueSuffix: suf, StringPayload: p, Timeless: true, Score: 5}
	}
	n := 1 + nd.Choose("n", 3)
	var ms []*message.Message
	ids := []string{"a", "b", "c"}
	fresh := int64(0)
	seen := map[string]bool{"q::1/a": true}
	w.tick()
	for i := 0; i < n; i++ {
		q, id := qs[nd.Choose("q", 2)], ids[nd.Choose("id", 2)]
		p := "n" + digit(i)
		ms = append(ms, mk(q, id, p))
		if d := w.find(q, id); d != nil {
			d.payload, d.timeless = p, true
			d.expT, d.exp = ms[i].ExpiryDate, 0
		} else {
			w.order++
			d = &doc{queue: q, id: id, order: w.order, payload: p, timeless: true, score: 5, used: w.now, usedT: w.t}
			d.prefix, d.suffix = message.GetQueueParts(q)
			w.ds = append(w.ds, d)
		}
		if !seen[q+"/"+id] {
			seen[q+"/"+id] = true
			fresh++
		}
	}
	ins, upd, err := w.s.Insert(w.ctx, ms...)
	nd.Assert(err == nil && ins == fresh && upd == int64(n)-fresh, "insertions and updates are counted")
	w.verify()
	bad := mk("q::1", "z", "")
	if nd.Choose("badq", 2) == 1 {
		bad.Queue = ""
	} else {
		bad.ID = ""
	}
	_, _, err = w.s.Insert(w.ctx, bad)
	nd.Assert(err != nil, "a message without queue or identifier is refused")
	w.verify()
}

// queues and identifiers with arbitrary names never share a document
func VH_P08_Storage() {
	w := newWorld()
	w.mapOrder(false)
	w.tick()
	l := 3
	name := func(tag string, max int) string { return nd.Bytes(tag, 1+nd.Choose(tag+"len", max)) }
	qa, qb := name("qa", l), name("qb", l)
	ia, ib := name("ia", 2), name("ib", 2)
	nd.Assume(!nd.And(nd.StrEq(qa, qb), nd.StrEq(ia, ib)))
	mk := func(q, id, p string) *message.Message {
		pre, suf := message.GetQueueParts(q)
		return &message.Message{ID: id, Queue: q, QueuePrefix: pre, QueueSuffix: suf, StringPayload: p, Timeless: true, Score: 5}
	}
	now := w.t
	ins, _, err := w.s.Insert(w.ctx, mk(qa, ia, "1"))
	nd.Assert(err == nil && ins == 1, "a message is inserted")
	ins, _, err = w.s.Insert(w.ctx, mk(qb, ib, "2"))
	nd.Assert(err == nil && ins == 1, "a message of another queue or identifier is a new one")
	both := func(a, b bool, acks int64) {
		for _, x := range []struct {
			q, id, p string
			in       bool
			acks     int64
		}{{qa, ia, "1", a, 0}, {qb, ib, "2", b, acks}} {
			r, err := w.s.Find(w.ctx, &storage.FindOptions{InternalFilter: &storage.InternalFilter{Queue: x.q, Ids: &[]string{x.id}}})
			nd.Assert(err == nil && int64(len(r)) == nd.B2I(x.in), "a read of one message returns that message")
			if len(r) != 1 {
				continue
			}
			nd.Assert(nd.StrEq(r[0].Queue, x.q) && nd.StrEq(r[0].ID, x.id) && r[0].StringPayload == x.p, "messages are kept apart")
			n := int64(0)
			if r[0].Diagnostics != nil {
				n = *r[0].Diagnostics.Acks
			}
			nd.Assert(n == x.acks, "an ack touches its message only")
		}
	}
	both(true, true, 0)
	switch nd.Choose("op", 3) {
	case 0:
		n, err := w.s.Remove(w.ctx, qb, ib)
		nd.Assert(err == nil && n == 1, "one message is removed")
		both(true, false, 0)
	case 1:
		n, err := w.s.Ack(w.ctx, &message.Message{Queue: qb, ID: ib, LastUsage: &now})
		nd.Assert(err == nil && n == 1, "one message is acknowledged")
		both(true, true, 1)
	case 2:
		nd.Assume(!nd.Or(nd.StrEq(ia, "zz"), nd.StrEq(ib, "zz")))
		n, err := w.s.Remove(w.ctx, qa, ib, "zz")
		nd.Assert(err == nil, "removal works")
		if nd.StrEq(ia, ib) {
			nd.Assert(n == 1, "one message is removed")
			both(false, true, 0)
		} else if !nd.StrEq(qa, qb) {
			nd.Assert(n == 0, "nothing is removed from another queue")
			both(true, true, 0)
		}
	}
}

// configurations of queues with arbitrary limits, any short history
func VH_P16_Storage() {
	w := newWorld()
	n := 2
	if nd.Thorough() {
		n = 3
	}
	names := []string{"q", "q::1"}
	limit := map[string]int64{}
	set := map[string]bool{}
	for i := 0; i < n; i++ {
		q := names[nd.Choose("q", 2)]
		m := nd.Int64("max"+strconv.Itoa(i), -1<<62, 1<<62)
		err := w.s.EditQueueConfiguration(w.ctx, &configuration.QueueConfiguration{Queue: q, MaxElements: m})
		nd.Assert(err == nil, "an edit works")
		if m != 0 {
			set[q] = true
			limit[q] = nd.IteInt(m > 0, m, 0)
		}
	}
	for _, q := range names {
		c, err := w.s.GetQueueConfiguration(w.ctx, q)
		nd.Assert(err == nil, "a configuration can be read")
		if c == nil {
			nd.Assert(!set[q], "an edited configuration is found")
			continue
		}
		nd.Assert(c.Queue == q && c.MaxElements == limit[q], "the configuration has the value edited last")
	}
	l, err := w.s.ListQueueConfigurations(w.ctx)
	nd.Assert(err == nil, "configurations can be listed")
	k := 0
	for _, q := range names {
		if !set[q] {
			continue
		}
		k++
		hit := false
		for _, c := range l {
			if c.Queue == q {
				nd.Assert(!hit && c.MaxElements == limit[q], "the list has the value edited last")
				hit = true
			}
		}
		nd.Assert(hit, "every edited configuration is listed")
	}
	nd.Assert(len(l) == k, "only edited configurations are listed")
	nd.Cover("end")
}
