package hqueue

import (
	"github.com/takenet/deckard"
	"github.com/takenet/deckard/internal/audit"
	"github.com/takenet/deckard/internal/queue/message"
	"github.com/takenet/deckard/internal/queue/storage"
	"github.com/takenet/deckard/internal/zzverif/hcache"
	"github.com/takenet/deckard/internal/zzverif/nd"
	"google.golang.org/protobuf/types/known/anypb"
)

// batch is an arbitrary request to add up to n messages of two queues.
func batch(n int) *deckard.AddRequest {
	r := &deckard.AddRequest{}
	for i := 0; i < n; i++ {
		m := &deckard.AddMessage{Id: names[nd.Choose("id", 2)], Queue: []string{"q", "q::2"}[nd.Choose("queue", 2)], Timeless: true,
			Score: validScore("new." + digit(i)), StringPayload: "n" + digit(i)}
		nd.Assume(m.Score != 0)
		r.Messages = append(r.Messages, m)
	}
	return r
}

// added moves the model the way a successful add does, and says what the response counts.
func (w *world) added(r *deckard.AddRequest) (created, updated int64, fresh []*hcache.Entry) {
	for _, m := range r.Messages {
		if d := w.doc(m.Queue, m.Id); d != nil {
			updated++
			d.payload = m.StringPayload
		} else {
			created++
			w.ds = append(w.ds, &doc{queue: m.Queue, id: m.Id, score: m.Score, payload: m.StringPayload, timeless: true})
		}
	}
	for _, m := range r.Messages {
		e := w.Find(m.Queue, m.Id)
		if e == nil {
			e = &hcache.Entry{Queue: m.Queue, ID: m.Id, State: hcache.Available, Score: m.Score}
			w.Es = append(w.Es, e)
			fresh = append(fresh, e)
			continue
		}
		for _, f := range fresh { // repeated in the request: the last one counts
			if f == e {
				e.Score = m.Score
			}
		}
	}
	return
}

// a request to add, from any state, with at most one failure, and its repetition
func VH_P12_Add() {
	w := newWorld()
	nd.MapOrder(false)
	w.Tick()
	switch nd.Choose("before", 4) {
	case 1: // stored only, for example after an add that failed half way
		w.store("q", "a")
	case 2:
		w.store("q", "a")
		w.Add("q", "a", hcache.Available)
	case 3:
		w.store("q", "a")
		w.Add("q", "a", []int{hcache.Processing, hcache.LockedAck, hcache.LockedNack}[nd.Choose("held", 3)])
	}
	w.Tick()
	n := 2
	if nd.Thorough() {
		n = 3
	}
	r := batch(1 + nd.Choose("n", n))
	// either failures or every order in which the request is grouped
	faulty := nd.Choose("failures", 2) == 1
	nd.MapOrder(!faulty)
	svc := w.service()
	// nothing is offered for delivery before it is stored
	w.c.on = func(op, q string) {
		if op != "cache.Insert" {
			return
		}
		nd.MapOrder(false)
		for _, m := range r.Messages {
			if m.Queue != q {
				continue
			}
			x, err := w.mem.Find(w.Ctx, &storage.FindOptions{InternalFilter: &storage.InternalFilter{Queue: m.Queue, Ids: &[]string{m.Id}}})
			nd.Assert(err == nil && len(x) == 1, "a message is stored before it enters the cache")
		}
		nd.MapOrder(!faulty)
	}
	w.f.on, w.f.budget = faulty, 1
	resp, err := svc.Add(w.Ctx, r)
	w.f.on = false
	nd.MapOrder(false)
	failed := len(w.f.failed) > 0
	nd.Cover("end")
	if failed {
		nd.Assert(err != nil, "a failed add reports an error")
		w.Tick()
		resp, err = svc.Add(w.Ctx, r)
		nd.Assert(err == nil, "a failed add can be repeated")
		nd.Assert(resp.CreatedCount+resp.UpdatedCount == int64(len(r.Messages)), "every message is counted")
		w.added(r)
		w.verifyAll("q", "q::2")
		return
	}
	nd.Assert(err == nil, "an add without failure succeeds")
	created, updated, fresh := w.added(r)
	nd.Assert(resp.CreatedCount == created && resp.UpdatedCount == updated, "created and updated messages are counted")
	for _, e := range fresh {
		k := w.audited(audit.INSERT_CACHE, e.Queue, e.ID)
		nd.Assert(k >= 1, "an added message is audited")
	}
	for _, e := range w.a.es {
		nd.Assert(e.Signal == audit.INSERT_CACHE, "adding audits additions only")
		hit := false
		for _, f := range fresh {
			hit = hit || f.Queue == e.Queue && f.ID == e.ID
		}
		nd.Assert(hit, "only added messages are audited")
	}
	w.verifyAll("q", "q::2")
}

// crashes of the process while adding
func VH_P12_Crash() {
	w := newWorld()
	nd.MapOrder(false)
	w.Tick()
	if nd.Choose("before", 2) == 1 {
		w.store("q", "a")
	}
	r := batch(1 + nd.Choose("n", 2))
	w.f.on, w.f.budget, w.f.crash = true, 1, true
	svc := w.service()
	var err error
	dead := try(func() { _, err = svc.Add(w.Ctx, r) })
	w.f.on = false
	if dead || err != nil {
		// what is in the cache is stored
		for _, m := range r.Messages {
			got, e := w.C.PullMessages(w.Ctx, m.Queue, 10, nil, nil, 1)
			nd.Assert(e == nil, "the cache can be read")
			for _, id := range got {
				s, e := w.mem.Find(w.Ctx, &storage.FindOptions{InternalFilter: &storage.InternalFilter{Queue: m.Queue, Ids: &[]string{id}}})
				nd.Assert(e == nil && len(s) == 1, "no message is offered that is not stored")
				e2 := &hcache.Entry{Queue: m.Queue, ID: id, State: hcache.Processing, Until: w.Now + 1}
				w.Es = append(w.Es, e2)
			}
		}
		_, err = svc.Add(w.Ctx, r)
	}
	nd.Assert(err == nil, "an interrupted add can be repeated")
	w.added(r)
	w.verifyAll("q", "q::2")
}

// content of every kind comes back in pull and lookup
func VH_P26_RoundTrip() {
	w := newWorld()
	w.Tick()
	svc := w.service()
	any := func(n byte) *anypb.Any { return &anypb.Any{TypeUrl: "t", Value: []byte{n}} }
	mk := func(tag string) *deckard.AddMessage {
		m := &deckard.AddMessage{Id: "id", Queue: []string{"q", "a::b::c"}[nd.Choose("queue"+tag, 2)], Timeless: true, Score: validScore("new." + tag)}
		nd.Assume(m.Score > 0)
		m.Description = nd.Bytes("desc"+tag, nd.Choose("dl"+tag, 2))
		m.StringPayload = nd.Bytes("data"+tag, nd.Choose("pl"+tag, 3))
		if nd.Choose("meta"+tag, 2) == 1 {
			m.Metadata = map[string]string{"k": nd.Bytes("meta"+tag, 1), "l": ""}
			m.Payload = map[string]*anypb.Any{"x": any(1)}
		}
		return m
	}
	m := mk("1")
	want := m
	_, err := svc.Add(w.Ctx, &deckard.AddRequest{Messages: []*deckard.AddMessage{m}})
	nd.Assert(err == nil, "a message is added")
	score := m.Score
	if nd.Choose("again", 2) == 1 {
		w.Tick()
		m2 := mk("2")
		m2.Queue = m.Queue
		_, err := svc.Add(w.Ctx, &deckard.AddRequest{Messages: []*deckard.AddMessage{m2}})
		nd.Assert(err == nil, "a message is added again")
		want = m2
	}
	w.Tick()
	check := func(g *deckard.Message) {
		nd.Assert(g.Id == "id" && g.Queue == m.Queue, "identity comes back")
		nd.Assert(nd.StrEq(g.StringPayload, want.StringPayload), "payload comes back")
		nd.Assert(g.Score == score, "the score is the one given first")
		nd.Assert(len(g.Metadata) == len(want.Metadata) && len(g.Payload) == len(want.Payload), "metadata comes back")
		for k, v := range want.Metadata {
			x, ok := g.Metadata[k]
			nd.Assert(ok && nd.StrEq(x, v), "metadata comes back")
		}
		for k, v := range want.Payload {
			x := g.Payload[k]
			nd.Assert(x != nil && x.TypeUrl == v.TypeUrl && len(x.Value) == len(v.Value) && x.Value[0] == v.Value[0], "payload data comes back")
		}
	}
	p, err := svc.Pull(w.Ctx, &deckard.PullRequest{Queue: m.Queue, Amount: 5})
	nd.Assert(err == nil && len(p.Messages) == 1, "the message is pulled")
	check(p.Messages[0])
	d := p.Messages[0].Diagnostics
	nd.Assert(d != nil && d.Acks == 0 && d.Nacks == 0 && d.ConsecutiveAcks == 0 && d.ConsecutiveNacks == 0, "a new message has no history")
	if len(want.Payload) == 0 { // looking up renders payload data as text
		g, err := svc.GetById(w.Ctx, &deckard.GetByIdRequest{Queue: m.Queue, Id: "id"})
		nd.Assert(err == nil && g.Found, "the message is found")
		check(g.Message)
		nd.Assert(nd.StrEq(g.Message.Description, want.Description), "the description comes back")
	}
	c, err := svc.Count(w.Ctx, &deckard.CountRequest{Queue: m.Queue})
	nd.Assert(err == nil && c.Count == 1, "counting agrees")
}

// diagnostics, breakpoint and score of answered messages are what a pull shows
func VH_P15_Service() {
	w := newWorld()
	nd.MapOrder(false)
	w.Tick()
	w.store("q", "a")
	w.Add("q", "a", hcache.Available)
	svc := w.service()
	var acks, nacks, cacks, cnacks int64
	n := 2
	if nd.Thorough() {
		n = 4
	}
	bp := ""
	for i := 0; i < n; i++ {
		p, err := svc.Pull(w.Ctx, &deckard.PullRequest{Queue: "q", Amount: 1})
		nd.Assert(err == nil && len(p.Messages) == 1, "the message is pulled")
		d := p.Messages[0].Diagnostics
		nd.Assert(d.Acks == acks && d.Nacks == nacks && d.ConsecutiveAcks == cacks && d.ConsecutiveNacks == cnacks, "a pull shows the history")
		nd.Assert(p.Messages[0].Breakpoint == bp, "a pull shows the breakpoint of the last ack")
		r := &deckard.AckRequest{Queue: "q", Id: "a", Score: validScore("ackscore" + digit(i)), Breakpoint: "b" + digit(i)}
		nd.Assume(r.Score > 0)
		if nd.Choose("neg", 2) == 1 {
			_, err = svc.Nack(w.Ctx, r)
			nacks, cnacks, cacks = nacks+1, cnacks+1, 0
		} else {
			_, err = svc.Ack(w.Ctx, r)
			acks, cacks, cnacks = acks+1, cacks+1, 0
			bp = r.Breakpoint
		}
		nd.Assert(err == nil, "an answer is accepted")
		// what was handed out before stays as it was
		nd.Assert(d.Acks+d.Nacks == int64(i), "a message handed out is not changed later")
	}
	p, err := svc.Pull(w.Ctx, &deckard.PullRequest{Queue: "q", Amount: 1})
	nd.Assert(err == nil && len(p.Messages) == 1, "the message is pulled")
	d := p.Messages[0].Diagnostics
	nd.Assert(d.Acks == acks && d.Nacks == nacks && d.ConsecutiveAcks == cacks && d.ConsecutiveNacks == cnacks, "a pull shows the history")
}

// looking up and counting agree with what is stored
func VH_P26_Lookup() {
	w := newWorld()
	w.Tick()
	k := nd.Choose("size", 4)
	for i := 0; i < k; i++ {
		w.store([]string{"q", "q::2"}[nd.Choose("queue", 2)], names[i])
	}
	svc := w.service()
	q, id := []string{"q", "q::2", "z", ""}[nd.Choose("askq", 4)], []string{"a", "b", ""}[nd.Choose("askid", 3)]
	g, err := svc.GetById(w.Ctx, &deckard.GetByIdRequest{Queue: q, Id: id})
	if q == "" || id == "" {
		nd.Assert(err != nil, "a lookup without queue or identifier is rejected")
	} else {
		d := w.doc(q, id)
		nd.Assert(err == nil && g.Found == (d != nil), "exactly stored messages are found")
		if d != nil {
			nd.Assert(g.Message.Id == id && g.Message.Queue == q && g.Message.StringPayload == d.payload && g.Message.Score == d.score, "a lookup gives the stored message")
		}
	}
	c, err := svc.Count(w.Ctx, &deckard.CountRequest{Queue: q})
	want := int64(0)
	for _, d := range w.ds {
		want += nd.B2I(q == "" || d.queue == q)
	}
	nd.Assert(err == nil && c.Count == want, "counting counts the messages of the queue")
}

// prefix and suffix of stored messages and of recovered ones
func VH_P22_Service() {
	w := newWorld()
	w.Tick()
	q := nd.Bytes("queue", nd.Choose("len", 6))
	nd.Assume(len(q) > 0)
	_, err := w.service().Add(w.Ctx, &deckard.AddRequest{Messages: []*deckard.AddMessage{{Id: "id", Queue: q, Timeless: true, Score: 7}}})
	nd.Assert(err == nil, "a message is added")
	s := w.stored()
	nd.Assert(len(s) == 1 && nd.StrEq(s[0].Queue, q), "the message is stored in its queue")
	at := -1
	for i := 0; i+1 < len(q); i++ {
		if q[i] == ':' && q[i+1] == ':' {
			at = i
			break
		}
	}
	if at < 0 {
		nd.Assert(nd.StrEq(s[0].QueuePrefix, q) && s[0].QueueSuffix == "", "a name without separator is its own prefix")
	} else {
		nd.Assert(nd.StrEq(s[0].QueuePrefix, q[:at]) && nd.StrEq(s[0].QueueSuffix, q[at+2:]), "prefix and suffix are the parts of the name")
	}
	x, y := s[0].GetQueueParts()
	nd.Assert(nd.StrEq(x, s[0].QueuePrefix) && nd.StrEq(y, s[0].QueueSuffix), "prefix and suffix are those of the name")
	nd.Assert(nd.StrEq(message.GetQueuePrefix(q), s[0].QueuePrefix), "the prefix is the one used for metrics")
}
