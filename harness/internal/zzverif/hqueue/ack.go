package hqueue

import (
	"github.com/takenet/deckard"
	"github.com/takenet/deckard/internal/audit"
	"github.com/takenet/deckard/internal/zzverif/hcache"
	"github.com/takenet/deckard/internal/zzverif/nd"
)

var states = []int{hcache.Available, hcache.Processing, hcache.LockedAck, hcache.LockedNack}

const century = 100 * 366 * 24 * 3600 * 1000

// answer makes an arbitrary ack or nack request for q/id.
func answer(tag string) *deckard.AckRequest {
	r := &deckard.AckRequest{Id: "a", Queue: "q", Score: nd.Float64("ackscore" + tag), LockMs: nd.Int64("acklock"+tag, -century, century),
		RemoveMessage: nd.Bool("remove" + tag), Reason: "because", Breakpoint: "bp"}
	switch nd.Choose("subtract"+tag, 2) {
	case 1:
		r.ScoreSubtract = nd.Float64("acksub" + tag)
		nd.Assume(nd.And(r.ScoreSubtract >= -1e18, r.ScoreSubtract <= 1e18))
	}
	return r
}

// answered moves the model the way the request asks for.
func (w *world) answered(r *deckard.AckRequest, neg bool) bool {
	e := w.Find(r.Queue, r.Id)
	ok := e != nil && e.State == hcache.Processing
	if !ok {
		return false
	}
	def := 0.0
	if !neg {
		def = float64(w.Now)
	}
	if r.LockMs > 0 {
		e.State, e.Until = hcache.LockedAck, w.Now+r.LockMs
		if neg {
			e.State = hcache.LockedNack
		}
		e.Score = normal(r.Score, -1)
		return true
	}
	e.State = hcache.Available
	if !neg {
		def -= r.ScoreSubtract
		if def < 0 {
			def = 0
		} else if def > maxScore {
			def = maxScore
		}
	}
	e.Score = normal(r.Score, def)
	return true
}

// any answer to a message in any state
func VH_P14_Service() {
	w := newWorld()
	nd.MapOrder(false)
	w.Tick()
	w.store("q", "a")
	st := nd.Choose("state", 5)
	if st < 4 {
		w.Add("q", "a", states[st])
	}
	w.store("q2", "a")
	w.Add("q2", "a", hcache.Processing)
	w.Tick()
	r := answer("")
	neg := nd.Choose("neg", 2) == 1
	svc := w.service()
	var resp *deckard.AckResponse
	var err error
	if neg {
		resp, err = svc.Nack(w.Ctx, r)
	} else {
		resp, err = svc.Ack(w.Ctx, r)
	}
	nd.Assert(err == nil && resp != nil, "an answer is accepted")
	ok := w.answered(r, neg)
	if r.RemoveMessage {
		nd.Assert(resp.Success, "removal with the answer is reported")
		nd.Assert(resp.RemovalResponse != nil && resp.RemovalResponse.StorageRemoved == 1, "the removed message is reported")
		nd.Assert(resp.RemovalResponse.CacheRemoved == nd.B2I(st < 4), "the removed message is reported")
		w.drop("q", "a", true, true)
	} else {
		nd.Assert(resp.Success == ok, "exactly answers to processing messages succeed")
	}
	nd.Cover("end")
	w.verifyAll("q", "q2")
}

// scores given in answers, or left to the service
func VH_P01_Answer() {
	w := newWorld()
	nd.MapOrder(false)
	w.Tick()
	w.store("q", "a")
	w.Add("q", "a", hcache.Processing)
	w.Tick()
	r := answer("")
	nd.Assume(!r.RemoveMessage)
	neg := nd.Choose("neg", 2) == 1
	var err error
	if neg {
		_, err = w.service().Nack(w.Ctx, r)
	} else {
		_, err = w.service().Ack(w.Ctx, r)
	}
	nd.Assert(err == nil && w.answered(r, neg), "an answer is accepted")
	s := w.stored()
	nd.Assert(len(s) == 1, "the message stays stored")
	x, e := s[0].Score, w.Find("q", "a")
	nd.Assert(x == e.Score, "the score of an answer is normalised like that of an added message")
	nd.Assert(nd.Or(nd.And(x >= 0, x <= maxScore), nd.And(r.LockMs > 0, x == -1)), "a score lies in the documented range")
	w.doc("q", "a").score = x
	w.verifyAll("q")
}

// the answer to one message of several
func VH_P14_Others() {
	w := newWorld()
	nd.MapOrder(false)
	w.Tick()
	for _, id := range []string{"a", "b"} {
		w.store("q", id)
	}
	w.Fill("q", []string{"a", "b"}, hcache.LockedAck, hcache.LockedNack, hcache.Processing, hcache.Available)
	w.Tick()
	r := &deckard.AckRequest{Id: names[nd.Choose("id", 3)], Queue: []string{"q", "q3"}[nd.Choose("queue", 2)]}
	if nd.Choose("lock", 2) == 1 {
		r.LockMs = nd.Int64("acklock", 1, century)
	}
	neg := nd.Choose("neg", 2) == 1
	svc := w.service()
	var resp *deckard.AckResponse
	var err error
	if neg {
		resp, err = svc.Nack(w.Ctx, r)
	} else {
		resp, err = svc.Ack(w.Ctx, r)
	}
	nd.Assert(err == nil && resp != nil, "an answer is accepted")
	nd.Assert(resp.Success == w.answered(r, neg), "exactly answers to processing messages succeed")
	w.verifyAll("q")
}

// requests without queue or identifier, and failures
func VH_P14_Rejected() {
	w := newWorld()
	nd.MapOrder(false)
	w.Tick()
	w.store("q", "a")
	w.Add("q", "a", hcache.Processing)
	w.Tick()
	r := &deckard.AckRequest{Id: "a", Queue: "q", RemoveMessage: nd.Bool("remove")}
	if nd.Choose("what", 2) == 0 {
		r.Id = ""
	} else {
		r.Queue = ""
	}
	if nd.Choose("lock", 2) == 1 {
		r.LockMs = nd.Int64("acklock", 1, century)
	}
	svc := w.service()
	var err error
	if nd.Choose("neg", 2) == 1 {
		_, err = svc.Nack(w.Ctx, r)
	} else {
		_, err = svc.Ack(w.Ctx, r)
	}
	nd.Assert(err != nil, "an answer without queue or identifier is rejected")
	nd.Assert(len(w.a.es) == 0, "a rejected answer is not audited")
	w.verifyAll("q")
}

// a failure of storage or cache while answering is reported, and the answer can be repeated
func VH_P14_Failure() {
	w := newWorld()
	nd.MapOrder(false)
	w.Tick()
	w.store("q", "a")
	w.Add("q", "a", hcache.Processing)
	w.Tick()
	r := &deckard.AckRequest{Id: "a", Queue: "q", Score: validScore("ackscore"), RemoveMessage: nd.Choose("remove", 2) == 1}
	nd.Assume(r.Score != 0)
	if nd.Choose("lock", 2) == 1 {
		r.LockMs = nd.Int64("acklock", 1, century)
	}
	neg := nd.Choose("neg", 2) == 1
	svc := w.service()
	do := func() (*deckard.AckResponse, error) {
		if neg {
			return svc.Nack(w.Ctx, r)
		}
		return svc.Ack(w.Ctx, r)
	}
	w.f.on, w.f.budget = true, 1
	resp, err := do()
	w.f.on = false
	if len(w.f.failed) == 0 {
		nd.Assert(err == nil && resp.Success, "an answer without failure succeeds")
		w.answered(r, neg)
		if r.RemoveMessage {
			w.drop("q", "a", true, true)
		}
		w.verifyAll("q")
		return
	}
	nd.Assert(err != nil, "a failure is reported")
	for _, e := range w.a.es {
		nd.Assert(e.Signal == audit.ACK || e.Signal == audit.NACK, "a failed removal is not audited")
	}
	resp, err = do()
	nd.Assert(err == nil, "the answer can be repeated")
	w.answered(r, neg)
	if r.RemoveMessage {
		w.drop("q", "a", true, true)
	}
	w.verifyAll("q")
}
