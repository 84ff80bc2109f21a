package hqueue

import (
	"context"

	"github.com/takenet/deckard"
	"github.com/takenet/deckard/internal/queue"
	"github.com/takenet/deckard/internal/queue/message"
	"github.com/takenet/deckard/internal/service"
	"github.com/takenet/deckard/internal/zzverif/hcache"
	"github.com/takenet/deckard/internal/zzverif/nd"
)

func (w *world) service() *service.Deckard {
	return service.NewMemoryDeckardService(w.q, w.cfg)
}

// scores of every kind given to Add
func VH_P01_ServiceAdd() {
	w := newWorld()
	w.Tick()
	x := nd.Float64("score")
	r, err := w.service().Add(w.Ctx, &deckard.AddRequest{Messages: []*deckard.AddMessage{{Id: "a", Queue: "q", Score: x, Timeless: true}}})
	nd.Assert(err == nil && r.CreatedCount == 1 && r.UpdatedCount == 0, "a message is added")
	want := normal(x, float64(w.Now))
	d := &doc{queue: "q", id: "a"}
	w.ds = append(w.ds, d)
	s := w.stored()
	nd.Assert(len(s) == 1 && s[0].Score == want, "the stored score is the normalised one")
	w.Es = append(w.Es, &hcache.Entry{Queue: "q", ID: "a", State: hcache.Available, Score: want})
	w.verifyAll("q")
}

// normal is the documented normalisation of a score; def is used for none.
func normal(x, def float64) float64 {
	if x != x || x == 0 {
		return def
	}
	if x < 0 {
		return 0
	}
	if x > maxScore {
		return maxScore
	}
	return x
}

// pull bounds and amounts reach the queue normalised
func VH_P01_ServicePull() {
	w := newWorld()
	w.Tick()
	f := &pullSpy{}
	svc := service.NewMemoryDeckardService(f, w.cfg)
	r := &deckard.PullRequest{Queue: "q", Amount: int32(nd.Int64("amount", -1<<31, 1<<31-1)), MaxScore: nd.Float64("max"), MinScore: nd.Float64("min"),
		AckDeadlineMs: nd.Int64("deadline", -1<<62, 1<<62)}
	if nd.Choose("deprecated", 2) == 1 {
		r.ScoreFilter = nd.Int64("filter", -1<<40, 1<<40)
	}
	mx, mn := r.MaxScore, r.MinScore
	if mx == 0 && r.ScoreFilter > 0 {
		mx = float64(w.Now - r.ScoreFilter)
	}
	resp, err := svc.Pull(w.Ctx, r)
	nd.Assert(err == nil && len(resp.Messages) == 0, "an empty pull is no error")
	nd.Assert(f.queue == "q" && f.deadline == r.AckDeadlineMs, "the request is passed on")
	a := int64(r.Amount)
	nd.Assert(f.n == nd.IteInt(a <= 0, 1, nd.IteInt(a > 1000, 1000, a)), "the amount is brought into 1..1000")
	checkBound(f.hi, mx)
	checkBound(f.lo, mn)
}

func checkBound(b *float64, x float64) {
	if x != x || x == 0 {
		nd.Assert(b == nil, "no bound means no filter")
		return
	}
	nd.Assert(b != nil, "a bound is a filter")
	nd.Assert(*b == normal(x, 0), "a bound is capped into the score range")
}

type pullSpy struct {
	queue.DeckardQueue
	queue    string
	n        int64
	lo, hi   *float64
	deadline int64
}

func (p *pullSpy) Pull(_ context.Context, q string, n int64, lo *float64, hi *float64, d int64) (*[]message.Message, error) {
	p.queue, p.n, p.lo, p.hi, p.deadline = q, n, lo, hi, d
	return nil, nil
}

// a message with any TTL expires when it says
func VH_P09_Add() {
	w := newWorld()
	w.Tick()
	timeless := nd.Choose("timeless", 2) == 1
	var ttl int64
	if timeless {
		ttl = nd.Int64("ttl", 0, 52596000)
	} else {
		ttl = nd.Int64("ttl", -1<<63, 1<<63-1)
	}
	r, err := w.service().Add(w.Ctx, &deckard.AddRequest{Messages: []*deckard.AddMessage{{Id: "a", Queue: "q", Score: 1, Timeless: timeless, TtlMinutes: ttl}}})
	nd.Assert(err == nil && r.CreatedCount == 1, "a message is added")
	s := w.stored()
	nd.Assert(len(s) == 1, "the message is stored")
	exp := s[0].ExpiryDate
	if timeless {
		nd.Assert(s[0].Timeless && exp.Unix() >= w.Now/1000+3155673600-86400, "a timeless message does not expire for a hundred years")
		return
	}
	const most = 9223372036 / 60 // minutes a time.Duration can hold
	got := exp.Unix()*1000 + int64(exp.Nanosecond())/1000000
	nd.Assert(nd.Implies(nd.And(ttl >= -most, ttl <= most), got == w.Now+ttl*60000), "a message expires its TTL after it was added")
	nd.Assert(nd.Implies(ttl > most, got >= w.Now+most*60000), "a longer TTL does not expire earlier")
	nd.Assert(nd.Implies(ttl < -most, got <= w.Now), "a negative TTL is over at once")
}
