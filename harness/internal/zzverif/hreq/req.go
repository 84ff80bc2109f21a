// Package hreq sends requests of any kind to the service.
package hreq

import (
	"context"
	"math"
	"time"

	"github.com/takenet/deckard"
	"github.com/takenet/deckard/internal/audit"
	"github.com/takenet/deckard/internal/config"
	"github.com/takenet/deckard/internal/dtime"
	"github.com/takenet/deckard/internal/queue"
	"github.com/takenet/deckard/internal/queue/cache"
	"github.com/takenet/deckard/internal/queue/storage"
	"github.com/takenet/deckard/internal/service"
	"github.com/takenet/deckard/internal/zzverif/hmongo"
	"github.com/takenet/deckard/internal/zzverif/hredis"
	"github.com/takenet/deckard/internal/zzverif/nd"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
)

type silent struct{}

func (silent) Store(context.Context, audit.Entry) {}

const most = 9007199254740992

var bg = context.Background()

type world struct {
	// message a was locked by an answer without a score
	unscored bool
	q        *queue.Queue
	svc      *service.Deckard
	now      time.Time
}

// newWorld is an instance on servers or in memory.
func newWorld(persistent bool) *world {
	nd.MapOrder(false)
	config.Configure(true)
	w := &world{now: time.UnixMilli(1700000000000)}
	dtime.SetNowProvider(func() time.Time { return w.now })
	var c cache.Cache = cache.NewMemoryCache()
	var s storage.Storage = storage.NewMemoryStorage(bg)
	if persistent {
		hredis.NewNet(1)
		hmongo.New()
		config.CacheUri.Set("redis://localhost:6379/0")
		config.StorageUri.Set("mongodb://db:27017/x")
		var err error
		c, err = cache.CreateCache(bg, cache.REDIS)
		nd.Assert(err == nil, "setup: cache")
		s, err = storage.CreateStorage(bg, storage.MONGODB)
		nd.Assert(err == nil, "setup: storage")
	}
	cfg := queue.NewQueueConfigurationService(bg, s)
	w.q = queue.NewQueue(silent{}, s, cfg, c)
	w.svc = service.NewDeckardInstance(w.q, cfg, false)
	return w
}

func (w *world) add(q, id string, score float64) {
	r, err := w.svc.Add(bg, &deckard.AddRequest{Messages: []*deckard.AddMessage{{Id: id, Queue: q, Score: score, Timeless: true}}})
	nd.Assert(err == nil && r != nil, "a good request is served")
}

func (w *world) pull(q string, n int32) []*deckard.Message {
	r, err := w.svc.Pull(bg, &deckard.PullRequest{Queue: q, Amount: n})
	nd.Assert(err == nil && r != nil, "a good request is served")
	return r.Messages
}

// answered says that a request was answered, and whether it was served.
func answered(there bool, err error) bool {
	if err == nil {
		nd.Assert(there, "a request is answered")
		return true
	}
	s, ok := status.FromError(err)
	nd.Assert(ok && (s.Code() == codes.Internal || s.Code() == codes.InvalidArgument), "an error has a gRPC code")
	return false
}

var queues = []string{"q", "", "::", "q::", "::q", "q::s", "*", "q:processing", "q\x00"}
var ids = []string{"a", "", "z", "*", "a b"}

var specials = []float64{0, math.NaN(), math.Inf(1), math.Inf(-1), 2.5}

// times to live; P09 has all of them
var ttls = []int64{0, 1, -1, 153722867, 153722868, math.MinInt64, math.MaxInt64}

// request sends one request with arbitrary numbers, or any of a few, and says whether it was served.
func (w *world) request(n int, q, id string, anyNumber bool) bool {
	full := func(tag string) int64 {
		if anyNumber {
			extremes := []int64{math.MinInt64, math.MaxInt64, 1<<53 + 1}
			if k := nd.Choose("extreme "+tag, len(extremes)+1); k > 0 {
				return extremes[k-1]
			}
			return nd.Int64(tag, -1<<50, 1<<50)
		}
		return 0
	}
	float := func(tag string) float64 {
		if anyNumber {
			return nd.Float64(tag)
		}
		return 0
	}
	special := func(tag string) float64 {
		if anyNumber {
			return specials[nd.Choose(tag, len(specials))]
		}
		return 0
	}
	switch n {
	case 0:
		m := &deckard.AddMessage{Id: id, Queue: q, Timeless: nd.Choose("timeless", 2) == 1}
		ms := []*deckard.AddMessage{m}
		if anyNumber {
			m.Score = nd.Float64("score")
			m.TtlMinutes = ttls[nd.Choose("ttl", len(ttls))]
		}
		if m.TtlMinutes == 0 && nd.Choose("twice", 2) == 1 {
			ms = append(ms, &deckard.AddMessage{Id: "b", Queue: "q", Score: special("score2")})
		}
		r, err := w.svc.Add(bg, &deckard.AddRequest{Messages: ms})
		return answered(r != nil, err)
	case 1:
		p := &deckard.PullRequest{Queue: q, Amount: 1}
		if anyNumber {
			switch nd.Choose("which", 4) {
			case 0:
				p.MinScore, p.MaxScore = nd.Float64("min"), special("max")
			case 1:
				p.MinScore, p.MaxScore = special("min"), nd.Float64("max")
			case 2:
				p.ScoreFilter = []int64{0, 1000, math.MinInt64, math.MaxInt64}[nd.Choose("filter", 4)]
				p.AckDeadlineMs = full("deadline")
			case 3:
				p.Amount = int32(nd.Int64("amount", math.MinInt32, math.MaxInt32))
				p.AckDeadlineMs = []int64{0, -1, math.MinInt64, math.MaxInt64}[nd.Choose("deadline", 4)]
				p.MaxScore = special("max")
			}
		}
		r, err := w.svc.Pull(bg, p)
		return answered(r != nil, err)
	case 2, 3:
		a := &deckard.AckRequest{Id: id, Queue: q, RemoveMessage: nd.Choose("remove", 2) == 1}
		switch nd.Choose("how", 3) {
		case 0:
			a.ScoreSubtract = float("subtract")
		case 1:
			a.Score = float("score")
		case 2:
			a.Score, a.ScoreSubtract, a.LockMs = special("score"), special("subtract"), full("lock")
		}
		f := w.svc.Ack
		if n == 3 {
			f = w.svc.Nack
		}
		if id == "a" && q == "q" {
			w.unscored = nd.Or(w.unscored, nd.And(a.LockMs > 0, nd.Or(a.Score == 0, a.Score != a.Score)))
		}
		r, err := f(bg, a)
		return answered(r != nil, err)
	case 4:
		var l []string
		for i, k := 0, nd.Choose("ids", 3); i < k; i++ {
			l = append(l, id)
		}
		r, err := w.svc.Remove(bg, &deckard.RemoveRequest{Queue: q, Ids: l})
		return answered(r != nil, err)
	case 5:
		r, err := w.svc.Count(bg, &deckard.CountRequest{Queue: q})
		return answered(r != nil, err)
	case 6:
		r, err := w.svc.GetById(bg, &deckard.GetByIdRequest{Queue: q, Id: id})
		return answered(r != nil, err)
	case 7:
		e := &deckard.EditQueueRequest{Queue: q}
		if nd.Choose("given", 2) == 1 {
			e.Configuration = &deckard.QueueConfiguration{MaxElements: full("limit")}
		}
		r, err := w.svc.EditQueue(bg, e)
		return answered(r != nil, err)
	case 8:
		r, err := w.svc.GetQueue(bg, &deckard.GetQueueRequest{Queue: q})
		return answered(r != nil, err)
	case 9:
		r, err := w.svc.Flush(bg, &deckard.FlushRequest{})
		return answered(r != nil, err)
	}
	return false
}

const requests = 10

// any request on any instance: it is answered, and everything else goes on
func VH_P34_Add()  { anyRequest(0) }
func VH_P34_Pull() { anyRequest(1) }
func VH_P34_Ack()  { anyRequest(2) }
func VH_P34_Nack() { anyRequest(3) }
func VH_P34_Edit() { anyRequest(7) }

// any names
func VH_P34_Names() { anyRequest(-1) }

func anyRequest(n int) {
	numbers := n >= 0
	w := newWorld(nd.Choose("persistent", 2) == 1)
	w.add("r", "x", 7)
	w.add("q", "b", 3)
	state := 0
	switch {
	case nd.Thorough():
		state = nd.Choose("state", 4)
	case n == 0:
		state = 2 * nd.Choose("state", 2)
	case n < 0 || n == 1:
		state = 1 + 2*nd.Choose("state", 2)
	default:
		state = 2 + nd.Choose("state", 2)
	}
	if state > 0 {
		w.add("q", "a", 2)
	}
	if state > 1 {
		nd.Assert(len(w.pull("q", 1)) == 1, "setup: pull")
	}
	if state > 2 {
		_, err := w.svc.Ack(bg, &deckard.AckRequest{Id: "a", Queue: "q", LockMs: 10})
		nd.Assert(err == nil, "setup: lock")
		w.unscored = true
	}
	q, id := "q", "a"
	if !numbers {
		n = nd.Choose("request", requests)
		if n != 9 {
			q = queues[nd.Choose("queue", len(queues))]
		}
	}
	if !numbers && n != 1 && n != 5 && n < 7 {
		id = ids[nd.Choose("id", len(ids))]
		if q != "q" && !nd.Thorough() {
			nd.Assume(len(id) == 1)
		}
	}
	w.request(n, q, id, numbers)
	nd.Cover("end")
	w.now = w.now.Add(20 * time.Millisecond)
	queue.ProcessLockPool(bg, w.q)
	nd.Assert(queue.ProcessTimeoutMessages(bg, w.q) == nil, "the passes go on")
	_, err := queue.RemoveExceedingMessages(bg, w.q)
	nd.Assert(err == nil, "the passes go on")
	// other messages are as they were
	r := w.pull("r", 10)
	nd.Assert(len(r) == 1 && r[0].Id == "x" && r[0].Score == 7, "other queues are as they were")
	w.add("q", "new", 5)
	var last float64
	found := false
	for _, m := range w.pull("q", 10) {
		nd.AssertKnown(nd.And(m.Score >= 0, m.Score <= most), "scores are in the documented range", "undefined-score", nd.And(w.unscored, m.Id == "a", m.Score == -1))
		if m.Score != -1 {
			nd.Assert(m.Score >= last, "messages come in order")
			last = m.Score
		}
		found = found || m.Id == "new"
		nd.Assert(m.Queue == "q", "messages come from their queue")
	}
	nd.Assert(found, "the queue goes on")
}
