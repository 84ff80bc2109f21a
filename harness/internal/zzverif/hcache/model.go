// Package hcache checks the cache contract on the in-memory cache.
package hcache

import (
	"context"
	"time"

	"github.com/takenet/deckard/internal/dtime"
	"github.com/takenet/deckard/internal/queue/cache"
	"github.com/takenet/deckard/internal/queue/message"
	"github.com/takenet/deckard/internal/zzverif/nd"
)

const maxScore = 9007199254740992.0

const (
	Absent = iota
	Available
	Processing
	LockedAck
	LockedNack
)

// Entry is what the contract says about one message.
type Entry struct {
	Queue string
	ID    string
	State int
	Score float64 // while Available, or after the lock
	Until int64   // deadline or end of the lock, in milliseconds
}

// World is a cache together with the contract's view of it.
type World struct {
	Ctx context.Context
	C   cache.Cache
	Es  []*Entry
	Now int64
	T   time.Time
	// the queues in use
	queues []string
	n      int
}

var ids = []string{"a", "b", "c", "d", "e"}

// Small bounds the names of the quick checks.
var Small bool

// Redis says that the cache under check is the Redis one.
var Redis bool

// Counted says that removed messages are to be counted exactly.
var Counted bool

// New creates the cache under check.
var New = func() cache.Cache { return cache.NewMemoryCache() }

func NewWorld() *World {
	w := &World{Ctx: context.Background(), C: New(), queues: []string{"q", "other"}}
	dtime.SetNowProvider(func() time.Time { return w.T })
	return w
}

// tick moves the clock to an arbitrary later instant.
func (w *World) Tick() {
	s := nd.Int64("clock.s", 0, 4000000000)
	ms := nd.Int64("clock.ms", 0, 999)
	nd.Assume(s*1000+ms >= w.Now)
	w.Now = s*1000 + ms
	w.T = nd.Time(s, ms)
}

// validScore is any score the service lets through.
func validScore(name string) float64 {
	x := nd.Float64(name)
	nd.Assume(nd.And(x >= 0, x <= maxScore))
	return x
}

const century = 100 * 366 * 24 * 3600 * 1000

// endOfTime is later than every deadline and lock, in seconds (year 2255).
const endOfTime = 9000000000

// add puts one more message into the wanted state, using the cache's own operations.
func (w *World) Add(queue, id string, state int) *Entry {
	w.n++
	tag := string(rune('0' + w.n))
	e := &Entry{Queue: queue, ID: id, State: state}
	e.Score = validScore("score." + tag)
	if state == Absent {
		return e
	}
	m := &message.Message{ID: id, Queue: queue, Score: e.Score}
	if state != Available {
		got, err := w.C.Insert(w.Ctx, queue, m)
		nd.Assert(err == nil && len(got) == 1, "setup: insert")
		d := nd.Int64("deadline."+tag, 1, century)
		p, err := w.C.PullMessages(w.Ctx, queue, 1, nil, nil, d)
		nd.Assert(err == nil && len(p) == 1 && p[0] == id, "setup: pull")
		e.Until = w.Now + d
	}
	switch state {
	case Available:
		got, err := w.C.Insert(w.Ctx, queue, m)
		nd.Assert(err == nil && len(got) == 1, "setup: insert")
	case LockedAck, LockedNack:
		l := nd.Int64("lock."+tag, 1, century)
		// a message is locked with a score or with none (-1)
		e.Score = nd.IteFloat(nd.Bool("noscore."+tag), -1, e.Score)
		kind := cache.LOCK_ACK
		if state == LockedNack {
			kind = cache.LOCK_NACK
		}
		ok, err := w.C.LockMessage(w.Ctx, &message.Message{ID: id, Queue: queue, Score: e.Score, LockMs: l}, kind)
		nd.Assert(err == nil && ok, "setup: lock")
		e.Until = w.Now + l
	}
	w.Es = append(w.Es, e)
	return e
}

// fill creates k messages of a queue in any states; available ones last, so that setting up
// the others by pulling is unambiguous.
func (w *World) Fill(queue string, names []string, states ...int) {
	last := 0
	for k, id := range names {
		// non-increasing order of "availableness": states are ordered so that each combination occurs once
		st := states[last+nd.Choose("state."+string(rune('0'+k)), len(states)-last)]
		for i, s := range states {
			if s == st {
				last = i
			}
		}
		w.Add(queue, id, st)
	}
}

func (w *World) Find(queue, id string) *Entry {
	for _, e := range w.Es {
		if e.Queue == queue && e.ID == id {
			return e
		}
	}
	return nil
}

func index(l []string, id string) int {
	for i, x := range l {
		if x == id {
			return i
		}
	}
	return -1
}

func distinct(l []string) bool {
	for i := range l {
		for j := i + 1; j < len(l); j++ {
			if l[i] == l[j] {
				return false
			}
		}
	}
	return true
}

// pulled moves the given result of a pull into the model.
func (w *World) Pulled(queue string, got []string, deadline int64) {
	for _, id := range got {
		if e := w.Find(queue, id); e != nil {
			e.State = Processing
			e.Until = w.Now + deadline
		}
	}
}

// checkPull checks the result of a pull against the contract. n is concrete.
func (w *World) checkPull(queue string, n int64, lo, hi *float64, got []string, err error) {
	nd.Assert(err == nil, "pull reports no error")
	nd.Assert(distinct(got), "pull returns no message twice")
	nd.Assert(int64(len(got)) <= n || n < 0 && len(got) == 0, "pull returns at most the requested number")
	var left int64
	for _, e := range w.Es {
		if e.Queue != queue {
			nd.Assert(index(got, e.ID) < 0 || w.Find(queue, e.ID) != nil, "pull returns messages of its own queue")
			continue
		}
		eligible := e.State == Available
		if lo != nil {
			eligible = nd.And(eligible, e.Score >= *lo)
		}
		if hi != nil {
			eligible = nd.And(eligible, e.Score <= *hi)
		}
		if index(got, e.ID) >= 0 {
			nd.Assert(e.State == Available, "only available messages are handed out")
			nd.Assert(eligible, "handed out messages are inside the score bounds")
			continue
		}
		if int64(len(got)) < n {
			nd.Assert(nd.Or(e.State != Available, !eligible), "fewer messages than requested only when no more are eligible")
		}
		if len(got) > 0 && e.State == Available {
			if l := w.Find(queue, got[len(got)-1]); l != nil {
				nd.Assert(nd.Implies(eligible, e.Score >= l.Score), "the lowest scores are handed out first")
			}
		}
		left++
	}
	_ = left
	for i, id := range got {
		e := w.Find(queue, id)
		nd.Assert(e != nil, "only known messages are handed out")
		if i > 0 {
			nd.Assert(w.Find(queue, got[i-1]).Score <= e.Score, "messages are handed out by ascending score")
		}
	}
}

func (w *World) Count(queue string, state int) int {
	n := 0
	for _, e := range w.Es {
		if e.Queue == queue && e.State == state {
			n++
		}
	}
	return n
}

// verify looks at the whole cache through its interface and compares it with the model. It ends
// the life of the cache: messages are drained.
func (w *World) Verify(queues ...string) {
	for i, q := range queues {
		for _, e := range w.Es {
			if e.Queue != q {
				continue
			}
			p, err := w.C.IsProcessing(w.Ctx, q, e.ID)
			nd.Assert(err == nil, "state can be asked for")
			nd.Assert(p == (e.State == Processing), "exactly the processing messages are processing")
		}
		// one available message is where the model says, with the score the model says
		av := w.Count(q, Available)
		if av > 0 {
			k := nd.Choose("probe."+string(rune('0'+i)), av)
			for _, e := range w.Es {
				if e.Queue != q || e.State != Available {
					continue
				}
				if k == 0 {
					s := e.Score
					got, err := w.C.PullMessages(w.Ctx, q, 100, &s, &s, 0)
					nd.Assert(err == nil && distinct(got), "available messages can be pulled")
					nd.Assert(index(got, e.ID) >= 0, "an available message keeps its score")
					for _, x := range w.Es {
						if x.Queue == q {
							in := index(got, x.ID) >= 0
							nd.Assert(nd.Or(!in, nd.And(x.State == Available, x.Score == s)), "no other message is available at that score")
							nd.Assert(nd.Or(in, x.State != Available, x.Score != s), "an available message keeps its score")
						}
					}
					w.Pulled(q, got, cache.DefaultTimeoutMs)
					break
				}
				k--
			}
		}
		got, err := w.C.PullMessages(w.Ctx, q, 100, nil, nil, 0)
		w.checkPull(q, 100, nil, nil, got, err)
		w.Pulled(q, got, cache.DefaultTimeoutMs)
	}
	// everything still hidden comes out after its time
	w.Now = endOfTime * 1000
	w.T = nd.Time(endOfTime, 0)
	for _, q := range queues {
		for _, k := range []cache.LockType{cache.LOCK_ACK, cache.LOCK_NACK} {
			st := LockedAck
			if k == cache.LOCK_NACK {
				st = LockedNack
			}
			got, err := w.C.UnlockMessages(w.Ctx, q, k)
			nd.Assert(err == nil && distinct(got), "unlock at the end works")
			for _, e := range w.Es {
				if e.Queue == q {
					nd.Assert((index(got, e.ID) >= 0) == (e.State == st), "exactly the locked messages are locked")
				}
			}
			nd.Assert(len(got) == w.Count(q, st), "nothing else is locked")
		}
		got, err := w.C.TimeoutMessages(w.Ctx, q)
		nd.Assert(err == nil && distinct(got), "timeout at the end works")
		for _, e := range w.Es {
			if e.Queue == q {
				nd.Assert((index(got, e.ID) >= 0) == (e.State == Processing), "no message is lost or duplicated")
			}
		}
		nd.Assert(len(got) == w.Count(q, Processing), "nothing else is processing")
	}
}

// bound is an optional score bound.
func bound(name string) *float64 {
	if nd.Choose(name+".given", 2) == 0 {
		return nil
	}
	x := validScore(name)
	return &x
}
