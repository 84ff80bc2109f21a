package hconc

import (
	"context"
	"sort"
	"strings"
	"time"

	"github.com/takenet/deckard/internal/dtime"
	"github.com/takenet/deckard/internal/queue/cache"
	"github.com/takenet/deckard/internal/queue/message"
	"github.com/takenet/deckard/internal/queue/pool"
	"github.com/takenet/deckard/internal/zzverif/nd"
)

var bg = context.Background()

const (
	absent = iota
	available
	processing
	lockedAck
)

func at(ms int64) { dtime.SetNowProvider(func() time.Time { return time.UnixMilli(ms) }) }

// the operations run 1000 ms after the messages were put into their states
const (
	then  = 1000000
	now   = then + 1000
	later = then * 9
)

// held makes a cache with messages a and b of queue q in the given states: d milliseconds are the
// deadline or the lock of the one that is processing or locked.
func held(st [2]int, sc [2]float64, d [2]int64) func() cache.Cache {
	return func() cache.Cache {
		c := cache.NewMemoryCache()
		at(then)
		for i, id := range []string{"a", "b"} {
			if st[i] == absent || st[i] == available {
				continue
			}
			m := &message.Message{ID: id, Queue: "q", Score: sc[i]}
			l, err := c.Insert(bg, "q", m)
			nd.Assert(err == nil && len(l) == 1, "setup: insert")
			l, err = c.PullMessages(bg, "q", 1, nil, nil, d[i])
			nd.Assert(err == nil && len(l) == 1, "setup: pull")
			if st[i] == lockedAck {
				m.LockMs = d[i]
				ok, err := c.LockMessage(bg, m, cache.LOCK_ACK)
				nd.Assert(err == nil && ok, "setup: lock")
			}
		}
		for i, id := range []string{"a", "b"} {
			if st[i] == available {
				l, err := c.Insert(bg, "q", &message.Message{ID: id, Queue: "q", Score: sc[i]})
				nd.Assert(err == nil && len(l) == 1, "setup: insert")
			}
		}
		at(now)
		return c
	}
}

func (o *outcome) set(l []string, err error) {
	l = append([]string{}, l...)
	sort.Strings(l)
	o.say(strings.Join(l, ","))
	o.fail(err)
}

// look describes everything in the cache, and empties it.
func look(c cache.Cache, o *outcome) {
	for _, id := range []string{"a", "b", "c"} {
		p, err := c.IsProcessing(bg, "q", id)
		o.bool(p)
		o.fail(err)
	}
	v, err := c.Get(bg, "k")
	o.str(v)
	o.fail(err)
	for _, p := range []pool.PoolType{pool.PRIMARY_POOL, pool.PROCESSING_POOL, pool.LOCK_ACK_POOL, pool.LOCK_NACK_POOL} {
		o.set(c.ListQueues(bg, "*", p))
	}
	l, err := c.PullMessages(bg, "q", 10, nil, nil, later)
	o.say(strings.Join(l, ","))
	o.fail(err)
	o.set(c.UnlockMessages(bg, "q", cache.LOCK_ACK))
	o.set(c.UnlockMessages(bg, "q", cache.LOCK_NACK))
	o.set(c.TimeoutMessages(bg, "q"))
	at(later)
	o.set(c.UnlockMessages(bg, "q", cache.LOCK_ACK))
	o.set(c.UnlockMessages(bg, "q", cache.LOCK_NACK))
	o.set(c.TimeoutMessages(bg, "q"))
	o.set(c.PullMessages(bg, "q", 10, nil, nil, later))
	at(now)
}

// cacheOp is an arbitrary operation of the cache.
func cacheOp(tag string, score float64, from int) (call[cache.Cache], int) {
	op := from + nd.Choose("op"+tag, 11-from)
	return cacheCall(op, tag, score), op
}

func cacheCall(op int, tag string, score float64) call[cache.Cache] {
	id := func() string { return []string{"a", "b"}[nd.Choose("id"+tag, 2)] }
	switch op {
	case 0:
		x, both := id(), nd.Choose("both"+tag, 2) == 1
		return one(func(c cache.Cache, o *outcome) {
			ms := []*message.Message{{ID: x, Queue: "q", Score: score}}
			if both {
				ms = append(ms, &message.Message{ID: "c", Queue: "q", Score: 1})
			}
			o.set(c.Insert(bg, "q", ms...))
		})
	case 1:
		n, d := int64(1+nd.Choose("n"+tag, 3)), nd.Int64("deadline"+tag, 1, 100000)
		var min *float64
		if n == 3 { // some messages are left out
			f := float64(nd.Int64("min"+tag, 1, 1001))
			min = &f
		}
		return one(func(c cache.Cache, o *outcome) {
			l, err := c.PullMessages(bg, "q", n, min, nil, d)
			o.say(strings.Join(l, ","))
			o.fail(err)
		})
	case 2:
		x := id()
		return one(func(c cache.Cache, o *outcome) {
			ok, err := c.MakeAvailable(bg, &message.Message{ID: x, Queue: "q", Score: score})
			o.bool(ok)
			o.fail(err)
		})
	case 3:
		x, ms := id(), nd.Int64("lock"+tag, 0, 100000)
		return one(func(c cache.Cache, o *outcome) {
			ok, err := c.LockMessage(bg, &message.Message{ID: x, Queue: "q", Score: score, LockMs: ms}, cache.LOCK_NACK)
			o.bool(ok)
			o.fail(err)
		})
	case 4:
		return one(func(c cache.Cache, o *outcome) { o.set(c.UnlockMessages(bg, "q", cache.LOCK_ACK)) })
	case 5:
		return one(func(c cache.Cache, o *outcome) { o.set(c.TimeoutMessages(bg, "q")) })
	case 6:
		x := id()
		return one(func(c cache.Cache, o *outcome) {
			n, err := c.Remove(bg, "q", x)
			o.int(n)
			o.fail(err)
		})
	case 7:
		return one(func(c cache.Cache, o *outcome) { c.Flush(bg) })
	case 8:
		p := []pool.PoolType{pool.PRIMARY_POOL, pool.PROCESSING_POOL, pool.LOCK_ACK_POOL}[nd.Choose("pool"+tag, 3)]
		return one(func(c cache.Cache, o *outcome) { o.set(c.ListQueues(bg, "*", p)) })
	case 9:
		x := id()
		return one(func(c cache.Cache, o *outcome) {
			ok, err := c.IsProcessing(bg, "q", x)
			o.bool(ok)
			o.fail(err)
		})
	}
	if nd.Choose("write"+tag, 2) == 0 {
		return one(func(c cache.Cache, o *outcome) {
			v, err := c.Get(bg, "k")
			o.str(v)
			o.fail(err)
		})
	}
	v := nd.Bytes("value"+tag, 1)
	return one(func(c cache.Cache, o *outcome) { o.fail(c.Set(bg, "k", v)) })
}

// cacheTogether runs n operations; messages keep away from each other's scores, so that the
// order of equal scores, which nothing promises, does not matter.
func cacheTogether(n, k int) {
	st := [][2]int{{absent, available}, {available, available}, {processing, available}, {lockedAck, processing}}[nd.Choose("state", 4)]
	x := nd.Int64("score", 2, 1000)
	y := nd.Int64("score", 2, 1000)
	nd.Assume(x != y)
	sc := [2]float64{float64(x), float64(y)}
	d := [2]int64{1, 1}
	for i := range d {
		if st[i] > available {
			d[i] = nd.Int64("passes", 1, 100000)
		}
	}
	var calls []call[cache.Cache]
	last := 0
	for i := 0; i < n; i++ { // the order of the calls does not matter
		z := nd.Int64("opscore", 2, 1000)
		nd.Assume(nd.And(z != x, z != y))
		c, op := cacheOp(string(rune('0'+i)), float64(z)+0.25*float64(i), last)
		calls, last = append(calls, c), op
	}
	together(calls, held(st, sc, d), look, k)
}

// two operations of the in-memory cache at the same time
func VH_P18_Cache() { cacheTogether(2, depth()) }
