package hredis

import (
	"errors"

	"github.com/takenet/deckard/internal/queue/cache"
	"github.com/takenet/deckard/internal/queue/message"
	"github.com/takenet/deckard/internal/queue/pool"
	"github.com/takenet/deckard/internal/zzverif/hcache"
	"github.com/takenet/deckard/internal/zzverif/hlat"
	"github.com/takenet/deckard/internal/zzverif/nd"
)

// every call to the cache records how long it took, whether it works or fails
func VH_P36_Redis() {
	shards := 1 + nd.Choose("shards", 2)
	c, n := Connect(shards)
	put(c, "q", hcache.Processing)
	nd.Timers(40)
	took, at := 0, nd.Choose("fail", 3)
	n.Fail = func(string) error {
		took++
		hlat.Spend("spent")
		if took == at {
			return errors.New("connection reset")
		}
		return nil
	}
	r := hlat.Watch()
	m := &message.Message{ID: "m", Queue: "q", Score: 3, LockMs: 1000}
	op := ""
	switch nd.Choose("op", 12) {
	case 0:
		op = "insert"
		c.Insert(bg, "q", m)
	case 1:
		op = "remove"
		c.Remove(bg, "q", "m")
	case 2:
		op = "list_queue"
		c.ListQueues(bg, "*", pool.PRIMARY_POOL)
	case 3:
		op = "make_available"
		c.MakeAvailable(bg, m)
	case 4:
		op = "lock"
		c.LockMessage(bg, m, cache.LOCK_ACK)
	case 5:
		op = "unlock_messages"
		c.UnlockMessages(bg, "q", cache.LOCK_NACK)
	case 6:
		op = "pull"
		c.PullMessages(bg, "q", 1, nil, nil, 0)
	case 7:
		op = "timeout"
		c.TimeoutMessages(bg, "q")
	case 8:
		op = "is_processing"
		c.IsProcessing(bg, "q", "m")
	case 9:
		op = "get"
		c.Get(bg, "k")
	case 10:
		op = "set"
		c.Set(bg, "k", "v")
	case 11:
		op = "flush"
		c.Flush(bg)
	}
	nd.Assert(took > 0, "setup: the call reaches the server")
	if shards > 1 { // a cluster's servers are asked at the same time
		hlat.OneAtMost(r, "deckard_cache_latency", "op", op)
	} else {
		hlat.One(r, "deckard_cache_latency", "op", op)
	}
	nd.Cover("end")
}
