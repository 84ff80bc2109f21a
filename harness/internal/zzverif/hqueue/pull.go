package hqueue

import (
	"github.com/takenet/deckard/internal/audit"
	"github.com/takenet/deckard/internal/queue/message"
	"github.com/takenet/deckard/internal/queue/storage"
	"github.com/takenet/deckard/internal/zzverif/hcache"
	"github.com/takenet/deckard/internal/zzverif/nd"
)

var names = []string{"a", "b", "c", "d"}

const (
	there   = iota // found at once
	late           // found on the consistent second read only
	missing        // not stored
)

// a pull of available messages, some of which the storage does not have (yet)
func VH_P13_Pull() {
	w := newWorld()
	nd.MapOrder(false)
	w.Tick()
	k := 2
	if nd.Thorough() {
		k = 3
	}
	k = 1 + nd.Choose("messages", k)
	kind := map[string]int{}
	for i := 0; i < k; i++ {
		kind[names[i]] = nd.Choose("kind", 3)
		if kind[names[i]] != missing {
			w.store("q", names[i])
		}
		w.Add("q", names[i], hcache.Available)
	}
	w.store("other", "a")
	w.Add("other", "a", hcache.Available)
	w.s.sees = func(m *message.Message, o *storage.FindOptions) bool {
		return m.Queue != "q" || kind[m.ID] == there || o != nil && o.Retry
	}
	w.Tick()
	w.f.on, w.f.budget = true, nd.Choose("faults", 2)
	n := int64(1 + nd.Choose("n", k+1))
	d := nd.Int64("deadline", 1, 1000000000)
	got, err := w.q.Pull(w.Ctx, "q", n, nil, nil, d)
	w.f.on = false
	nd.Cover("end")
	w.s.sees = nil

	// what the cache gave away: the n lowest scores; ask the cache
	taken := map[string]bool{}
	for i := 0; i < k; i++ {
		p, e := w.C.IsProcessing(w.Ctx, "q", names[i])
		nd.Assert(e == nil, "state can be asked for")
		taken[names[i]] = p
	}
	failedRemove := len(w.f.failed) > 0 && w.f.failed[0] == "cache.Remove"
	if len(w.f.failed) > 0 && !failedRemove {
		nd.Assert(err != nil && got == nil, "a failure is reported")
		nd.Assert(len(w.a.es) == 0, "a failed pull audits nothing")
		// everything taken is delivered again after its deadline
		for _, e := range w.Es {
			if e.Queue == "q" && taken[e.ID] {
				e.State, e.Until = hcache.Processing, w.Now+d
			}
		}
		w.verifyAll("q", "other")
		return
	}
	nd.Assert(err == nil, "a pull works")
	var ms []message.Message
	if got != nil {
		ms = *got
	}
	seen := map[string]bool{}
	for i, m := range ms {
		nd.Assert(m.Queue == "q" && !seen[m.ID], "a pull returns messages of its queue once")
		seen[m.ID] = true
		x := w.doc("q", m.ID)
		nd.Assert(x != nil && taken[m.ID], "a pull returns stored messages taken from the cache")
		nd.Assert(m.StringPayload == x.payload && m.Score == x.score, "a pull returns the stored message")
		if i > 0 {
			nd.Assert(ms[i-1].Score <= m.Score, "a pull returns messages by ascending score")
		}
	}
	// taken messages are exactly the returned ones; the missing ones are gone from the cache
	out := int64(len(ms))
	for i := 0; i < k; i++ {
		id := names[i]
		e := w.Find("q", id)
		miss := w.audited(audit.MISSING_STORAGE, "q", id)
		if kind[id] == missing {
			nd.Assert(!seen[id], "a missing message is not returned")
			if miss > 0 {
				nd.Assert(miss == 1, "a missing message is audited once")
				out++
				if failedRemove && w.f.failed != nil {
					if taken[id] {
						e.State, e.Until = hcache.Processing, w.Now+d
						continue
					}
				} else {
					nd.Assert(!taken[id], "a missing message is dropped from the cache")
				}
				w.drop("q", id, false, true)
			} else {
				nd.Assert(!taken[id], "a missing message is not left with a consumer")
			}
			continue
		}
		nd.Assert(miss == 0, "only missing messages are audited as missing")
		nd.Assert(taken[id] == seen[id], "a pull returns every stored message taken from the cache")
		if taken[id] {
			e.State, e.Until = hcache.Processing, w.Now+d
		}
	}
	nd.Assert(out == n || out == int64(k) && n > out, "a pull takes as many messages as asked for")
	w.verifyAll("q", "other")
}

// an empty queue
func VH_P13_Empty() {
	w := newWorld()
	w.Tick()
	w.store("other", "a")
	w.Add("other", "a", hcache.Available)
	w.store("q", "b")
	w.Add("q", "b", []int{hcache.Processing, hcache.LockedAck, hcache.LockedNack}[nd.Choose("state", 3)])
	got, err := w.q.Pull(w.Ctx, "q", 2, nil, nil, 0)
	nd.Assert(err == nil && got == nil, "an empty queue gives nothing")
	nd.Assert(len(w.a.es) == 0, "nothing is audited")
	w.verifyAll("q", "other")
}
