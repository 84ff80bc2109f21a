package hredis

import (
	"context"
	"errors"
	"strings"

	"github.com/takenet/deckard/internal/config"
	"github.com/takenet/deckard/internal/queue/cache"
	"github.com/takenet/deckard/internal/queue/message"
	"github.com/takenet/deckard/internal/queue/pool"
	"github.com/takenet/deckard/internal/zzverif/hcache"
	"github.com/takenet/deckard/internal/zzverif/nd"
)

var bg = context.Background()

func has(l []string, s string) int {
	n := 0
	for _, x := range l {
		if x == s {
			n++
		}
	}
	return n
}

func position(l []string, s string) int {
	for i, x := range l {
		if x == s {
			return i
		}
	}
	return -1
}

// starts is what a pattern of a name and a star selects.
func starts(pattern, q string) bool {
	if strings.HasSuffix(pattern, "*") {
		return strings.HasPrefix(q, pattern[:len(pattern)-1])
	}
	return q == pattern
}

var listed = []string{"a", "ab", "b:tmp", "a:lock_ack", "b", "a::b", "c:lock_nack:score"}

// put brings one message of a queue into the wanted state.
func put(c cache.Cache, q string, st int) {
	ids, err := c.Insert(bg, q, &message.Message{ID: "m", Queue: q, Score: 5})
	nd.Assert(err == nil && len(ids) == 1, "setup: insert")
	if st == hcache.Available {
		return
	}
	ids, err = c.PullMessages(bg, q, 1, nil, nil, 10)
	nd.Assert(err == nil && len(ids) == 1, "setup: pull")
	if st == hcache.Processing {
		return
	}
	k := cache.LOCK_ACK
	if st == hcache.LockedNack {
		k = cache.LOCK_NACK
	}
	ok, err := c.LockMessage(bg, &message.Message{ID: "m", Queue: q, LockMs: 10, Score: 7}, k)
	nd.Assert(err == nil && ok, "setup: lock")
}

var states = []int{hcache.Available, hcache.Processing, hcache.LockedAck, hcache.LockedNack}
var poolsOf = []pool.PoolType{pool.PRIMARY_POOL, pool.PROCESSING_POOL, pool.LOCK_ACK_POOL, pool.LOCK_NACK_POOL}

// foreign fills the servers with keys of others.
func foreign(n *Net) []string {
	keys := []string{"x", "deckard_v2:queue:{a}", "other:deckard_v1:queue:{a}", "deckard_v1x:{a}", "deckard_v1"}
	for i, k := range keys {
		n.Shards[n.home(k)].put(k)
		if i%2 == 0 {
			n.Shards[n.home(k)].Keys[k].str = "v"
		} else {
			n.Shards[n.home(k)].Keys[k].zset = []member{{"m", 1}}
		}
	}
	return keys
}

func (n *Net) home(k string) int {
	i, r := n.route("get", []any{"get", k})
	if i == nil {
		panic(r)
	}
	for j := range n.Shards {
		if n.Shards[j] == i {
			return j
		}
	}
	return 0
}

// listings of each state, whatever the pages the servers reply with, on one node or two
func VH_P20_List() {
	shards := 1 + nd.Choose("shards", 2)
	c, n := Connect(shards)
	foreign(n)
	listed := listed
	if !nd.Thorough() {
		listed = listed[:4]
	}
	q1 := listed[nd.Choose("q1", len(listed))]
	q2 := listed[(position(listed, q1)+1+nd.Choose("q2", 2))%len(listed)]
	i1 := nd.Choose("s1", 4)
	i2 := (i1 + nd.Choose("s2", 2)) % 4
	want := (i1 + nd.Choose("pool", 2)) % 4
	put(c, q1, states[i1])
	put(c, q2, states[i2])
	nd.Assert(c.Set(bg, "RECOVERY", "1") == nil, "a key is set")
	pattern := []string{"*", "a*", "b"}[nd.Choose("pattern", 3)]
	for _, s := range n.Shards {
		s.Pages = pattern == "*"
	}
	got, err := c.ListQueues(bg, pattern, poolsOf[want])
	nd.Assert(err == nil, "listing reports no error")
	w := 0
	if i1 == want && starts(pattern, q1) {
		nd.Assert(has(got, q1) == 1, "a queue with messages in the state is listed once")
		w++
	}
	if i2 == want && starts(pattern, q2) {
		nd.Assert(has(got, q2) == 1, "a queue with messages in the state is listed once")
		w++
	}
	nd.Assert(len(got) == w, "no other queue is listed")
	nd.Cover("end")
}

// a flush deletes everything of this instance and nothing else
func VH_P20_Flush() {
	shards := 1 + nd.Choose("shards", 2)
	c, n := Connect(shards)
	keep := foreign(n)
	s := nd.Choose("s", 4)
	put(c, []string{"a0", "a:tmp", "b::c"}[nd.Choose("q", 3)], states[s])
	put(c, "a1", states[(s+nd.Choose("s2", 2))%4])
	nd.Assert(c.Set(bg, "RECOVERY", "1") == nil, "a key is set")
	for _, s := range n.Shards {
		s.Pages = true
	}
	c.Flush(bg)
	left := 0
	for _, s := range n.Shards {
		left += len(s.order)
	}
	for _, k := range keep {
		nd.Assert(n.Shards[n.home(k)].Keys[k] != nil, "a flush leaves the keys of others alone")
	}
	nd.Assert(left == len(keep), "a flush deletes every key of the cache")
	v, err := c.Get(bg, "RECOVERY")
	nd.Assert(err == nil && v == "", "nothing is remembered after a flush")
	put(c, "a", hcache.Available)
	nd.Cover("end")
}

// two caches with different prefixes on one server do not see each other
func VH_P20_Prefix() {
	prefixes := []string{"deckard_v1", "x", "x:", "x:y", "x*", "?", "[x]", "x\\", "xy"}
	norm := func(p string) string { return strings.Trim(p, ":") }
	i := nd.Choose("p1", len(prefixes))
	j := nd.Choose("p2", len(prefixes))
	// a prefix within the other's ("x:y" in "x") is part of it
	nd.Assume(!within1(norm(prefixes[i]), norm(prefixes[j])) && !within1(norm(prefixes[j]), norm(prefixes[i])))
	config.CachePrefix.Set(prefixes[i])
	c1, n := Connect(1)
	config.CachePrefix.Set(prefixes[j])
	config.CacheUri.Set("redis://localhost:6379/0")
	c2, err := cache.NewRedisCache(bg)
	nd.Assert(err == nil, "a second cache connects")
	_ = n
	st := states[nd.Choose("state", 4)]
	put(c1, "a", st)
	put(c2, "b", st)
	nd.Assert(c1.Set(bg, "k", "1") == nil && c2.Set(bg, "k", "2") == nil, "keys are set")
	got, err := c2.ListQueues(bg, "*", poolsOf[stateIndex(st)])
	nd.Assert(err == nil && len(got) == 1 && got[0] == "b", "a cache lists its own queues only")
	c1.Flush(bg)
	got, err = c1.ListQueues(bg, "*", poolsOf[stateIndex(st)])
	nd.Assert(err == nil && len(got) == 0, "a flushed cache lists no queue")
	got, err = c2.ListQueues(bg, "*", poolsOf[stateIndex(st)])
	nd.Assert(err == nil && len(got) == 1 && got[0] == "b", "the flush of a cache leaves the others alone")
	v, err := c1.Get(bg, "k")
	nd.Assert(err == nil && v == "", "a flushed cache has no keys")
	v, err = c2.Get(bg, "k")
	nd.Assert(err == nil && v == "2", "the flush of a cache leaves the keys of others alone")
}

func within1(p, q string) bool { return strings.HasPrefix(q+":", p+":") }

func stateIndex(st int) int {
	for i := range states {
		if states[i] == st {
			return i
		}
	}
	return -1
}

// without a prefix, or one of separators only, the documented default is used
func VH_P20_DefaultPrefix() {
	c1, _ := Connect(1)
	put(c1, "a", hcache.Available)
	config.CachePrefix.Set([]string{"", " ", ":", "::", " : ", "deckard_v1:"}[nd.Choose("prefix", 6)])
	c2, err := cache.NewRedisCache(bg)
	nd.Assert(err == nil, "a second cache connects")
	got, err := c2.ListQueues(bg, "*", pool.PRIMARY_POOL)
	nd.Assert(err == nil && len(got) == 1 && got[0] == "a", "the default prefix is used")
}

// names with braces are rejected by every operation, without effect
func VH_P20_Braces() {
	c, n := Connect(1)
	q := nd.Bytes("queue", 1+nd.Choose("len", 3))
	bad := false
	for i := 0; i < len(q); i++ {
		bad = nd.Or(bad, q[i] == '{', q[i] == '}')
	}
	nd.Assume(bad)
	var err error
	m := &message.Message{ID: "a", Queue: q, Score: 1, LockMs: 1}
	switch nd.Choose("op", 8) {
	case 0:
		_, err = c.Insert(bg, q, m)
	case 1:
		_, err = c.PullMessages(bg, q, 1, nil, nil, 0)
	case 2:
		_, err = c.MakeAvailable(bg, m)
	case 3:
		_, err = c.LockMessage(bg, m, cache.LOCK_ACK)
	case 4:
		_, err = c.UnlockMessages(bg, q, cache.LOCK_ACK)
	case 5:
		_, err = c.TimeoutMessages(bg, q)
	case 6:
		_, err = c.Remove(bg, q, "a")
	case 7:
		_, err = c.IsProcessing(bg, q, "a")
	}
	nd.Assert(err != nil, "a queue name with braces is rejected")
	nd.Assert(len(n.Shards[0].order) == 0, "a rejected operation has no effect")
}

// a server that fails at any command: the operation reports it and has no effect, and the next
// one works
func VH_P20_Failure() {
	var n *Net
	hcache.New = func() cache.Cache {
		c, x := Connect(1 + nd.Choose("shards", 2))
		n = x
		return c
	}
	hcache.Redis = true
	w := hcache.NewWorld()
	w.Tick()
	st := states[nd.Choose("state", 4)]
	w.Add("q", "a", st)
	w.Tick()
	at := nd.Choose("at", 3)
	calls := 0
	failed := false
	down := nd.Choose("down", 2) == 1 // from then on, or once
	n.Fail = func(cmd string) error {
		calls++
		if calls-1 == at || down && calls-1 > at {
			failed = true
			return errors.New("connection reset")
		}
		return nil
	}
	c := w.C
	m := &message.Message{ID: "a", Queue: "q", Score: 3, LockMs: 1000}
	var err error
	op := nd.Choose("op", 11)
	if st != hcache.Processing && (op == 2 || op == 3) {
		return
	}
	switch op {
	case 0:
		_, err = c.Insert(bg, "q", &message.Message{ID: "b", Queue: "q", Score: 1})
	case 1:
		var got []string
		got, err = c.PullMessages(bg, "q", 1, nil, nil, 1000)
		nd.Assert(err == nil || len(got) == 0, "a failed pull returns nothing")
	case 2:
		var ok bool
		ok, err = c.MakeAvailable(bg, m)
		nd.Assert(err == nil || !ok, "a failed operation does not claim an effect")
	case 3:
		var ok bool
		ok, err = c.LockMessage(bg, m, cache.LOCK_ACK)
		nd.Assert(err == nil || !ok, "a failed operation does not claim an effect")
	case 4:
		_, err = c.UnlockMessages(bg, "q", cache.LOCK_NACK)
	case 5:
		_, err = c.TimeoutMessages(bg, "q")
	case 6:
		_, err = c.Remove(bg, "q", "a")
	case 7:
		_, err = c.IsProcessing(bg, "q", "a")
	case 8:
		_, err = c.ListQueues(bg, "*", pool.PRIMARY_POOL)
	case 9:
		_, err = c.Get(bg, "k")
	case 10:
		err = c.Set(bg, "k", "v")
	}
	if !failed {
		return
	}
	nd.Assert(err != nil, "a failure of the server is reported")
	n.Fail = nil
	v, err := c.Get(bg, "k")
	nd.Assert(err == nil && v == "", "a failed operation has no effect")
	w.Verify("q")
	nd.Cover("end")
}

// batches larger than one request to the server
func VH_P20_LargeBatch() {
	c, _ := Connect(1)
	k := 2000 + nd.Choose("extra", 3) - 1
	ms := make([]*message.Message, k)
	same := &message.Message{ID: "same", Queue: "q", Score: 9}
	for i := range ms {
		ms[i] = same
	}
	a, b := &message.Message{ID: "a", Queue: "q", Score: 1}, &message.Message{ID: "b", Queue: "q", Score: 2}
	ms[0], ms[k-1] = a, b
	x := nd.Choose("held", 2)
	if x == 1 {
		put(c, "q", hcache.Available)
		ms[k/2] = &message.Message{ID: "m", Queue: "q", Score: 1}
	}
	got, err := c.Insert(bg, "q", ms...)
	nd.Assert(err == nil, "a large batch is inserted")
	nd.Assert(has(got, "a") == 1 && has(got, "b") == 1 && has(got, "same") > 0 && has(got, "m") == 0, "a large batch is inserted completely")
	got, err = c.PullMessages(bg, "q", 1000, nil, nil, 0)
	nd.Assert(err == nil && len(got) == 3+x && got[0] == "a" && got[1] == "b" && got[2+x] == "same", "a large batch is available")
	rm := make([]string, 4000+nd.Choose("more", 3)-1)
	for i := range rm {
		rm[i] = "none"
	}
	rm[0], rm[len(rm)-1] = "b", "a"
	cnt, err := c.Remove(bg, "q", rm...)
	nd.Assert(err == nil && cnt == 2, "a large removal removes its messages")
	p1, e1 := c.IsProcessing(bg, "q", "a")
	p2, e2 := c.IsProcessing(bg, "q", "b")
	p3, e3 := c.IsProcessing(bg, "q", "same")
	nd.Assert(e1 == nil && e2 == nil && e3 == nil && !p1 && !p2 && p3, "a large removal removes exactly its messages")
}

// the server forgets the scripts at any time
func VH_P20_ScriptsForgotten() {
	c, n := Connect(1)
	put(c, "q", hcache.Processing)
	n.Shards[0].scripts = map[string]bool{}
	ok, err := c.MakeAvailable(bg, &message.Message{ID: "m", Queue: "q", Score: 2})
	nd.Assert(err == nil && ok, "scripts the server has forgotten are sent again")
	n.Shards[0].scripts = map[string]bool{}
	got, err := c.PullMessages(bg, "q", 1, nil, nil, 0)
	nd.Assert(err == nil && len(got) == 1, "scripts the server has forgotten are sent again")
}
