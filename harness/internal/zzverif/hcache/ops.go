package hcache

import (
	"github.com/takenet/deckard/internal/queue/cache"
	"github.com/takenet/deckard/internal/queue/message"
	"github.com/takenet/deckard/internal/queue/pool"
	"github.com/takenet/deckard/internal/zzverif/nd"
)

func stateOf(kind cache.LockType) int {
	if kind == cache.LOCK_NACK {
		return LockedNack
	}
	return LockedAck
}

// opInsert adds a batch. Messages of ids that are in no state become Available.
func (w *World) opInsert(queue string, batch []*message.Message) {
	got, err := w.C.Insert(w.Ctx, queue, batch...)
	bad := false
	for _, m := range batch {
		bad = bad || m.Queue != queue
	}
	if bad {
		nd.Assert(err != nil, "a batch with a message of another queue is rejected")
		return
	}
	nd.Assert(err == nil, "insert reports no error")
	for _, id := range got {
		in := false
		for _, m := range batch {
			in = in || m.ID == id
		}
		nd.Assert(in, "insert reports only messages of the batch")
	}
	done := map[string]bool{}
	for _, m := range batch {
		if done[m.ID] {
			continue
		}
		done[m.ID] = true
		if w.Find(queue, m.ID) != nil {
			nd.Assert(index(got, m.ID) < 0, "a message already held is not reported as an insertion")
			continue
		}
		nd.Assert(index(got, m.ID) >= 0, "a new message is reported as an insertion")
		e := &Entry{Queue: queue, ID: m.ID, State: Available, Score: m.Score}
		for _, x := range batch { // the same identifier again in the batch: the last one counts
			if x.ID == m.ID {
				e.Score = x.Score
			}
		}
		w.Es = append(w.Es, e)
	}
}

func (w *World) opPull(queue string, n int64, lo, hi *float64, deadline int64) []string {
	got, err := w.C.PullMessages(w.Ctx, queue, n, lo, hi, deadline)
	w.checkPull(queue, n, lo, hi, got, err)
	if deadline == 0 {
		deadline = 300000
	}
	w.Pulled(queue, got, deadline)
	return got
}

func (w *World) opMakeAvailable(queue, id string, s float64) bool {
	ok, err := w.C.MakeAvailable(w.Ctx, &message.Message{ID: id, Queue: queue, Score: s})
	if queue == "" {
		nd.Assert(err != nil && !ok, "a message without queue is rejected")
		return false
	}
	nd.Assert(err == nil, "making available reports no error")
	e := w.Find(queue, id)
	nd.Assert(ok == (e != nil && e.State == Processing), "exactly processing messages are made available")
	if ok && e != nil {
		e.State, e.Score = Available, s
	}
	return ok
}

func (w *World) opLock(queue, id string, s float64, ms int64, kind cache.LockType) bool {
	ok, err := w.C.LockMessage(w.Ctx, &message.Message{ID: id, Queue: queue, Score: s, LockMs: ms}, kind)
	if queue == "" || ms <= 0 {
		nd.Assert(err != nil && !ok, "a lock without queue or time is rejected")
		return false
	}
	nd.Assert(err == nil, "locking reports no error")
	e := w.Find(queue, id)
	nd.Assert(ok == (e != nil && e.State == Processing), "exactly processing messages are locked")
	if ok && e != nil {
		e.State, e.Score, e.Until = stateOf(kind), s, w.Now+ms
	}
	return ok
}

func (w *World) opUnlock(queue string, kind cache.LockType) []string {
	got, err := w.C.UnlockMessages(w.Ctx, queue, kind)
	nd.Assert(err == nil, "unlocking reports no error")
	nd.Assert(distinct(got), "an unlocked message is reported once")
	n := 0
	for _, e := range w.Es {
		if e.Queue != queue {
			continue
		}
		in := index(got, e.ID) >= 0
		if e.State != stateOf(kind) {
			nd.Assert(!in, "only messages locked with this kind are unlocked")
			continue
		}
		nd.Assert(nd.Iff(in, e.Until <= w.Now), "exactly the messages whose lock has passed are unlocked")
		if in {
			n++
			def := 0.0
			if kind == cache.LOCK_ACK {
				def = float64(w.Now)
			}
			e.Score = nd.IteFloat(e.Score == -1, def, e.Score)
			e.State = Available
		}
	}
	nd.Assert(n == len(got), "only messages of this queue are unlocked")
	return got
}

func (w *World) opTimeout(queue string) []string {
	got, err := w.C.TimeoutMessages(w.Ctx, queue)
	nd.Assert(err == nil, "a timeout pass reports no error")
	nd.Assert(distinct(got), "a timed out message is reported once")
	n := 0
	for _, e := range w.Es {
		if e.Queue != queue {
			continue
		}
		in := index(got, e.ID) >= 0
		if e.State != Processing {
			nd.Assert(!in, "only processing messages time out")
			continue
		}
		nd.Assert(nd.Iff(in, e.Until <= w.Now), "exactly the messages whose deadline has passed time out")
		if in {
			n++
			e.State, e.Score = Available, 0
		}
	}
	nd.Assert(n == len(got), "only messages of this queue time out")
	return got
}

func (w *World) opRemove(queue string, ids ...string) {
	cnt, err := w.C.Remove(w.Ctx, queue, ids...)
	nd.Assert(err == nil, "removing reports no error")
	n := int64(0)
	scored := int64(0)
	keep := w.Es[:0]
	for _, e := range w.Es {
		if e.Queue == queue && index(ids, e.ID) >= 0 {
			n++
			if e.State == LockedAck || e.State == LockedNack {
				scored += nd.B2I(e.Score != -1)
			}
			continue
		}
		keep = append(keep, e)
	}
	w.Es = keep
	if Redis && !Counted {
		nd.Assert(nd.Or(cnt == n, cnt == n+scored), "each removed message is counted once")
		return
	}
	// with Redis, a message locked with a score is counted twice
	nd.AssertKnown(cnt == n, "each removed message is counted once", "redis-lock-score-count", nd.And(Redis, scored > 0, cnt == n+scored))
}

var pools = []pool.PoolType{pool.PRIMARY_POOL, pool.PROCESSING_POOL, pool.LOCK_ACK_POOL, pool.LOCK_NACK_POOL}
var poolState = []int{Available, Processing, LockedAck, LockedNack}

// opList checks the listing of one state over the given queues.
func (w *World) opList(queues ...string) {
	for i, p := range pools {
		got, err := w.C.ListQueues(w.Ctx, "*", p)
		nd.Assert(err == nil, "listing reports no error")
		n := 0
		for _, q := range queues {
			has := w.Count(q, poolState[i]) > 0
			nd.Assert((index(got, q) >= 0) == has, "exactly the queues with messages in a state are listed for it")
			if has {
				n++
			}
		}
		nd.Assert(len(got) == n && distinct(got), "no other queue is listed")
	}
}

// lockScore is a valid score or none.
func lockScore(name string) float64 {
	return nd.IteFloat(nd.Bool("no"+name), -1, validScore(name))
}

// step performs one arbitrary operation with arbitrary arguments on queue q.
func (w *World) step(tag, q string, names []string) {
	target := names[0]
	pick := func(k int) { target = names[nd.Choose(tag+"id", k)] }
	switch nd.Choose(tag+"op", 8) {
	case 0:
		pick(len(names))
		w.opInsert(q, []*message.Message{{ID: target, Queue: q, Score: validScore(tag + "s")}})
	case 1:
		w.opPull(q, int64(1+nd.Choose(tag+"n", 2)), bound(tag+"min"), nil, nd.Int64(tag+"deadline", 0, century))
	case 2:
		pick(len(names))
		w.opMakeAvailable(q, target, validScore(tag+"s"))
	case 3:
		pick(len(names))
		k := cache.LOCK_ACK
		if nd.Choose(tag+"nack", 2) == 1 {
			k = cache.LOCK_NACK
		}
		w.opLock(q, target, lockScore(tag+"s"), nd.Int64(tag+"lock", -5, century), k)
	case 4:
		k := cache.LOCK_ACK
		if nd.Choose(tag+"nack", 2) == 1 {
			k = cache.LOCK_NACK
		}
		w.opUnlock(q, k)
	case 5:
		w.opTimeout(q)
	case 6:
		pick(len(names))
		w.opRemove(q, target)
	case 7:
		w.opList(w.queues...)
	}
}

var all = []int{Processing, LockedAck, LockedNack, Available}

// one arbitrary operation from an arbitrary state
func VH_P03_Step() {
	w := NewWorld()
	w.Tick()
	n := nd.Choose("size", 3)
	w.Fill("q", ids[:n], all...)
	w.Tick()
	w.step("1.", "q", ids[:3])
	w.Verify("q")
	nd.Cover("end")
}

// three messages, an operation that moves only one kind
func VH_P03_Three_T() {
	w := NewWorld()
	w.Tick()
	w.Fill("q", ids[:3], all...)
	w.Tick()
	w.step("1.", "q", ids[:4])
	w.Verify("q")
}

// two arbitrary operations in a row
func VH_P03_TwoSteps() {
	w := NewWorld()
	w.Tick()
	n := 1
	if nd.Thorough() {
		n = nd.Choose("size", 3)
	}
	w.Fill("q", ids[:n], all...)
	w.Tick()
	w.step("1.", "q", ids[:2])
	w.Tick()
	w.step("2.", "q", ids[:2])
	w.Verify("q")
	nd.Cover("end")
}

// a message once handed out is not handed out again before it comes back
func VH_P03_NotTwice() {
	w := NewWorld()
	w.Tick()
	w.Fill("q", ids[:2], Available)
	a := w.opPull("q", 1, bound("min1"), nil, nd.Int64("d1", 0, century))
	w.Tick()
	b := w.opPull("q", 2, bound("min2"), bound("max2"), nd.Int64("d2", 0, century))
	for _, id := range a {
		nd.Assert(index(b, id) < 0, "a processing message is not handed out again")
	}
	w.Tick()
	w.opTimeout("q")
	w.opPull("q", 2, nil, nil, 0)
	w.Verify("q")
}

// flush forgets everything
func VH_P03_Flush() {
	w := NewWorld()
	w.Tick()
	w.Fill("q", ids[:2], all...)
	w.C.Flush(w.Ctx)
	w.Es = nil
	w.opList("q")
	w.opInsert("q", []*message.Message{{ID: "a", Queue: "q", Score: 1}, {ID: "b", Queue: "q", Score: 2}})
	w.Verify("q")
}

// a timeout pass over any set of processing messages
func VH_P04_Timeout() {
	w := NewWorld()
	w.Tick()
	k := 3
	if nd.Thorough() {
		k = 4
	}
	n := 1 + nd.Choose("size", k)
	w.Fill("q", ids[:n], Processing, Available)
	w.Tick()
	w.opTimeout("q")
	w.Verify("q")
	nd.Cover("end")
}

// the default deadline, several pulls at different times, other queues and locks untouched
func VH_P04_Deadline() {
	w := NewWorld()
	w.Tick()
	w.Add("q", "a", Available)
	w.Add("q", "b", Available)
	w.opPull("q", 1, nil, nil, nd.Int64("d1", 0, century))
	w.Tick()
	w.opPull("q", 1, nil, nil, nd.Int64("d2", 0, century))
	w.Tick()
	w.opTimeout("q")
	w.Tick()
	w.opTimeout("q")
	w.Verify("q")
}

func VH_P04_Others() {
	w := NewWorld()
	w.Tick()
	w.Fill("q", ids[:2], Processing, LockedAck, LockedNack, Available)
	w.Add("other", "a", Processing)
	w.Tick()
	w.opTimeout("q")
	w.Verify("q", "other")
}

// timed out messages come out before everything that is not of the highest priority
func VH_P04_Priority() {
	w := NewWorld()
	w.Tick()
	w.Add("q", "a", Processing)
	w.Add("q", "b", Processing)
	w.Add("q", "c", Available)
	w.Tick()
	got := w.opTimeout("q")
	next, err := w.C.PullMessages(w.Ctx, "q", int64(len(got)), nil, nil, 0)
	nd.Assert(err == nil, "pull works")
	c := w.Find("q", "c")
	nd.Assert(nd.Or(index(next, "c") < 0, c.Score == 0), "timed out messages come first")
}

// an unlock pass over any set of locked messages
func VH_P05_Unlock() {
	w := NewWorld()
	w.Tick()
	k := 3
	if nd.Thorough() {
		k = 4
	}
	n := 1 + nd.Choose("size", k)
	st := []int{LockedAck, LockedNack}[nd.Choose("kind", 2)]
	w.Fill("q", ids[:n], st, Available)
	w.Tick()
	kind := cache.LOCK_ACK
	if st == LockedNack {
		kind = cache.LOCK_NACK
	}
	w.opUnlock("q", kind)
	w.Verify("q")
	nd.Cover("end")
}

// other queues and the other lock kind keep their messages
func VH_P05_Others() {
	w := NewWorld()
	w.Tick()
	w.Fill("q", ids[:2], Processing, LockedAck, LockedNack, Available)
	st := []int{LockedAck, LockedNack, Processing}[nd.Choose("otherstate", 3)]
	w.Add("other", "a", st)
	w.Tick()
	kind := []cache.LockType{cache.LOCK_ACK, cache.LOCK_NACK}[nd.Choose("kind", 2)]
	w.opUnlock("q", kind)
	w.Verify("q", "other")
}

// two passes: what the first leaves, the second releases when its time has come
func VH_P05_TwoPasses() {
	w := NewWorld()
	w.Tick()
	st := []int{LockedAck, LockedNack}[nd.Choose("kind", 2)]
	kind := cache.LOCK_ACK
	if st == LockedNack {
		kind = cache.LOCK_NACK
	}
	w.Add("q", "a", st)
	w.Tick()
	w.Add("q", "b", st)
	w.Tick()
	w.opUnlock("q", kind)
	w.Tick()
	w.opUnlock("q", kind)
	w.Verify("q")
}

// locking: any message state, any lock time and score
func VH_P05_Lock() {
	w := NewWorld()
	w.Tick()
	w.Fill("q", ids[:2], all...)
	w.Tick()
	kind := []cache.LockType{cache.LOCK_ACK, cache.LOCK_NACK}[nd.Choose("kind", 2)]
	q := []string{"q", "", "none"}[nd.Choose("queue", 3)]
	w.opLock(q, ids[nd.Choose("id", 3)], lockScore("s"), nd.Int64("ms", -century, century), kind)
	w.Tick()
	w.opUnlock("q", kind)
	w.Verify("q")
}

// inserting any batch into any state
func VH_P06_Insert() {
	w := NewWorld()
	w.Tick()
	n := nd.Choose("size", 3)
	w.Fill("q", ids[:n], all...)
	w.Tick()
	k := 1 + nd.Choose("batch", 2)
	var batch []*message.Message
	for i := 0; i < k; i++ {
		batch = append(batch, &message.Message{ID: ids[nd.Choose("id", n+1)], Queue: "q", Score: validScore("s")})
	}
	w.opInsert("q", batch)
	w.Verify("q")
	nd.Cover("end")
}

// batches of three with repeated identifiers
func VH_P06_Batch() {
	w := NewWorld()
	w.Tick()
	w.Fill("q", ids[:1], all...)
	k := 3
	if nd.Thorough() {
		k = 4
	}
	var batch []*message.Message
	for i := 0; i < k; i++ {
		batch = append(batch, &message.Message{ID: ids[nd.Choose("id", 3)], Queue: "q", Score: validScore("s")})
	}
	w.opInsert("q", batch)
	w.Verify("q")
}

// a batch with a message of another queue inserts nothing; other queues do not matter
func VH_P06_Queues() {
	w := NewWorld()
	w.Tick()
	w.Fill("other", ids[:1], all...)
	var batch []*message.Message
	for i := 0; i < 2; i++ {
		q := []string{"q", "other"}[nd.Choose("queue", 2)]
		batch = append(batch, &message.Message{ID: ids[nd.Choose("id", 2)], Queue: q, Score: validScore("s")})
	}
	w.opInsert("q", batch)
	w.opInsert("q", nil)
	w.Verify("q", "other")
}

// removing any list of identifiers from any state
func VH_P07_Remove() {
	w := NewWorld()
	w.Tick()
	n := nd.Choose("size", 4)
	w.Fill("q", ids[:n], all...)
	w.Add("other", "a", Available)
	w.Tick()
	k := nd.Choose("count", 3)
	if n == 3 {
		k = 2
	}
	var l []string
	for i := 0; i < k; i++ {
		l = append(l, ids[nd.Choose("id", n+1)])
	}
	w.opRemove("q", l...)
	w.Verify("q", "other")
	nd.Cover("end")
}

// a removed message does not come back, and can be added again
func VH_P07_Gone() {
	w := NewWorld()
	w.Tick()
	w.Fill("q", ids[:2], all...)
	w.Tick()
	w.opRemove("q", "a")
	w.Tick()
	w.opTimeout("q")
	w.opUnlock("q", cache.LOCK_ACK)
	w.opUnlock("q", cache.LOCK_NACK)
	w.opPull("q", 3, nil, nil, 0)
	w.opInsert("q", []*message.Message{{ID: "a", Queue: "q", Score: validScore("s")}})
	w.Verify("q")
}

// queues with arbitrary different names do not influence each other
func VH_P08_CacheQueues() {
	w := NewWorld()
	w.Tick()
	n1 := nd.Bytes("q1", 1+nd.Choose("l1", bytes(3)))
	n2 := nd.Bytes("q2", 1+nd.Choose("l2", bytes(3)))
	nd.Assume(!nd.StrEq(n1, n2))
	named(n1)
	named(n2)
	s1 := nd.Choose("s1", 4)
	w.Add(n1, "a", all[s1])
	w.Add(n2, "a", all[second(s1)])
	w.queues = []string{n1, n2}
	w.Tick()
	w.step("1.", n1, ids[:1])
	w.Verify(n1, n2)
	nd.Cover("end")
}

// second is the state of a second message: any, or in the small checks that of the first.
func second(first int) int {
	if Small && !nd.Thorough() {
		return first
	}
	return nd.Choose("s2", 4)
}

// bytes bounds the length of names.
func bytes(k int) int {
	if Small && nd.Thorough() {
		return 2
	}
	if Small {
		return 1
	}
	return k
}

// suffixes that the cache itself may use
var reserved = []string{"a", "a:tmp", "a:lock_ack", "a:lock_nack", "a:lock_ack:score", ":tmp", "a::b", "a:queue:a", "a*", "?", "[a]", "\\", "*"}

// queues whose names look like something else do not influence each other
func VH_P08_CacheReserved() {
	w := NewWorld()
	w.Tick()
	i := nd.Choose("q1", len(reserved))
	j := 0
	if !Small || nd.Thorough() {
		j = nd.Choose("q2", len(reserved)-1)
	}
	if j >= i {
		j++
	}
	n1, n2 := reserved[i], reserved[j]
	st := all[nd.Choose("state", 4)]
	w.Add(n1, "a", st)
	w.Add(n2, "a", st)
	w.queues = []string{n1, n2}
	w.Tick()
	switch nd.Choose("op", 3) {
	case 0:
		w.opList(n1, n2)
	case 1:
		w.opRemove(n1, "a")
	case 2:
		w.opTimeout(n1)
		w.opUnlock(n1, cache.LOCK_ACK)
		w.opUnlock(n1, cache.LOCK_NACK)
	}
	w.Verify(n1, n2)
}

// named restricts a queue name to those the cache accepts.
func named(q string) {
	if !Redis {
		return
	}
	for i := 0; i < len(q); i++ {
		nd.Assume(nd.And(q[i] != '{', q[i] != '}'))
	}
}

// different identifiers are different messages
func VH_P08_CacheIDs() {
	w := NewWorld()
	w.Tick()
	n1 := nd.Bytes("id1", 1+nd.Choose("l1", bytes(2)))
	n2 := nd.Bytes("id2", 1+nd.Choose("l2", bytes(2)))
	nd.Assume(!nd.StrEq(n1, n2))
	s1 := nd.Choose("s1", 4)
	s2 := second(s1)
	if s2 < s1 { // available messages last
		s1, s2 = s2, s1
	}
	w.Add("q", n1, all[s1])
	w.Add("q", n2, all[s2])
	w.Tick()
	w.step("1.", "q", []string{n1})
	w.Verify("q")
}

func VH_P08_CacheKeys() {
	w := NewWorld()
	k1, k2 := nd.Bytes("k1", nd.Choose("l1", 3)), nd.Bytes("k2", nd.Choose("l2", 3))
	nd.Assume(!nd.StrEq(k1, k2))
	nd.Assert(w.C.Set(w.Ctx, k1, "x") == nil && w.C.Set(w.Ctx, k2, "y") == nil, "keys can be set")
	v, err := w.C.Get(w.Ctx, k1)
	nd.Assert(err == nil && v == "x", "a key keeps its value")
	v, err = w.C.Get(w.Ctx, k2)
	nd.Assert(err == nil && v == "y", "a key keeps its value")
}
