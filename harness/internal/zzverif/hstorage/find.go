package hstorage

import (
	"github.com/elliotchance/orderedmap/v2"
	"github.com/takenet/deckard/internal/queue/message"
	"github.com/takenet/deckard/internal/queue/storage"
	"github.com/takenet/deckard/internal/zzverif/nd"
)

var qs = []string{"q::1", "q::2", "r"}

// filter is an arbitrary filter together with what it selects.
type filter struct {
	f       *storage.InternalFilter
	matches func(d *doc) bool
	expiry  bool
}

func anyFilter(w *world, kinds int) filter {
	f := &storage.InternalFilter{}
	r := filter{f: f}
	switch nd.Choose("filter", kinds) {
	case 0:
		f.Queue = qs[nd.Choose("fqueue", 2)]
		r.matches = func(d *doc) bool { return d.queue == f.Queue }
	case 1:
		t, ms := instant("fexp")
		f.ExpiryDate = &t
		r.expiry = true
		r.matches = func(d *doc) bool { return d.exp <= ms }
	case 2:
		f.QueuePrefix = "q"
		r.matches = func(d *doc) bool { return d.prefix == "q" }
	case 3:
		ids := [][]string{{"a"}, {"b", "a"}, {"c", "x", "c"}, {}}[nd.Choose("fids", 4)]
		f.Ids = &ids
		f.Queue = "q::1"
		r.matches = func(d *doc) bool {
			in := len(ids) == 0
			for _, x := range ids {
				in = in || x == d.id
			}
			return in && d.queue == "q::1"
		}
	case 4:
		lo, hi := nd.Choose("gt", 4)-1, nd.Choose("lte", 4)
		if lo >= 0 {
			f.InternalIdBreakpointGt = w.internalID(lo)
		}
		if hi > 0 {
			f.InternalIdBreakpointLte = w.internalID(hi)
		}
		r.matches = func(d *doc) bool { return d.order > lo && (hi == 0 || d.order <= hi) }
	case 5:
		t, ms := instant("fexp")
		f.ExpiryDate = &t
		f.Queue = "q::1"
		r.expiry = true
		r.matches = func(d *doc) bool { return nd.And(d.queue == "q::1", d.exp <= ms) }
	case 6:
		return filter{f: nil, matches: func(*doc) bool { return true }}
	}
	return r
}

// key is one sort key: before says a must come before b, equal that this key does not decide.
type key struct {
	name          string
	before, equal func(a, b *doc) bool
}

var keys = []key{
	{"expiry_date", func(a, b *doc) bool { return a.exp < b.exp }, func(a, b *doc) bool { return a.exp == b.exp }},
	{"score", func(a, b *doc) bool { return a.score < b.score }, func(a, b *doc) bool { return a.score == b.score }},
	{"_id", func(a, b *doc) bool { return a.order < b.order }, func(a, b *doc) bool { return a.order == b.order }},
	{"last_usage", func(a, b *doc) bool { return a.used < b.used }, func(a, b *doc) bool { return a.used == b.used }},
}

// anySort is an arbitrary sort order of one or two keys.
func anySort(two bool) (*orderedmap.OrderedMap[string, int], func(a, b *doc) bool) {
	n := 1
	if two {
		n += nd.Choose("second", 2)
	}
	var ks []key
	var dir []int
	m := orderedmap.NewOrderedMap[string, int]()
	for i := 0; i < n; i++ {
		k := keys[nd.Choose("key", len(keys))]
		d := 1 - 2*nd.Choose("desc", 2)
		for _, x := range ks {
			nd.Assume(x.name != k.name)
		}
		m.Set(k.name, d)
		ks, dir = append(ks, k), append(dir, d)
	}
	return m, func(a, b *doc) bool { // a strictly before b, ties by insertion
		// the order of ties is the order of insertion, and unspecified in MongoDB
		r := useMongo || a.order < b.order
		for i := len(ks) - 1; i >= 0; i-- {
			k := ks[i]
			lt := k.before(a, b)
			if dir[i] < 0 {
				lt = k.before(b, a)
			}
			r = nd.Or(lt, nd.And(k.equal(a, b), r))
		}
		return r
	}
}

// check compares the result of a read with the contract.
func (w *world) check(f filter, before func(a, b *doc) bool, limit int64, got []message.Message) {
	nd.Assert(limit <= 0 || int64(len(got)) <= limit, "a read returns at most the limit")
	pos := make([]int, len(w.ds))
	for i := range pos {
		pos[i] = -1
	}
	for k, m := range got {
		hit := false
		for i, d := range w.ds {
			if d.queue == m.Queue && d.id == m.ID {
				nd.Assert(pos[i] < 0, "a read returns no message twice")
				pos[i] = k
				hit = true
			}
		}
		nd.Assert(hit, "a read returns stored messages only")
	}
	for i, d := range w.ds {
		want := f.matches(d)
		if !f.expiry {
			want = nd.And(want, !w.hidden(d))
		}
		if pos[i] >= 0 {
			nd.Assert(want, "a read returns matching messages only")
			w.same(d, got[pos[i]])
		} else if limit <= 0 || int64(len(got)) < limit {
			nd.Assert(!want, "a read below its limit returns all matching messages")
		}
		for j, e := range w.ds {
			if i == j || pos[i] < 0 {
				continue
			}
			if pos[j] > pos[i] {
				nd.Assert(before(d, e), "a read returns messages in the requested order")
			}
			if pos[j] < 0 {
				we := f.matches(e)
				if !f.expiry {
					we = nd.And(we, !w.hidden(e))
				}
				nd.Assert(nd.Implies(we, before(d, e)), "the limit cuts the ordered result")
			}
		}
	}
}

func (w *world) fill(n int, queues int) {
	for i := 0; i < n; i++ {
		w.add(qs[nd.Choose("queue", queues)], string(rune('a'+i)))
	}
}

// any filter, any sort by one key, any limit
func VH_P27_Find() {
	w := newWorld()
	w.tick()
	n := nd.Choose("size", 3)
	w.fill(n, 2)
	w.tick()
	f := anyFilter(w, 2)
	m, before := anySort(false)
	limit := int64(nd.Choose("limit", 3))
	got, err := w.s.Find(w.ctx, &storage.FindOptions{InternalFilter: f.f, Sort: m, Limit: limit})
	nd.Assert(err == nil, "a read works")
	nd.ObserveInt("n", int64(len(got)))
	w.check(f, before, limit, got)
	nd.Cover("end")
}

// every kind of filter
func VH_P27_Filters() {
	w := newWorld()
	w.tick()
	n := 2
	if nd.Thorough() {
		n += nd.Choose("size", 2)
	}
	w.mapOrder(false)
	w.fill(n, 3)
	w.tick()
	f := anyFilter(w, 7)
	limit := int64(nd.Choose("limit", 2))
	got, err := w.s.Find(w.ctx, &storage.FindOptions{InternalFilter: f.f, Sort: order("_id", 1), Limit: limit})
	nd.Assert(err == nil, "a read works")
	w.check(f, func(a, b *doc) bool { return a.order < b.order }, limit, got)
}

// three messages, the reads the program itself makes
func VH_P27_FindThree() {
	w := newWorld()
	w.tick()
	w.fill(3, 1)
	w.mapOrder(nd.Thorough())
	w.tick()
	f := anyFilter(w, 2)
	m, before := anySort(false)
	limit := int64(nd.Choose("limit", 3))
	got, err := w.s.Find(w.ctx, &storage.FindOptions{InternalFilter: f.f, Sort: m, Limit: limit})
	nd.Assert(err == nil, "a read works")
	w.check(f, before, limit, got)
}

// more messages than a small page, every limit, parts of the filter together
func VH_P27_Many() {
	w := newWorld()
	w.tick()
	n := 6
	for i := 0; i < n; i++ {
		w.add(qs[[]int{0, 1, 0, 2, 0, 0}[i]], string(rune('a'+i)))
	}
	w.mapOrder(false)
	for _, d := range w.ds {
		nd.Assume(nd.And(!d.timeless, d.exp > w.now+1000))
	}
	f := &storage.InternalFilter{}
	switch nd.Choose("which", 3) {
	case 1:
		f.Queue = "q::1"
	case 2:
		f.QueuePrefix = "q"
	}
	lo, hi := nd.Choose("gt", n+1)-1, nd.Choose("lte", n+1)
	if lo >= 0 {
		f.InternalIdBreakpointGt = w.internalID(lo)
	}
	if hi > 0 {
		f.InternalIdBreakpointLte = w.internalID(hi)
	}
	limit := int64(nd.Choose("limit", n+2))
	dir := 1 - 2*nd.Choose("desc", 2)
	got, err := w.s.Find(w.ctx, &storage.FindOptions{InternalFilter: f, Sort: order("_id", dir), Limit: limit})
	nd.Assert(err == nil, "a read works")
	var want []*doc
	for i := range w.ds {
		d := w.ds[i]
		if dir < 0 {
			d = w.ds[n-1-i]
		}
		if (f.Queue == "" || d.queue == f.Queue) && (f.QueuePrefix == "" || d.prefix == f.QueuePrefix) && d.order > lo && (hi == 0 || d.order <= hi) {
			want = append(want, d)
		}
	}
	if limit > 0 && int64(len(want)) > limit {
		want = want[:limit]
	}
	nd.Assert(len(got) == len(want), "a read returns the matching messages up to the limit")
	for i, d := range want {
		nd.Assert(got[i].ID == d.id && got[i].Queue == d.queue, "a read returns messages in the requested order")
		w.same(d, got[i])
	}
	nd.Cover("end")
}

// ties of the first key are decided by the second, then by insertion
func VH_P27_TwoKeys() {
	w := newWorld()
	w.tick()
	n := 2
	if nd.Thorough() {
		n = 3
	}
	for i := 0; i < n; i++ {
		w.add("q::1", string(rune('a'+i)))
		if nd.Choose("later", 2) == 1 {
			w.tick()
		}
	}
	f := filter{f: &storage.InternalFilter{Queue: "q::1"}, matches: func(*doc) bool { return true }}
	m, before := anySort(true)
	limit := int64(nd.Choose("limit", 2))
	got, err := w.s.Find(w.ctx, &storage.FindOptions{InternalFilter: f.f, Sort: m, Limit: limit})
	nd.Assert(err == nil, "a read works")
	w.check(f, before, limit, got)
}

// three messages with the same values keep their insertion order under every sort
func VH_P27_Stable() {
	w := newWorld()
	w.tick()
	for i := 0; i < 3; i++ {
		w.add("q::1", string(rune('a'+i)))
	}
	f := filter{f: &storage.InternalFilter{Queue: "q::1"}, matches: func(*doc) bool { return true }}
	for _, d := range w.ds {
		nd.Assume(nd.And(d.exp == w.ds[0].exp, d.score == w.ds[0].score))
	}
	m, before := anySort(false)
	got, err := w.s.Find(w.ctx, &storage.FindOptions{InternalFilter: f.f, Sort: m})
	nd.Assert(err == nil, "a read works")
	w.check(f, before, 0, got)
}

// counting counts every stored message that matches, also expired ones
func VH_P27_Count() {
	w := newWorld()
	w.tick()
	w.fill(nd.Choose("size", 4), 2)
	w.tick()
	f := anyFilter(w, 7)
	opt := &storage.FindOptions{InternalFilter: f.f}
	if f.f == nil && !w.mongo && nd.Choose("nil", 2) == 1 {
		opt = nil
	}
	n, err := w.s.Count(w.ctx, opt, &storage.CountOptions{})
	nd.Assert(err == nil, "counting works")
	var want int64
	for _, d := range w.ds {
		want += nd.B2I(f.matches(d))
	}
	nd.Assert(n == want, "counting counts all matching messages")
	nd.ObserveInt("n", n)
}

// a breakpoint that is no internal id is an error, and nothing stays blocked
func VH_P27_BadBreakpoint() {
	w := newWorld()
	w.tick()
	w.add("q::1", "a")
	w.ds[0].timeless = true
	b := nd.Bytes("b", 1+nd.Choose("len", 2))
	f := &storage.InternalFilter{}
	if nd.Choose("lte", 2) == 1 {
		f.InternalIdBreakpointLte = b
	} else {
		f.InternalIdBreakpointGt = b
	}
	num := true
	for i := 0; i < len(b); i++ {
		c := nd.And(b[i] >= '0', b[i] <= '9')
		if i == 0 && len(b) > 1 {
			c = nd.Or(c, b[i] == '-', b[i] == '+')
		}
		num = nd.And(num, c)
	}
	nd.Assume(!num)
	_, err := w.s.Count(w.ctx, &storage.FindOptions{InternalFilter: f}, &storage.CountOptions{})
	nd.Assert(err != nil, "a bad breakpoint is reported by count")
	f2 := *f
	_, err = w.s.Find(w.ctx, &storage.FindOptions{InternalFilter: &f2})
	_ = err
	n, e := w.s.Remove(w.ctx, "q::1", "a")
	nd.Assert(e == nil && n == 1, "the storage goes on working after an error")
}
