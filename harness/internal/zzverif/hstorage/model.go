// Package hstorage checks the storage contract on the in-memory storage.
package hstorage

import (
	"context"
	"strconv"
	"time"

	"github.com/elliotchance/orderedmap/v2"
	"github.com/takenet/deckard/internal/dtime"
	"github.com/takenet/deckard/internal/queue/message"
	"github.com/takenet/deckard/internal/queue/storage"
	"github.com/takenet/deckard/internal/zzverif/nd"
)

const maxScore = 9007199254740992.0

// doc is what the contract says about a stored message.
type doc struct {
	queue, id, prefix, suffix string
	order                     int // insertion order
	exp, used                 int64
	expT, usedT               time.Time
	timeless                  bool
	score                     float64
	payload                   string

	acks, nacks, cacks, cnacks int64
	total, last                float64
	usage                      int64
	lockMs                     int64
	breakpoint                 string
}

type world struct {
	ctx   context.Context
	s     storage.Storage
	ds    []*doc
	now   int64
	t     time.Time
	order int
	mo    bool

	mongo bool
	put   func(m *message.Message) // stores a document with a history
}

// useMongo makes new worlds use the MongoDB storage.
var useMongo bool
var mongoWorld func(w *world)
var mongoID func(n int) string

// mapOrder switches the exploration of map iteration orders for the operations under test.
func (w *world) mapOrder(on bool) {
	w.mo = on
	nd.MapOrder(on)
}

func newWorld() *world {
	w := &world{ctx: context.Background(), mo: true}
	if useMongo {
		mongoWorld(w)
	} else {
		w.s = storage.NewMemoryStorage(w.ctx)
	}
	dtime.SetNowProvider(func() time.Time { return w.t })
	return w
}

// instant is an arbitrary time in milliseconds, 1970 to 2096.
func instant(name string) (time.Time, int64) {
	s := nd.Int64(name+".s", 0, 4000000000)
	ms := nd.Int64(name+".ms", 0, 999)
	return nd.Time(s, ms), s*1000 + ms
}

func (w *world) tick() {
	t, ms := instant("clock")
	nd.Assume(ms >= w.now)
	w.t, w.now = t, ms
}

func validScore(name string) float64 {
	x := nd.Float64(name)
	nd.Assume(nd.And(x >= 0, x <= maxScore))
	return x
}

func digit(n int) string { return string(rune('0' + n)) }

// add stores one more message with arbitrary expiry and score.
func (w *world) add(queue, id string) *doc {
	w.order++
	tag := digit(w.order)
	d := &doc{queue: queue, id: id, order: w.order}
	d.prefix, d.suffix = message.GetQueueParts(queue)
	es := nd.Int64("exp"+tag, 0, 4000000000)
	d.expT, d.exp = nd.Time(es, 0), es*1000
	d.timeless = nd.Bool("timeless" + tag)
	d.score = validScore("score" + tag)
	d.payload = "p" + tag
	d.used, d.usedT = w.now, w.t
	m := &message.Message{ID: id, Queue: queue, QueuePrefix: d.prefix, QueueSuffix: d.suffix, ExpiryDate: d.expT, Timeless: d.timeless,
		Score: d.score, StringPayload: d.payload}
	ins, upd, err := w.s.Insert(w.ctx, m)
	nd.Assert(err == nil && ins == 1 && upd == 0, "a new message is inserted")
	w.ds = append(w.ds, d)
	return d
}

func (w *world) find(queue, id string) *doc {
	for _, d := range w.ds {
		if d.queue == queue && d.id == id {
			return d
		}
	}
	return nil
}

// hidden says an expired message is left out of reads; MongoDB keeps it until it is removed.
func (w *world) hidden(d *doc) bool {
	if w.mongo {
		return false
	}
	return nd.And(!d.timeless, d.exp <= w.now)
}

// internalID is the internal identifier of the n-th message.
func (w *world) internalID(n int) string {
	if w.mongo {
		return mongoID(n)
	}
	return strconv.Itoa(n)
}

// all reads everything, also expired messages.
func (w *world) all() []message.Message {
	nd.MapOrder(false)
	far := time.Unix(9000000000, 0)
	r, err := w.s.Find(w.ctx, &storage.FindOptions{InternalFilter: &storage.InternalFilter{ExpiryDate: &far}, Sort: order("_id", 1)})
	nd.Assert(err == nil, "everything can be read")
	nd.MapOrder(w.mo)
	return r
}

func order(kv ...interface{}) *orderedmap.OrderedMap[string, int] {
	m := orderedmap.NewOrderedMap[string, int]()
	for i := 0; i+1 < len(kv); i += 2 {
		m.Set(kv[i].(string), kv[i+1].(int))
	}
	return m
}

func count(p *int64) int64 {
	if p == nil {
		return 0
	}
	return *p
}

// same compares a read message with the model.
func (w *world) same(d *doc, m message.Message) {
	nd.Assert(m.ID == d.id && m.Queue == d.queue, "a message keeps its identity")
	nd.Assert(m.QueuePrefix == d.prefix && m.QueueSuffix == d.suffix, "a message keeps prefix and suffix")
	nd.Assert(m.StringPayload == d.payload, "a message keeps its payload")
	nd.Assert(m.ExpiryDate.Equal(d.expT), "a message keeps its expiry date")
	// MongoDB does not store the flag: what counts there is the expiry date, a hundred years ahead
	nd.Assert(w.mongo || m.Timeless == d.timeless, "a message keeps whether it expires")
	nd.Assert(m.Score == d.score, "a message keeps its score")
	nd.Assert(m.LastUsage != nil && m.LastUsage.Equal(d.usedT), "a message keeps its last usage")
	nd.Assert(m.UsageCount == d.usage && nd.Same(m.TotalScoreSubtract, d.total) && nd.Same(m.LastScoreSubtract, d.last), "usage counters are right")
	nd.Assert(m.LockMs == d.lockMs && m.Breakpoint == d.breakpoint, "lock time and breakpoint are right")
	if m.Diagnostics == nil {
		nd.Assert(d.acks == 0 && d.nacks == 0 && d.cacks == 0 && d.cnacks == 0, "diagnostics are right")
		return
	}
	nd.Assert(count(m.Diagnostics.Acks) == d.acks, "acks are counted")
	nd.Assert(count(m.Diagnostics.Nacks) == d.nacks, "nacks are counted")
	nd.Assert(count(m.Diagnostics.ConsecutiveAcks) == d.cacks, "consecutive acks are counted")
	nd.Assert(count(m.Diagnostics.ConsecutiveNacks) == d.cnacks, "consecutive nacks are counted")
}

// verify compares the whole storage with the model.
func (w *world) verify() {
	r := w.all()
	nd.MapOrder(false)
	defer nd.MapOrder(w.mo)
	nd.Assert(len(r) == len(w.ds), "no message is lost, added or merged")
	for i, m := range r {
		w.same(w.ds[i], m)
	}
	q, err := w.s.ListQueueNames(w.ctx)
	nd.Assert(err == nil, "queue names can be listed")
	w.names(q, func(d *doc) string { return d.queue })
	q, err = w.s.ListQueuePrefixes(w.ctx)
	nd.Assert(err == nil, "queue prefixes can be listed")
	w.names(q, func(d *doc) string { return d.prefix })
}

func (w *world) names(got []string, of func(*doc) string) {
	for i := range got {
		in := false
		for _, d := range w.ds {
			in = nd.Or(in, nd.StrEq(of(d), got[i]))
		}
		nd.Assert(in, "only queues with messages are listed")
		for j := 0; j < i; j++ {
			nd.Assert(!nd.StrEq(got[i], got[j]), "a queue is listed once")
		}
	}
	for _, d := range w.ds {
		in := false
		for i := range got {
			in = nd.Or(in, nd.StrEq(of(d), got[i]))
		}
		nd.Assert(in, "every queue with messages is listed")
	}
}
