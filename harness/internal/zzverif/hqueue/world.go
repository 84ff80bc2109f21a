// Package hqueue checks the queue, its housekeeping and the service over the in-memory cache and
// storage, with failures and crashes injected between them.
package hqueue

import (
	"context"
	"errors"
	"time"

	"github.com/elliotchance/orderedmap/v2"
	"github.com/takenet/deckard/internal/audit"
	"github.com/takenet/deckard/internal/queue"
	"github.com/takenet/deckard/internal/queue/cache"
	"github.com/takenet/deckard/internal/queue/configuration"
	"github.com/takenet/deckard/internal/queue/message"
	"github.com/takenet/deckard/internal/queue/pool"
	"github.com/takenet/deckard/internal/queue/storage"
	"github.com/takenet/deckard/internal/zzverif/hcache"
	"github.com/takenet/deckard/internal/zzverif/nd"
)

const maxScore = 9007199254740992.0

var errFault = errors.New("injected failure")

// crashed is the panic value of an injected crash of the process.
type crashed struct{}

// faults decides what goes wrong at each call of the cache and the storage.
type faults struct {
	on     bool
	crash  bool // crashes too
	budget int
	calls  []string
	failed []string // what failed, in which queue, how, and after how many calls
	queues []string
	how    []int
	at_    []int
}

const (
	fine   = iota
	lost   // the call has no effect and reports an error
	unsure // the call takes effect and reports an error
)

func (f *faults) at(op, queue string) int {
	if !f.on {
		return fine
	}
	f.calls = append(f.calls, op)
	if f.budget == 0 {
		return fine
	}
	n := 3
	if f.crash {
		n = 5
	}
	k := nd.Choose("fault", n)
	if k == fine {
		return fine
	}
	f.budget--
	f.failed, f.queues, f.how, f.at_ = append(f.failed, op), append(f.queues, queue), append(f.how, k), append(f.at_, len(f.calls)-1)
	if k == 3 {
		panic(crashed{})
	}
	return k
}

// fcache is a cache whose calls may fail.
type fcache struct {
	cache.Cache
	f  *faults
	on func(op, queue string) // told before each call
}

func (c *fcache) hook(op, queue string) int {
	nd.Jitter()
	if c.on != nil {
		c.on(op, queue)
	}
	return c.f.at(op, queue)
}

// done ends a call that may crash the process just after it took effect.
func done(k int, err error) error {
	if k == 4 {
		panic(crashed{})
	}
	if err == nil && k == unsure {
		return errFault
	}
	return err
}

func (c *fcache) MakeAvailable(ctx context.Context, m *message.Message) (bool, error) {
	k := c.hook("cache.MakeAvailable", m.Queue)
	if k == lost {
		return false, errFault
	}
	r, err := c.Cache.MakeAvailable(ctx, m)
	if err = done(k, err); err != nil {
		return false, err
	}
	return r, nil
}

func (c *fcache) PullMessages(ctx context.Context, q string, n int64, lo *float64, hi *float64, d int64) ([]string, error) {
	k := c.hook("cache.PullMessages", q)
	if k == lost {
		return nil, errFault
	}
	r, err := c.Cache.PullMessages(ctx, q, n, lo, hi, d)
	if err = done(k, err); err != nil {
		return nil, err
	}
	return r, nil
}

func (c *fcache) TimeoutMessages(ctx context.Context, q string) ([]string, error) {
	k := c.hook("cache.TimeoutMessages", q)
	if k == lost {
		return nil, errFault
	}
	r, err := c.Cache.TimeoutMessages(ctx, q)
	if err = done(k, err); err != nil {
		return nil, err
	}
	return r, nil
}

func (c *fcache) LockMessage(ctx context.Context, m *message.Message, t cache.LockType) (bool, error) {
	k := c.hook("cache.LockMessage", m.Queue)
	if k == lost {
		return false, errFault
	}
	r, err := c.Cache.LockMessage(ctx, m, t)
	if err = done(k, err); err != nil {
		return false, err
	}
	return r, nil
}

func (c *fcache) UnlockMessages(ctx context.Context, q string, t cache.LockType) ([]string, error) {
	k := c.hook("cache.UnlockMessages", q)
	if k == lost {
		return nil, errFault
	}
	r, err := c.Cache.UnlockMessages(ctx, q, t)
	if err = done(k, err); err != nil {
		return nil, err
	}
	return r, nil
}

func (c *fcache) ListQueues(ctx context.Context, p string, t pool.PoolType) ([]string, error) {
	k := c.hook("cache.ListQueues", "")
	if k == lost {
		return nil, errFault
	}
	r, err := c.Cache.ListQueues(ctx, p, t)
	if err = done(k, err); err != nil {
		return nil, err
	}
	return r, nil
}

// filler is the queue of messages of no interest.
const filler = "filler"

func (c *fcache) Insert(ctx context.Context, q string, ms ...*message.Message) ([]string, error) {
	if q == filler {
		return nil, nil
	}
	k := c.hook("cache.Insert", q)
	if k == lost {
		return nil, errFault
	}
	r, err := c.Cache.Insert(ctx, q, ms...)
	if err = done(k, err); err != nil {
		return nil, err
	}
	return r, nil
}

func (c *fcache) Remove(ctx context.Context, q string, ids ...string) (int64, error) {
	k := c.hook("cache.Remove", q)
	if k == lost {
		return 0, errFault
	}
	r, err := c.Cache.Remove(ctx, q, ids...)
	if err = done(k, err); err != nil {
		return 0, err
	}
	return r, nil
}

func (c *fcache) Get(ctx context.Context, key string) (string, error) {
	k := c.hook("cache.Get", key)
	if k == lost {
		return "", errFault
	}
	r, err := c.Cache.Get(ctx, key)
	if err = done(k, err); err != nil {
		return "", err
	}
	return r, nil
}

func (c *fcache) Set(ctx context.Context, key, v string) error {
	k := c.hook("cache.Set", key)
	if k == lost {
		return errFault
	}
	return done(k, c.Cache.Set(ctx, key, v))
}

// fstorage is a storage whose calls may fail.
type fstorage struct {
	storage.Storage
	f *faults
	// sees says which messages a read finds
	sees func(m *message.Message, opt *storage.FindOptions) bool
	// told before each call
	on func(op, queue string)
	// page cuts limited reads further
	page int
	// pages cuts limited reads to that many messages and, when there are more, fills them up to
	// the limit with messages of no interest in front of the last
	pages int
	// order: map iteration order is arbitrary outside of storage reads, whose results do not
	// depend on it (P27)
	order bool
}

func (s *fstorage) calm() func() {
	nd.MapOrder(false)
	return func() { nd.MapOrder(s.order) }
}

// mapOrder makes the iteration order of maps arbitrary from here, except inside storage reads
// and removals.
func (w *world) mapOrder(on bool) {
	w.s.order = on
	nd.MapOrder(on)
}

func (s *fstorage) hook(op, queue string) int {
	nd.Jitter()
	if s.on != nil {
		s.on(op, queue)
	}
	return s.f.at(op, queue)
}

func queueOf(o *storage.FindOptions) string {
	if o == nil || o.InternalFilter == nil {
		return ""
	}
	return o.InternalFilter.Queue + o.InternalFilter.QueuePrefix
}

func (s *fstorage) Insert(ctx context.Context, ms ...*message.Message) (int64, int64, error) {
	defer s.calm()()
	k := s.hook("storage.Insert", "")
	if k == lost {
		return 0, 0, errFault
	}
	i, u, err := s.Storage.Insert(ctx, ms...)
	if err = done(k, err); err != nil {
		return 0, 0, err
	}
	return i, u, nil
}

func (s *fstorage) Ack(ctx context.Context, m *message.Message) (int64, error) {
	k := s.hook("storage.Ack", m.Queue)
	if k == lost {
		return 0, errFault
	}
	r, err := s.Storage.Ack(ctx, m)
	if err = done(k, err); err != nil {
		return 0, err
	}
	return r, nil
}

func (s *fstorage) Nack(ctx context.Context, m *message.Message) (int64, error) {
	k := s.hook("storage.Nack", m.Queue)
	if k == lost {
		return 0, errFault
	}
	r, err := s.Storage.Nack(ctx, m)
	if err = done(k, err); err != nil {
		return 0, err
	}
	return r, nil
}

func (s *fstorage) Find(ctx context.Context, o *storage.FindOptions) ([]message.Message, error) {
	defer s.calm()()
	k := s.hook("storage.Find", queueOf(o))
	if k == lost {
		return nil, errFault
	}
	if s.page > 0 && o.Limit > int64(s.page) {
		c := *o
		c.Limit = int64(s.page)
		o = &c
	}
	more := false
	if s.pages > 0 && o.Limit > int64(s.pages) {
		c := *o
		c.Limit = 0
		all, err := s.Storage.Find(ctx, &c)
		nd.Assert(err == nil, "setup: page")
		more = len(all) > s.pages
		c.Limit = int64(s.pages)
		if more {
			fill := make([]message.Message, int(o.Limit)-s.pages)
			for i := range fill {
				fill[i].Queue, fill[i].ID, fill[i].InternalId = filler, "f", int64(0)
			}
			return append(fill, all[:s.pages]...), nil
		}
		o = &c
	}
	r, err := s.Storage.Find(ctx, o)
	if err = done(k, err); err != nil {
		return nil, err
	}
	if s.sees == nil {
		return r, nil
	}
	var v []message.Message
	for i := range r {
		if s.sees(&r[i], o) {
			v = append(v, r[i])
		}
	}
	return v, nil
}

func (s *fstorage) Remove(ctx context.Context, q string, ids ...string) (int64, error) {
	defer s.calm()()
	k := s.hook("storage.Remove", q)
	if k == lost {
		return 0, errFault
	}
	r, err := s.Storage.Remove(ctx, q, ids...)
	if err = done(k, err); err != nil {
		return 0, err
	}
	return r, nil
}

func (s *fstorage) Count(ctx context.Context, o *storage.FindOptions, c *storage.CountOptions) (int64, error) {
	defer s.calm()()
	k := s.hook("storage.Count", queueOf(o))
	if k == lost {
		return 0, errFault
	}
	r, err := s.Storage.Count(ctx, o, c)
	if err = done(k, err); err != nil {
		return 0, err
	}
	return r, nil
}

func (s *fstorage) ListQueueConfigurations(ctx context.Context) ([]*configuration.QueueConfiguration, error) {
	k := s.hook("storage.ListQueueConfigurations", "")
	if k == lost {
		return nil, errFault
	}
	r, err := s.Storage.ListQueueConfigurations(ctx)
	if err = done(k, err); err != nil {
		return nil, err
	}
	return r, nil
}

func (s *fstorage) ListQueuePrefixes(ctx context.Context) ([]string, error) {
	k := s.hook("storage.ListQueuePrefixes", "")
	if k == lost {
		return nil, errFault
	}
	defer s.calm()()
	r, err := s.Storage.ListQueuePrefixes(ctx)
	if err = done(k, err); err != nil {
		return nil, err
	}
	if s.order && len(r) > 1 && nd.Choose("order", 2) == 1 { // in any order
		r[0], r[len(r)-1] = r[len(r)-1], r[0]
	}
	return r, nil
}

func (s *fstorage) EditQueueConfiguration(ctx context.Context, c *configuration.QueueConfiguration) error {
	k := s.hook("storage.EditQueueConfiguration", c.Queue)
	if k == lost {
		return errFault
	}
	return done(k, s.Storage.EditQueueConfiguration(ctx, c))
}

func (s *fstorage) GetQueueConfiguration(ctx context.Context, q string) (*configuration.QueueConfiguration, error) {
	k := s.hook("storage.GetQueueConfiguration", q)
	if k == lost {
		return nil, errFault
	}
	r, err := s.Storage.GetQueueConfiguration(ctx, q)
	if err = done(k, err); err != nil {
		return nil, err
	}
	return r, nil
}

// auditor records what is audited.
type auditor struct {
	es   []audit.Entry
	mute bool
}

func (a *auditor) Store(_ context.Context, e audit.Entry) {
	if !a.mute {
		a.es = append(a.es, e)
	}
}

// world is a queue over both back ends with the contract's view of them: the cache part in
// hcache.World, here the stored messages.
type world struct {
	*hcache.World
	mem  storage.Storage
	s    *fstorage
	c    *fcache
	f    *faults
	a    *auditor
	q    *queue.Queue
	cfg  queue.QueueConfigurationService
	ds   []*doc
	next int
	seen []string
}

// doc is a stored message.
type doc struct {
	queue, id string
	score     float64
	payload   string
	exp       int64
	expT      time.Time
	timeless  bool
}

func newWorld() *world {
	w := &world{World: hcache.NewWorld(), f: &faults{}, a: &auditor{}}
	w.mem = storage.NewMemoryStorage(w.Ctx)
	w.s = &fstorage{Storage: w.mem, f: w.f}
	w.c = &fcache{Cache: w.C, f: w.f}
	w.cfg = queue.NewQueueConfigurationService(w.Ctx, w.s)
	w.q = queue.NewQueue(w.a, w.s, w.cfg, w.c)
	return w
}

func validScore(name string) float64 {
	x := nd.Float64(name)
	nd.Assume(nd.And(x >= 0, x <= maxScore))
	return x
}

func digit(n int) string { return string(rune('0' + n)) }

// store puts a message into the storage only. It does not expire.
func (w *world) store(q, id string) *doc {
	w.next++
	tag := digit(w.next)
	d := &doc{queue: q, id: id, score: validScore("stored." + tag), payload: "p" + tag, timeless: true, expT: time.Unix(0, 0)}
	w.insert(d)
	return d
}

// storeExp puts a message with an arbitrary expiry date into the storage only.
func (w *world) storeExp(q, id string) *doc {
	w.next++
	tag := digit(w.next)
	d := &doc{queue: q, id: id, score: validScore("stored." + tag), payload: "p" + tag}
	s, ms := nd.Int64("exp.s"+tag, 0, 4000000000), nd.Int64("exp.ms"+tag, 0, 999)
	d.expT, d.exp = nd.Time(s, ms), s*1000+ms
	w.insert(d)
	return d
}

func (w *world) insert(d *doc) {
	pre, suf := message.GetQueueParts(d.queue)
	i, u, err := w.mem.Insert(w.Ctx, &message.Message{ID: d.id, Queue: d.queue, QueuePrefix: pre, QueueSuffix: suf, Score: d.score,
		StringPayload: d.payload, Timeless: d.timeless, ExpiryDate: d.expT})
	nd.Assert(err == nil && i == 1 && u == 0, "setup: store")
	w.ds = append(w.ds, d)
}

func (w *world) doc(q, id string) *doc {
	for _, d := range w.ds {
		if d.queue == q && d.id == id {
			return d
		}
	}
	return nil
}

// drop takes a message out of the model.
func (w *world) drop(q, id string, storage, cache bool) {
	if storage {
		var keep []*doc
		for _, d := range w.ds {
			if d.queue != q || d.id != id {
				keep = append(keep, d)
			}
		}
		w.ds = keep
	}
	if cache {
		var keep []*hcache.Entry
		for _, e := range w.Es {
			if e.Queue != q || e.ID != id {
				keep = append(keep, e)
			}
		}
		w.Es = keep
	}
}

func order(kv ...interface{}) *orderedmap.OrderedMap[string, int] {
	m := orderedmap.NewOrderedMap[string, int]()
	for i := 0; i+1 < len(kv); i += 2 {
		m.Set(kv[i].(string), kv[i+1].(int))
	}
	return m
}

func (w *world) stored() []message.Message {
	far := time.Unix(253402300799, 0)
	r, err := w.mem.Find(w.Ctx, &storage.FindOptions{InternalFilter: &storage.InternalFilter{ExpiryDate: &far}, Sort: order("_id", 1)})
	nd.Assert(err == nil, "everything can be read")
	return r
}

// verifyStorage compares the storage with the model.
func (w *world) verifyStorage() {
	r := w.stored()
	nd.Assert(len(r) == len(w.ds), "exactly the expected messages are stored")
	for i := range r {
		d := w.doc(r[i].Queue, r[i].ID)
		nd.Assert(d != nil, "only expected messages are stored")
		nd.Assert(r[i].StringPayload == d.payload, "stored messages keep their content")
	}
}

// verifyAll compares storage and cache with the model.
func (w *world) verifyAll(queues ...string) {
	w.f.on = false
	nd.MapOrder(false)
	w.verifyStorage()
	w.Verify(queues...)
}

// try runs f and says whether the process crashed in it.
func try(f func()) (crash bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(crashed); !ok {
				panic(r)
			}
			crash = true
		}
	}()
	f()
	return false
}

func index(l []string, id string) int {
	for i, x := range l {
		if x == id {
			return i
		}
	}
	return -1
}

// audited counts audit entries.
func (w *world) audited(sig audit.Signal, q, id string) int {
	n := 0
	for _, e := range w.a.es {
		if e.Signal == sig && e.Queue == q && e.ID == id {
			n++
		}
	}
	return n
}
