package hmain

import (
	"context"
	"sync"
	"time"

	"github.com/takenet/deckard/internal/audit"
	"github.com/takenet/deckard/internal/config"
	"github.com/takenet/deckard/internal/queue"
	"github.com/takenet/deckard/internal/queue/cache"
	"github.com/takenet/deckard/internal/queue/configuration"
	"github.com/takenet/deckard/internal/queue/message"
	"github.com/takenet/deckard/internal/queue/pool"
	"github.com/takenet/deckard/internal/queue/storage"
	"github.com/takenet/deckard/internal/shutdown"
	"github.com/takenet/deckard/internal/zzverif/nd"
)

// watch sees the calls of the housekeeping jobs.
type watch struct {
	calls    int
	recovers bool
	up, on   chan bool
}

func (w *watch) call(c context.Context) {
	w.calls++
	if w.calls == 1 {
		w.up <- true
		<-w.on
	}
	nd.Assert(!shutdown.HasFinished(), "shutdown is not reported finished while a job runs")
	nd.Assert(!w.recovers || c.Err() == nil, "the recovery is over before the context is cancelled")
}

type watchedCache struct {
	cache.Cache
	w *watch
}

func (c *watchedCache) ListQueues(x context.Context, p string, t pool.PoolType) ([]string, error) {
	c.w.call(x)
	return c.Cache.ListQueues(x, p, t)
}

func (c *watchedCache) Get(x context.Context, k string) (string, error) {
	c.w.call(x)
	return c.Cache.Get(x, k)
}

func (c *watchedCache) Set(x context.Context, k, v string) error {
	c.w.call(x)
	return c.Cache.Set(x, k, v)
}

func (c *watchedCache) Insert(x context.Context, q string, ms ...*message.Message) ([]string, error) {
	c.w.call(x)
	return c.Cache.Insert(x, q, ms...)
}

func (c *watchedCache) Remove(x context.Context, q string, ids ...string) (int64, error) {
	c.w.call(x)
	return c.Cache.Remove(x, q, ids...)
}

type watchedStorage struct {
	storage.Storage
	w *watch
}

func (s *watchedStorage) Find(x context.Context, o *storage.FindOptions) ([]message.Message, error) {
	s.w.call(x)
	return s.Storage.Find(x, o)
}

func (s *watchedStorage) ListQueuePrefixes(x context.Context) ([]string, error) {
	s.w.call(x)
	return s.Storage.ListQueuePrefixes(x)
}

func (s *watchedStorage) ListQueueConfigurations(x context.Context) ([]*configuration.QueueConfiguration, error) {
	s.w.call(x)
	return s.Storage.ListQueueConfigurations(x)
}

func (s *watchedStorage) Remove(x context.Context, q string, ids ...string) (int64, error) {
	s.w.call(x)
	return s.Storage.Remove(x, q, ids...)
}

type silent struct{}

func (silent) Store(context.Context, audit.Entry) {}

// the shutdown starts while one of the real housekeeping jobs runs
func VH_P24_Jobs() {
	nd.Single()
	setup()
	backgroundTaskLocker = &sync.Mutex{}
	config.Configure(true)
	ds := []config.ConfigKey{config.HousekeeperTaskUnlockDelay, config.HousekeeperTaskTimeoutDelay, config.HousekeeperTaskMetricsDelay,
		config.HousekeeperTaskUpdateDelay, config.HousekeeperTaskMaxElementsDelay, config.HousekeeperTaskTTLDelay}
	which := nd.Choose("job", len(ds))
	for i, d := range ds {
		d.Set(time.Hour)
		if i == which {
			d.Set(period)
		}
	}
	w := &watch{recovers: which == 3, up: make(chan bool, 1), on: make(chan bool)}
	s := storage.NewMemoryStorage(ctx)
	_, _, err := s.Insert(ctx, &message.Message{ID: "a", Queue: "q", QueuePrefix: "q", Timeless: true})
	nd.Assert(err == nil, "setup: insert")
	ws := &watchedStorage{s, w}
	nd.Timers(9)
	startHouseKeeperJobs(queue.NewQueue(silent{}, ws, queue.NewQueueConfigurationService(ctx, ws), &watchedCache{cache.NewMemoryCache(), w}))
	<-w.up
	nd.Go(func() { shutdown.PerformShutdown(ctx, cancel, nil) })
	nd.Quiesce()
	nd.Assert(shutdown.Ongoing() && !shutdown.HasFinished(), "shutdown waits for the job in progress")
	nd.Assert(!w.recovers || ctx.Err() == nil, "the recovery is over before the context is cancelled")
	close(w.on)
	nd.Quiesce()
	nd.Assert(shutdown.HasFinished() && ctx.Err() != nil, "the shutdown finishes after the job")
	n := w.calls
	nd.Quiesce()
	nd.Assert(w.calls == n, "the jobs are over when the shutdown is")
	nd.Cover("end")
}
