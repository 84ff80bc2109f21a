// Package hstart starts the back ends while their servers come up.
package hstart

import (
	"context"
	"errors"
	"time"

	"github.com/takenet/deckard/internal/config"
	"github.com/takenet/deckard/internal/queue/cache"
	"github.com/takenet/deckard/internal/queue/message"
	"github.com/takenet/deckard/internal/queue/storage"
	"github.com/takenet/deckard/internal/zzverif/hmongo"
	"github.com/takenet/deckard/internal/zzverif/hredis"
	"github.com/takenet/deckard/internal/zzverif/nd"
)

var errDown = errors.New("connection refused")

// waiting is a server that answers from the ping up on (never if that is 0), and a caller that
// gives up at the ping quit (never if that is 0).
type waiting struct {
	ctx      context.Context
	cancel   context.CancelFunc
	attempts int
	retry    bool
	delay    time.Duration
	up, quit int
	pings    int
	last     time.Time
}

func newWaiting() *waiting {
	w := &waiting{}
	most := 3
	if nd.Thorough() {
		most = 5
	}
	nd.Timers(20)
	w.attempts = int(nd.Int64("attempts", -1<<31, int64(most)))
	w.retry = nd.Bool("retry")
	w.up = int(nd.Int64("up", 0, 1<<31))
	w.quit = int(nd.Int64("quit", 0, 1<<31))
	w.delay = []time.Duration{3 * time.Millisecond, 7 * time.Millisecond}[nd.Choose("delay", 2)]
	w.ctx, w.cancel = context.WithCancel(context.Background())
	return w
}

// ping is one attempt.
func (w *waiting) ping() error {
	w.pings++
	now := time.Now()
	nd.Assert(w.pings == 1 || now.Sub(w.last) >= w.delay, "attempts are a delay apart")
	w.last = now
	if w.pings == w.quit {
		w.cancel()
	}
	if w.up > 0 && w.pings >= w.up {
		return nil
	}
	return errDown
}

// ready says whether the server is there in time, and how many attempts that takes.
func (w *waiting) ready(least int) (bool, int) {
	n := w.attempts
	if n < least {
		n = least
	}
	if !w.retry && n > 1 {
		n = 1
	}
	if w.up > 0 && w.up <= n && (w.quit == 0 || w.up <= w.quit) {
		return true, w.up
	}
	if w.quit > 0 && w.quit < n {
		n = w.quit
	}
	return false, n
}

func redisStart(shards int) {
	w := newWaiting()
	n := hredis.NewNet(shards)
	n.Fail = func(cmd string) error {
		if cmd == "ping" {
			return w.ping()
		}
		return nil
	}
	config.CacheUri.Set("redis://localhost:6379/0")
	config.RedisClusterMode.Set(shards > 1)
	config.CacheConnectionRetryAttempts.Set(w.attempts)
	config.CacheConnectionRetryEnabled.Set(w.retry)
	config.CacheConnectionRetryDelay.Set(w.delay)
	c, err := cache.CreateCache(w.ctx, cache.REDIS)
	if w.attempts < 1 {
		nd.Assert(err != nil && w.pings == 0, "no attempts are refused")
		return
	}
	ok, pings := w.ready(1)
	nd.Assert(w.pings == pings, "the configured attempts are made, up to the first answer")
	nd.Assert((err == nil) == ok, "starting fails if the server does not answer, and only then")
	if !ok {
		nd.Assert(len(n.Closed) == 1, "a start that fails closes its client")
		nd.Cover("failed")
		return
	}
	nd.Assert(len(n.Closed) == 0, "the cache stays connected")
	l, err := c.Insert(context.Background(), "q", &message.Message{ID: "a", Queue: "q", Score: 1})
	nd.Assert(err == nil && len(l) == 1, "the cache works")
	nd.Cover("started")
}

// the cache waits for a Redis server
func VH_P29_Redis() { redisStart(1) }

// the cache waits for a Redis cluster
func VH_P29_RedisCluster() { redisStart(2) }

// the storage waits for a MongoDB server: once for each of its clients
func VH_P29_Mongo() {
	w := newWaiting()
	srv := hmongo.New()
	second := nd.Bool("second") // the server goes away when the second client connects
	first := true
	srv.Up = func() error {
		if first && second {
			first = false
			return nil
		}
		err := w.ping()
		if err == nil && !second {
			// the second client finds it up
			srv.Up = nil
		}
		return err
	}
	config.StorageUri.Set("mongodb://db:27017/x")
	config.StorageConnectionRetryAttempts.Set(w.attempts)
	config.StorageConnectionRetryEnabled.Set(w.retry)
	config.StorageConnectionRetryDelay.Set(w.delay)
	st, err := storage.CreateStorage(w.ctx, storage.MONGODB)
	ok, pings := w.ready(1)
	nd.Assert(w.pings == pings, "the configured attempts are made, up to the first answer")
	nd.Assert((err == nil) == ok, "starting fails if the server does not answer, and only then")
	if !ok {
		nd.Assert(len(srv.Open) == 0, "a start that fails closes its clients")
		nd.Cover("failed")
		return
	}
	nd.Assert(len(srv.Open) == 2, "the storage keeps one client for each read preference")
	ins, _, err := st.Insert(context.Background(), &message.Message{ID: "a", Queue: "q", QueuePrefix: "q"})
	nd.Assert(err == nil && ins == 1, "the storage works")
	nd.Cover("started")
}
