package hqueue

import (
	"context"

	"github.com/takenet/deckard"
	"github.com/takenet/deckard/internal/queue"
	"github.com/takenet/deckard/internal/queue/cache"
	"github.com/takenet/deckard/internal/service"
	"github.com/takenet/deckard/internal/zzverif/hcache"
	"github.com/takenet/deckard/internal/zzverif/nd"
)

func (c *fcache) Flush(ctx context.Context) {
	c.hook("cache.Flush", "")
	c.Cache.Flush(ctx)
}

func (s *fstorage) Flush(ctx context.Context) (int64, error) {
	k := s.hook("storage.Flush", "")
	if k == lost {
		return 0, errFault
	}
	n, err := s.Storage.Flush(ctx)
	return n, done(k, err)
}

// a flush of any state: everything or nothing
func VH_P32_Flush() {
	w := newWorld()
	w.mapOrder(false)
	w.Tick()
	n := 2
	if nd.Thorough() {
		n = 3
	}
	w.mixed(n, append([]int{hcache.Absent}, hcache.LockedAck, hcache.LockedNack, hcache.Processing, hcache.Available)...)
	memory := nd.Choose("memory", 2) == 1
	svc := service.NewDeckardInstance(w.q, w.cfg, memory)
	limit := nd.Int64("limit", 1, 1<<40)
	_, err := svc.EditQueue(w.Ctx, &deckard.EditQueueRequest{Queue: "q", Configuration: &deckard.QueueConfiguration{MaxElements: limit}})
	nd.Assert(err == nil, "setup: limit")
	if nd.Choose("read", 2) == 1 {
		_, err = svc.GetQueue(w.Ctx, &deckard.GetQueueRequest{Queue: "q"})
		nd.Assert(err == nil, "setup: limit")
	}
	nd.Assert(w.C.Set(w.Ctx, cache.RECOVERY_BREAKPOINT_KEY, "x") == nil, "setup: key")
	w.Tick()
	w.f.on, w.f.budget = memory, 1
	r, err := svc.Flush(w.Ctx, &deckard.FlushRequest{})
	w.f.on = false
	failed := false
	for i, op := range w.f.failed {
		failed = failed || op == "storage.Flush" && w.f.how[i] != fine
	}
	nd.Cover("end")
	nd.Assert((err != nil) == failed, "a failed flush is reported")
	if err == nil {
		nd.Assert(r.Success == memory, "exactly in-memory instances are flushed")
	}
	read := func() int64 {
		c, err := svc.GetQueue(w.Ctx, &deckard.GetQueueRequest{Queue: "q"})
		nd.Assert(err == nil && c.Configuration != nil, "the configuration is read")
		return c.Configuration.MaxElements
	}
	switch {
	case !memory:
		nd.Assert(read() == limit, "persistent data are not flushed")
		v, err := w.C.Get(w.Ctx, cache.RECOVERY_BREAKPOINT_KEY)
		nd.Assert(err == nil && v == "x", "persistent data are not flushed")
		w.verifyAll("q", "r", "q::2")
		return
	case failed:
		_, err = svc.Flush(w.Ctx, &deckard.FlushRequest{})
		nd.Assert(err == nil, "a flush can be repeated")
	}
	w.ds, w.Es = nil, nil
	v, err := w.C.Get(w.Ctx, cache.RECOVERY_BREAKPOINT_KEY)
	nd.Assert(err == nil && v == "", "nothing is left after a flush")
	nd.Assert(read() == 0, "no configuration is left after a flush")
	// the instance is as good as new
	again := limit
	if nd.Choose("again", 2) == 1 {
		again = nd.Int64("limit2", 1, 1<<40)
	}
	_, err = svc.EditQueue(w.Ctx, &deckard.EditQueueRequest{Queue: "q", Configuration: &deckard.QueueConfiguration{MaxElements: again}})
	nd.Assert(err == nil && read() == again, "a configuration given after a flush takes effect")
	c, err := w.mem.GetQueueConfiguration(w.Ctx, "q")
	nd.Assert(err == nil && c != nil && c.MaxElements == again, "a configuration given after a flush takes effect")
	w.verifyAll("q", "r", "q::2")
}

// a flush while a configuration is read or edited
func VH_P32_Concurrent() {
	w := newWorld()
	nd.MapOrder(false)
	svc := service.NewMemoryDeckardService(w.q, w.cfg)
	edit := func(n int64) {
		_, err := svc.EditQueue(w.Ctx, &deckard.EditQueueRequest{Queue: "q", Configuration: &deckard.QueueConfiguration{MaxElements: n}})
		nd.Assert(err == nil, "an edit succeeds")
	}
	edit(5)
	if nd.Choose("read", 2) == 1 {
		_, _ = svc.GetQueue(w.Ctx, &deckard.GetQueueRequest{Queue: "q"})
	}
	what := nd.Choose("what", 3)
	k := 1
	if nd.Thorough() {
		k = 2
	}
	nd.Threads(k)
	nd.Go(func() {
		r, err := svc.Flush(w.Ctx, &deckard.FlushRequest{})
		nd.Assert(err == nil && r.Success, "a flush succeeds")
	})
	nd.Go(func() {
		switch what {
		case 0:
			_, _ = svc.GetQueue(w.Ctx, &deckard.GetQueueRequest{Queue: "q"})
		case 1:
			edit(7)
		case 2:
			_, _ = queue.RemoveExceedingMessages(w.Ctx, w.q)
		}
	})
	nd.Quiesce()
	nd.NoThreads()
	c, err := svc.GetQueue(w.Ctx, &deckard.GetQueueRequest{Queue: "q"})
	nd.Assert(err == nil && c.Configuration != nil, "the configuration is read")
	s, err := w.mem.GetQueueConfiguration(w.Ctx, "q")
	nd.Assert(err == nil, "the configuration is read")
	stored := int64(0)
	if s != nil {
		stored = s.MaxElements
	}
	nd.Assert(c.Configuration.MaxElements == stored, "the configuration read is the one stored")
	nd.Assert(stored == 0 || what == 1 && stored == 7, "only an edit after the flush is left")
}
