package hmain

import (
	"context"
	"syscall"

	"github.com/takenet/deckard"
	"github.com/takenet/deckard/internal/config"
	"github.com/takenet/deckard/internal/shutdown"
	"github.com/takenet/deckard/internal/zzverif/hmongo"
	"github.com/takenet/deckard/internal/zzverif/hredis"
	"github.com/takenet/deckard/internal/zzverif/nd"
	"google.golang.org/grpc"
)

// system is the whole process between its servers and its clients.
type system struct {
	redis *hredis.Net
	mongo *hmongo.Server
	done  bool
	fault any
}

// configure sets up the process with these back ends.
func configure(cacheType, storageType string) *system {
	nd.MapOrder(false)
	setup()
	server = nil
	config.Configure(true)
	config.MetricsEnabled.Set(false)
	config.GrpcEnabled.Set(true)
	config.GrpcPort.Set(0)
	config.CacheType.Set(cacheType)
	config.StorageType.Set(storageType)
	config.CacheUri.Set("redis://localhost:6379/0")
	config.StorageUri.Set("mongodb://db:27017/x")
	config.CacheConnectionRetryEnabled.Set(false)
	config.StorageConnectionRetryEnabled.Set(false)
	config.HousekeeperEnabled.Set(false)
	return &system{redis: hredis.NewNet(1), mongo: hmongo.New()}
}

// start runs the process until it serves.
func (s *system) start() {
	nd.Timers(14)
	nd.Go(func() {
		defer func() { s.fault = recover(); s.done = true }()
		main()
	})
	nd.Quiesce()
}

// service is what the process offers on its port.
func (s *system) service() deckard.DeckardServer {
	nd.Assert(server != nil, "the process serves")
	v := nd.MapValue(field(server, "services"), deckard.Deckard_ServiceDesc.ServiceName)
	nd.Assert(v != nil, "the process offers the service")
	return (*field(v, "serviceImpl").(*any)).(deckard.DeckardServer)
}

// stop ends the process in order.
func (s *system) stop() {
	shutdown.CancelChan <- syscall.SIGTERM
	nd.Quiesce()
	nd.Assert(s.done && shutdown.HasFinished(), "the process ends when told to")
}

func field(p any, name string) any {
	for i := 0; i < nd.Fields(p); i++ {
		if nd.FieldName(p, i) == name {
			return nd.FieldPtr(p, i)
		}
	}
	nd.Unsupported("field " + name)
	return nil
}

var _ *grpc.Server = server

// every combination of back ends
func VH_P32_Main() {
	nd.Single()
	c := []string{"MEMORY", "REDIS"}[nd.Choose("cache", 2)]
	d := []string{"MEMORY", "MONGODB"}[nd.Choose("storage", 2)]
	s := configure(c, d)
	s.start()
	nd.Assert(!s.done, "the process runs")
	svc := s.service()
	bg := context.Background()
	_, err := svc.Add(bg, &deckard.AddRequest{Messages: []*deckard.AddMessage{{Id: "a", Queue: "q", Timeless: true}}})
	nd.Assert(err == nil, "setup: add")
	_, err = svc.EditQueue(bg, &deckard.EditQueueRequest{Queue: "q", Configuration: &deckard.QueueConfiguration{MaxElements: 5}})
	nd.Assert(err == nil, "setup: limit")
	r, err := svc.Flush(bg, &deckard.FlushRequest{})
	memory := c == "MEMORY" && d == "MEMORY"
	nd.Assert(err == nil && r.Success == memory, "exactly in-memory instances are flushed")
	n, left := int64(1), int64(5)
	if memory {
		n, left = 0, 0
	}
	k, err := svc.Count(bg, &deckard.CountRequest{Queue: "q"})
	nd.Assert(err == nil && k.Count == n, "persistent data are not flushed, others are")
	q, err := svc.GetQueue(bg, &deckard.GetQueueRequest{Queue: "q"})
	nd.Assert(err == nil && q.Configuration.MaxElements == left, "persistent data are not flushed, others are")
	p, err := svc.Pull(bg, &deckard.PullRequest{Queue: "q", Amount: 1})
	nd.Assert(err == nil && int64(len(p.Messages)) == n, "persistent data are not flushed, others are")
	s.stop()
	nd.Cover("end")
}
