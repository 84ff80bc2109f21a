package hmain

import (
	"context"
	"errors"
	"time"

	"github.com/takenet/deckard"
	"github.com/takenet/deckard/internal/config"
	"github.com/takenet/deckard/internal/shutdown"
	"github.com/takenet/deckard/internal/zzverif/nd"
	"go.mongodb.org/mongo-driver/v2/mongo"
)

// the process starts, or ends without leaving connections behind
func VH_P29_Main() {
	nd.Single()
	c := []string{"MEMORY", "REDIS", "OTHER"}[nd.Choose("cache", 3)]
	st := []string{"MEMORY", "MONGODB", "OTHER"}[nd.Choose("storage", 3)]
	s := configure(c, st)
	config.HousekeeperEnabled.Set(nd.Choose("keeper", 2) == 1)
	noRedis, noMongo, noPort := nd.Choose("redis", 2) == 1, nd.Choose("mongo", 2) == 1, nd.Choose("grpc", 2) == 1
	down := errors.New("connection refused")
	s.redis.Fail = func(cmd string) error {
		nd.Assert(len(s.redis.Closed) == 0, "nothing is asked over a closed connection")
		if noRedis {
			return down
		}
		return nil
	}
	s.mongo.Fail = func(*mongo.VerifCommand) int {
		nd.Assert(len(s.mongo.Open) > 0, "nothing is asked over a closed connection")
		return 0
	}
	s.mongo.Up = func() error {
		if noMongo {
			return down
		}
		return nil
	}
	if noPort {
		config.TlsServerCertFilePaths.Set("/nonexistent/server.crt")
		config.TlsServerKeyFilePaths.Set("/nonexistent/server.key")
	}
	s.start()
	ok := c != "OTHER" && st != "OTHER" && !(noRedis && c == "REDIS") && !(noMongo && st == "MONGODB") && !noPort
	if !ok {
		nd.Cover("failed")
		nd.Assert(s.done && s.fault != nil, "a process that cannot start ends with an error")
	} else {
		nd.Cover("started")
		nd.Assert(!s.done, "the process runs")
		r, err := s.service().Add(context.Background(), &deckard.AddRequest{Messages: []*deckard.AddMessage{{Id: "a", Queue: "q", Timeless: true}}})
		nd.Assert(err == nil && r.CreatedCount == 1, "the process works")
		nd.Assert(len(s.mongo.Open) == map[string]int{"MONGODB": 2}[st] && len(s.redis.Closed) == 0, "the connections in use are open")
		s.stop()
		nd.Assert(s.fault == nil, "the process ends without an error")
	}
	nd.Assert(len(s.mongo.Open) == 0, "a process that ends leaves no connection to MongoDB")
	nd.Assert(c != "REDIS" || st == "OTHER" || noMongo && st == "MONGODB" || len(s.redis.Closed) == 1, "a process that ends leaves no connection to Redis")
}

// the process ends, the cache is lost, and another process takes over
func VH_P11_Restart() {
	nd.Single()
	d := 5 * time.Millisecond
	s := configure("REDIS", "MONGODB")
	only(map[int]time.Duration{recovering: d})
	s.start()
	bg := context.Background()
	n := 2
	if nd.Thorough() {
		n = 3
	}
	var ids []string
	for i := 0; i < n; i++ {
		ids = append(ids, string(rune('a'+i)))
		_, err := s.service().Add(bg, &deckard.AddRequest{Messages: []*deckard.AddMessage{{Id: ids[i], Queue: "q", Timeless: true, Score: float64(i + 1)}}})
		nd.Assert(err == nil, "setup: add")
	}
	pull := func(amount int32) []string {
		r, err := s.service().Pull(bg, &deckard.PullRequest{Queue: "q", Amount: amount})
		nd.Assert(err == nil, "setup: pull")
		var l []string
		for _, m := range r.Messages {
			l = append(l, m.Id)
		}
		return l
	}
	switch nd.Choose("before", 4) {
	case 1:
		pull(1)
	case 2:
		pull(1)
		_, err := s.service().Ack(bg, &deckard.AckRequest{Id: ids[0], Queue: "q", LockMs: 1000000})
		nd.Assert(err == nil, "setup: ack")
	case 3:
		nd.Elapse(d)
		nd.Quiesce()
	}
	// the connection to a server breaks at any command of the recovery, if at all
	at, k := nd.Choose("at", 8), 0
	again := nd.Choose("process", 2) == 1
	if again {
		s.stop()
		setup()
	}
	for _, x := range s.redis.Shards {
		x.Forget()
	}
	fail := func() bool {
		k++
		return k == at
	}
	if again {
		*s = system{redis: s.redis, mongo: s.mongo}
		for a := range s.redis.Closed {
			delete(s.redis.Closed, a)
		}
		server = nil
		s.start()
	}
	s.redis.Fail = func(string) error {
		if fail() {
			return errors.New("server failure")
		}
		return nil
	}
	s.mongo.Fail = func(*mongo.VerifCommand) int {
		if fail() {
			return 1
		}
		return 0
	}
	nd.Timers(60)
	for i := 0; i < 6; i++ {
		nd.Elapse(d)
		nd.Quiesce()
	}
	s.redis.Fail, s.mongo.Fail = nil, nil
	nd.Cover("end")
	got := pull(int32(n + 1))
	nd.Assert(len(got) == n, "every stored message is in the cache again")
	for _, id := range ids {
		found := 0
		for _, g := range got {
			if g == id {
				found++
			}
		}
		nd.Assert(found == 1, "every stored message is in the cache again")
	}
	s.stop()
	nd.Assert(shutdown.HasFinished(), "the process ends")
}
