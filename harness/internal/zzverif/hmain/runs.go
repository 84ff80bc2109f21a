package hmain

import (
	"context"
	"errors"
	"time"

	"github.com/takenet/deckard"
	"github.com/takenet/deckard/internal/config"
	"github.com/takenet/deckard/internal/dtime"
	"github.com/takenet/deckard/internal/metrics"
	"github.com/takenet/deckard/internal/zzverif/nd"
	"go.mongodb.org/mongo-driver/v2/mongo"
)

// the background passes
const (
	unlocking = iota
	timing
	measuring
	recovering
	limiting
	expiring
	passes
)

func delays() []config.ConfigKey {
	return []config.ConfigKey{config.HousekeeperTaskUnlockDelay, config.HousekeeperTaskTimeoutDelay, config.HousekeeperTaskMetricsDelay,
		config.HousekeeperTaskUpdateDelay, config.HousekeeperTaskMaxElementsDelay, config.HousekeeperTaskTTLDelay}
}

// only gives these passes their delays, and the others one that is never over.
func only(d map[int]time.Duration) {
	config.HousekeeperEnabled.Set(true)
	for i, k := range delays() {
		if d[i] == 0 {
			k.Set(time.Hour)
		} else {
			k.Set(d[i])
		}
	}
}

// runs sees the runs of one pass in the commands the servers get.
type runs struct {
	n    int
	last time.Time
	d    time.Duration
	// the first command of the run stop waits until on is closed
	stop int
	up   chan bool
	on   chan bool
	// the commands of the run fail
	fail int
	// how long each run takes
	takes time.Duration
	// what runs while the pass waits
	others  int
	waiting bool
}

func (r *runs) command() error {
	if r.waiting {
		r.others++
		return nil
	}
	now := time.Now()
	if now.Sub(r.last) > r.d/2 {
		r.n++
		gap := now.Sub(r.last)
		nd.Assert(gap >= r.d && (gap <= r.d*3/2 || r.stop > 0), "a run begins its delay after the end of the one before")
		if r.takes > 0 {
			r.last = now.Add(r.takes)
			time.Sleep(r.takes)
		}
		if r.n == r.stop {
			r.waiting = true
			r.up <- true
			<-r.on
			r.waiting = false
		}
	}
	r.last = time.Now()
	if r.n > 0 && r.n == r.fail {
		return errors.New("server failure")
	}
	return nil
}

// watched starts the process and watches it from the start.
func (r *runs) watched(s *system) {
	r.last = time.Now()
	r.up, r.on = make(chan bool, 1), make(chan bool)
	s.redis.Fail = func(string) error { return r.command() }
	s.mongo.Fail = func(*mongo.VerifCommand) int {
		if r.command() != nil {
			return 1
		}
		return 0
	}
	s.start()
	nd.Assert(!s.done, "the process runs")
}

// unwatch leaves the end of the process alone.
func (r *runs) unwatch(s *system) {
	s.redis.Fail, s.mongo.Fail = nil, nil
	s.stop()
}

// each pass runs again and again, also after a run that failed
func VH_P33_Runs() {
	nd.Single()
	d := []time.Duration{300 * time.Millisecond, 500 * time.Millisecond}[nd.Choose("delay", 2)]
	s := configure("REDIS", "MONGODB")
	only(map[int]time.Duration{nd.Choose("pass", passes): d})
	r := &runs{d: d, fail: nd.Choose("fail", 3), takes: d / 4 * time.Duration(nd.Choose("takes", 2))}
	r.watched(s)
	n := 3
	if nd.Thorough() {
		n = 6
	}
	nd.Timers(6 * n)
	for i := 1; i <= n; i++ {
		nd.Elapse(d + r.takes)
		nd.Quiesce()
		nd.Assert(r.n >= i, "a pass runs again and again")
	}
	r.unwatch(s)
	nd.Cover("end")
}

// a pass that takes long holds up itself and those that exclude it, and nothing else
func VH_P33_Slow() {
	nd.Single()
	d := 50 * time.Millisecond
	slow, other := nd.Choose("slow", passes), nd.Choose("other", passes)
	nd.Assume(slow != other)
	s := configure("REDIS", "MONGODB")
	only(map[int]time.Duration{slow: d, other: 2 * d})
	r := &runs{d: d, stop: 1}
	r.watched(s)
	nd.Timers(30)
	<-r.up
	nd.Elapse(8 * d)
	nd.Quiesce()
	nd.Assert(r.waiting && r.n == 1, "a pass does not overlap itself")
	excluded := slow >= recovering && other >= recovering
	if excluded {
		nd.Assert(r.others == 0, "the passes that change whole queues do not overlap")
	} else {
		nd.Assert(r.others > 0, "a slow pass holds up no other")
	}
	close(r.on)
	s.redis.Fail, s.mongo.Fail = nil, nil
	nd.Quiesce()
	n := 0
	s.mongo.Fail = func(*mongo.VerifCommand) int { n++; return 0 }
	s.redis.Fail = func(string) error { n++; return nil }
	nd.Elapse(3 * d)
	nd.Quiesce()
	nd.Assert(n > 0, "a pass goes on after a slow run")
	r.unwatch(s)
	nd.Cover("end")
}

// without housekeeping no pass runs
func VH_P33_Off() {
	nd.Single()
	d := 2 * time.Millisecond
	s := configure("REDIS", "MONGODB")
	for _, k := range delays() {
		k.Set(d)
	}
	config.HousekeeperEnabled.Set(false)
	s.start()
	n := 0
	s.redis.Fail = func(string) error { n++; return nil }
	s.mongo.Fail = func(*mongo.VerifCommand) int { n++; return 0 }
	for i := 0; i < 3; i++ {
		nd.Elapse(2 * d)
		nd.Quiesce()
	}
	nd.Assert(n == 0, "without housekeeping no pass runs")
	(&runs{}).unwatch(s)
	nd.Cover("end")
}

// an instance left to itself keeps its queues in order
func VH_P33_Effects() {
	nd.Single()
	d := 5 * time.Millisecond
	which := nd.Choose("pass", passes)
	c := []string{"MEMORY", "REDIS"}[nd.Choose("cache", 2)]
	st := []string{"MEMORY", "MONGODB"}[nd.Choose("storage", 2)]
	nd.Assume(which != recovering || c == "REDIS")
	s := configure(c, st)
	only(map[int]time.Duration{which: d})
	s.start()
	svc, bg := s.service(), context.Background()
	reset := func() {}
	add := func(id string) {
		r, err := svc.Add(bg, &deckard.AddRequest{Messages: []*deckard.AddMessage{{Id: id, Queue: "q", TtlMinutes: 10}}})
		nd.Assert(err == nil && r.CreatedCount == 1, "setup: add")
	}
	pull := func(deadline int64) int {
		r, err := svc.Pull(bg, &deckard.PullRequest{Queue: "q", Amount: 5, AckDeadlineMs: deadline})
		nd.Assert(err == nil, "setup: pull")
		return len(r.Messages)
	}
	count := func() int64 {
		r, err := svc.Count(bg, &deckard.CountRequest{Queue: "q"})
		nd.Assert(err == nil, "setup: count")
		return r.Count
	}
	add("a")
	switch which {
	case unlocking:
		nd.Assert(pull(0) == 1, "setup: pull")
		_, err := svc.Ack(bg, &deckard.AckRequest{Id: "a", Queue: "q", LockMs: 1})
		nd.Assert(err == nil, "setup: lock")
	case timing:
		nd.Assert(pull(1) == 1, "setup: pull")
	case limiting:
		add("b")
		_, err := svc.EditQueue(bg, &deckard.EditQueueRequest{Queue: "q", Configuration: &deckard.QueueConfiguration{MaxElements: 1}})
		nd.Assert(err == nil, "setup: limit")
	case expiring:
		reset = dtime.SetNowProvider(func() time.Time { return time.Now().Add(time.Hour) })
	case recovering:
		for _, k := range s.redis.Shards {
			k.Forget()
		}
		nd.Assert(pull(0) == 0, "setup: the cache is lost")
	}
	nd.Timers(20)
	for i := 0; i < 6; i++ {
		nd.Elapse(d)
		nd.Quiesce()
	}
	switch which {
	case unlocking:
		nd.Assert(pull(0) == 1, "locks that are over are released")
	case timing:
		nd.Assert(pull(0) == 1, "messages come back after their deadline")
	case limiting:
		nd.Assert(count() == 1, "surplus messages are removed")
	case expiring:
		nd.Assert(count() == 0, "expired messages are removed")
	case recovering:
		nd.Assert(pull(0) == 1, "a lost cache is recovered")
	case measuring:
		nd.Assert(metrics.MetricsMap.GetTotalElementsMap()["q"] == 1, "metrics are refreshed")
	}
	reset()
	s.stop()
	nd.Cover("end")
}
