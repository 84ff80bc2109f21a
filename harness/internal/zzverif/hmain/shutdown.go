// Package hmain is a copy of the main package, regenerated from the tree on every run, with the
// harnesses of its scheduler and of the shutdown sequence.
package hmain

import (
	"context"
	"sync"
	"time"

	"github.com/takenet/deckard/internal/shutdown"
	"github.com/takenet/deckard/internal/zzverif/nd"
)

const period = 2 * time.Millisecond

// job watches the runs of one background task.
type job struct {
	name     string
	critical bool
	began    int
	running  bool
	others   *int
	lock     *sync.Mutex
}

func (j *job) run() bool {
	nd.Assert(!j.running, "a task does not overlap itself")
	j.begin()
	if j.lock != nil {
		*j.others++
		nd.Assert(*j.others == 1, "tasks sharing a lock do not run at the same time")
	}
	nd.Yield()
	nd.Yield()
	j.check("at the end of a run")
	if j.lock != nil {
		*j.others--
	}
	j.running = false
	return nd.Choose("metrify", 2) == 1
}

func (j *job) begin() {
	j.running = true
	j.began++
	j.check("at the start of a run")
}

func (j *job) check(when string) {
	nd.Assert(!shutdown.HasFinished(), "shutdown is not reported finished while a task runs: "+when)
	nd.Assert(!j.critical || ctx.Err() == nil, "critical work is over before the context is cancelled: "+when)
}

func (j *job) group() *sync.WaitGroup {
	if j.critical {
		return shutdown.CriticalWaitGroup
	}
	return shutdown.WaitGroup
}

func (j *job) start() {
	scheduleTask(j.name, j.lock, j.group(), period, j.run)
}

func setup() {
	shutdown.Reset()
	shutdown.CriticalWaitGroup = &sync.WaitGroup{}
	shutdown.WaitGroup = &sync.WaitGroup{}
	ctx, cancel = context.WithCancel(context.Background())
}

// shut performs the shutdown and says what has to hold once it is over.
func shut(js ...*job) {
	shutdown.PerformShutdown(ctx, cancel, nil)
	nd.Assert(shutdown.Ongoing() && shutdown.HasFinished(), "the shutdown has started and finished")
	nd.Assert(ctx.Err() != nil, "the context is cancelled")
	var n []int
	for _, j := range js {
		nd.Assert(!j.running, "shutdown waits for the background tasks")
		n = append(n, j.began)
	}
	nd.Quiesce()
	for i, j := range js {
		nd.Assert(j.began == n[i], "no run begins after the shutdown")
	}
}

func preemptions() int {
	if nd.Thorough() {
		return 3
	}
	return 2
}

// the shutdown starts at the very moment a task is due
func VH_P24_Due() {
	nd.Single()
	setup()
	j := &job{name: "t", critical: nd.Choose("critical", 2) == 1}
	nd.Timers(2)
	nd.Threads(preemptions())
	nd.Go(j.start)
	nd.Elapse(period)
	shut(j)
}

// the shutdown starts while a task runs
func VH_P24_Running() {
	nd.Single()
	setup()
	j := &job{name: "t", critical: nd.Choose("critical", 2) == 1}
	nd.Timers(3)
	up := make(chan bool, 10)
	nd.Go(func() {
		scheduleTask(j.name, nil, j.group(), period, func() bool {
			j.begin()
			up <- true
			nd.Yield()
			j.check("at the end of a run")
			j.running = false
			return false
		})
	})
	<-up
	nd.Threads(preemptions())
	shut(j)
}

// two tasks share the lock of the background tasks: one of them is due while the other runs
func VH_P24_Locked() {
	nd.Single()
	setup()
	l, n := &sync.Mutex{}, 0
	a := &job{name: "recovery", critical: true, lock: l, others: &n}
	b := &job{name: "ttl", lock: l, others: &n}
	nd.Timers(3)
	nd.Threads(preemptions() - 1)
	nd.Go(a.start)
	nd.Go(b.start)
	nd.Elapse(period)
	shut(a, b)
}

// work registered before the shutdown is waited for, whatever group it is in
func VH_P24_Groups() {
	nd.Single()
	setup()
	var critical, normal bool
	shutdown.CriticalWaitGroup.Add(1)
	shutdown.WaitGroup.Add(1)
	nd.Threads(preemptions())
	nd.Go(func() {
		<-shutdown.Started
		nd.Yield()
		nd.Assert(ctx.Err() == nil, "critical work is over before the context is cancelled")
		nd.Assert(!shutdown.HasFinished(), "the shutdown has not finished yet")
		critical = true
		shutdown.CriticalWaitGroup.Done()
	})
	nd.Go(func() {
		<-ctx.Done()
		nd.Assert(critical, "the context is cancelled after the critical work")
		nd.Yield()
		nd.Assert(!shutdown.HasFinished(), "the shutdown has not finished yet")
		normal = true
		shutdown.WaitGroup.Done()
	})
	nd.Go(func() {
		<-shutdown.Finished
		nd.Assert(critical && normal, "all work is over when the shutdown has finished")
	})
	nd.Assert(!shutdown.Ongoing() && !shutdown.HasFinished(), "nothing has started yet")
	shutdown.PerformShutdown(ctx, cancel, nil)
	nd.Assert(critical && normal, "the shutdown waits for all work")
	nd.Quiesce()
}
