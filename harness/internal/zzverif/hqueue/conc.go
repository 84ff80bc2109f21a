package hqueue

import (
	"sync"

	"github.com/takenet/deckard"
	"github.com/takenet/deckard/internal/zzverif/hcache"
	"github.com/takenet/deckard/internal/zzverif/nd"
)

// requests about the same message at the same time
func VH_P18_Service() {
	w := newWorld()
	nd.MapOrder(false)
	w.Tick()
	if st := nd.Choose("state", 3); st > 0 {
		w.store("q", "a")
		if st > 1 {
			w.Add("q", "a", hcache.Processing)
		}
	}
	svc := w.service()
	w.a.mute = true
	add := func() {
		_, err := svc.Add(w.Ctx, &deckard.AddRequest{Messages: []*deckard.AddMessage{{Id: "a", Queue: "q", Timeless: true, StringPayload: "new"}}})
		nd.Assert(err == nil, "adding works at any time")
	}
	r := &deckard.AckRequest{Id: "a", Queue: "q"}
	op := nd.Choose("op", 6)
	switch op {
	case 0:
		r.Score = validScore("score")
	case 1:
		r.LockMs = nd.Int64("lock", -1, 1<<40)
	}
	other := []func() error{
		func() error { _, err := svc.Ack(w.Ctx, r); return err },
		func() error { _, err := svc.Nack(w.Ctx, r); return err },
		func() error { _, err := svc.Pull(w.Ctx, &deckard.PullRequest{Queue: "q", Amount: 2}); return err },
		func() error {
			_, err := svc.Remove(w.Ctx, &deckard.RemoveRequest{Queue: "q", Ids: []string{"a"}})
			return err
		},
		func() error { _, err := svc.GetById(w.Ctx, &deckard.GetByIdRequest{Queue: "q", Id: "a"}); return err },
		func() error { add(); return nil },
	}[op]
	wg := &sync.WaitGroup{}
	wg.Add(2)
	k := 1
	if nd.Thorough() {
		k = 2
	}
	nd.Threads(k)
	go func() {
		defer wg.Done()
		add()
	}()
	go func() {
		defer wg.Done()
		nd.Assert(other() == nil, "a request works at any time")
	}()
	wg.Wait()
	nd.NoThreads()
	nd.Cover("end")
}
