package hqueue

import (
	"strconv"
	"sync"

	"github.com/takenet/deckard"
	"github.com/takenet/deckard/internal/zzverif/nd"
)

var confNames = []string{"q", "q::1", "r"}

// limits is what edits have made of the limits of the queues.
type limits map[string]int64

func (l limits) edit(q string, m int64) {
	l[q] = nd.IteInt(m > 0, m, nd.IteInt(m < 0, 0, l[q]))
}

// a history of edits and reads of queue limits through the service, the storage failing at any call
func VH_P16_Service() {
	w := newWorld()
	svc := w.service()
	n := 3
	if nd.Thorough() {
		n = 4
	}
	want := limits{}
	w.f.on, w.f.budget = true, 1
	if nd.Thorough() {
		w.f.budget = 2
	}
	for i := 0; i < n; i++ {
		q := confNames[nd.Choose("queue"+strconv.Itoa(i), 2)]
		failed := len(w.f.how)
		switch nd.Choose("op"+strconv.Itoa(i), 3) {
		case 0:
			m := nd.Int64("max"+strconv.Itoa(i), -1<<63, 1<<63-1)
			r, err := svc.EditQueue(w.Ctx, &deckard.EditQueueRequest{Queue: q, Configuration: &deckard.QueueConfiguration{MaxElements: m}})
			if len(w.f.how) > failed {
				nd.Assert(err != nil && r == nil, "a failed edit is reported")
				if w.f.how[failed] == unsure {
					want.edit(q, m)
				}
				continue
			}
			nd.Assert(err == nil && r != nil && r.Success && r.Queue == q, "an edit works")
			want.edit(q, m)
		case 1:
			r, err := svc.EditQueue(w.Ctx, &deckard.EditQueueRequest{Queue: q})
			nd.Assert(err == nil && r != nil && !r.Success && r.Queue == q, "an edit of nothing is refused")
		case 2:
			r, err := svc.GetQueue(w.Ctx, &deckard.GetQueueRequest{Queue: q})
			if len(w.f.how) > failed {
				nd.Assert(err != nil && r == nil, "a failed read is reported")
				continue
			}
			nd.Assert(err == nil && r != nil, "a configuration can be read")
			nd.Assert(r.Queue == q && r.Configuration != nil && r.Configuration.MaxElements == want[q], "a read returns the limit edited last")
		}
	}
	w.f.on = false
	for _, q := range confNames {
		r, err := svc.GetQueue(w.Ctx, &deckard.GetQueueRequest{Queue: q})
		nd.Assert(err == nil && r != nil && r.Queue == q && r.Configuration != nil, "a configuration can be read")
		nd.Assert(r.Configuration.MaxElements == want[q], "a read returns the limit edited last")
		c, err := w.mem.GetQueueConfiguration(w.Ctx, q)
		nd.Assert(err == nil, "the stored configuration can be read")
		got := int64(0)
		if c != nil {
			nd.Assert(c.Queue == q, "the stored configuration is the queue's")
			got = c.MaxElements
		}
		nd.Assert(got == want[q], "the limit edited last is the one stored")
	}
	nd.Cover("end")
}

// edits and reads at the same time
func VH_P16_Together() {
	w := newWorld()
	svc := w.service()
	edit := func(m int64) {
		_, err := svc.EditQueue(w.Ctx, &deckard.EditQueueRequest{Queue: "q", Configuration: &deckard.QueueConfiguration{MaxElements: m}})
		nd.Assert(err == nil, "an edit works")
	}
	get := func() int64 {
		r, err := svc.GetQueue(w.Ctx, &deckard.GetQueueRequest{Queue: "q"})
		nd.Assert(err == nil, "a configuration can be read")
		return r.Configuration.MaxElements
	}
	m := []int64{nd.Int64("max", 1, 1<<62), nd.Int64("max", 1, 1<<62), nd.Int64("max", 1, 1<<62)}
	edit(m[0])
	if nd.Choose("read", 2) == 1 {
		get()
	}
	both := nd.Choose("op", 2) == 1
	k := 1
	if nd.Thorough() {
		k = 3
	}
	wg := &sync.WaitGroup{}
	wg.Add(2)
	nd.Threads(k)
	go func() {
		defer wg.Done()
		edit(m[1])
	}()
	var seen int64
	go func() {
		defer wg.Done()
		if both {
			edit(m[2])
		} else {
			seen = get()
		}
	}()
	wg.Wait()
	nd.NoThreads()
	last := get()
	c, err := w.mem.GetQueueConfiguration(w.Ctx, "q")
	nd.Assert(err == nil && c != nil && c.MaxElements == last, "the limit read is the one stored")
	if both {
		nd.Assert(nd.Or(last == m[1], last == m[2]), "the limit read is one of the limits edited last")
	} else {
		nd.Assert(nd.Or(seen == m[0], seen == m[1]), "a read at the time of an edit returns the old or the new limit")
		nd.Assert(last == m[1], "the limit read is the one edited last")
	}
	nd.Cover("end")
}
