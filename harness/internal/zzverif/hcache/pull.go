package hcache

import (
	"github.com/takenet/deckard/internal/zzverif/nd"
)

// every set of up to k available messages, every n, every optional bounds
func VH_P02_Pull() {
	w := NewWorld()
	w.Tick()
	k := 3
	if nd.Thorough() {
		k = 4
	}
	n := nd.Choose("size", k+1)
	for i := 0; i < n; i++ {
		w.Add("q", ids[i], Available)
	}
	lo, hi := bound("min"), bound("max")
	num := int64(nd.Choose("n", k+2))
	got, err := w.C.PullMessages(w.Ctx, "q", num, lo, hi, 1000)
	w.checkPull("q", num, lo, hi, got, err)
	nd.ObserveInt("count", int64(len(got)))
	for _, id := range got {
		nd.ObserveStr("id", id)
	}
	if len(got) > 1 && len(got) < n {
		nd.Cover("some")
	}
	w.Pulled("q", got, 1000)
	w.Verify("q")
}

// other states and other queues are not touched by a pull
func VH_P02_PullOthers() {
	w := NewWorld()
	w.Tick()
	w.Fill("q", ids[:2], Processing, LockedAck, LockedNack, Available)
	w.Add("other", "a", Available)
	w.Tick()
	lo := bound("min")
	got, err := w.C.PullMessages(w.Ctx, "q", 1, lo, nil, 1000)
	w.checkPull("q", 1, lo, nil, got, err)
	w.Pulled("q", got, 1000)
	w.Verify("q", "other")
	nd.Cover("end")
}
