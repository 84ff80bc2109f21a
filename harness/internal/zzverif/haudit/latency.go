package haudit

import (
	"context"
	"time"

	"github.com/takenet/deckard/internal/zzverif/hlat"
	"github.com/takenet/deckard/internal/zzverif/nd"
)

// every request records how long it took, every entry how long it waited to be taken up
func VH_P36_Audit() {
	w := connect(size, wait)
	nd.Timers(40)
	var requests []time.Duration
	w.s.how = func(what string) int {
		if what != "bulk" {
			return fine
		}
		requests = append(requests, hlat.Spend("request"))
		return nd.Choose("how", 3)
	}
	r := hlat.Watch()
	k := nd.Choose("entries", 5)
	for range k {
		w.a.Store(context.Background(), w.next())
		hlat.One(r, "deckard_auditor_store_add_latency")
	}
	w.stop()
	w.a.StartSender(w.ctx)
	w.wg.Wait()
	nd.Assert(len(*r) == len(requests) && len(requests) == (k+1)/2, "every request records how long it took")
	for i, s := range *r {
		nd.Assert(s.Name == "deckard_auditor_store_latency", "a duration is recorded under the name of what took it")
		s.Took(requests[i])
	}
	nd.Cover("end")
}
