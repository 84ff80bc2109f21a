package hmain

import (
	"time"

	"github.com/takenet/deckard/internal/zzverif/hlat"
	"github.com/takenet/deckard/internal/zzverif/nd"
)

// every run of a pass records how long it took, but for those that had nothing to do
func VH_P36_Passes() {
	nd.Single()
	d, step := 300*time.Millisecond, 100*time.Millisecond
	s := configure("REDIS", "MONGODB")
	pass := nd.Choose("pass", passes)
	only(map[int]time.Duration{pass: d})
	r := &runs{d: d, fail: nd.Choose("fail", 3), takes: step * time.Duration(nd.Choose("takes", 2))}
	l := hlat.Watch()
	r.watched(s)
	nd.Timers(12)
	nd.Elapse(2 * (d + r.takes))
	nd.Quiesce()
	nd.Assert(r.n >= 2, "a pass runs again and again")
	n := 0
	for _, x := range *l {
		if x.Name != "deckard_housekeeper_task_latency" {
			continue
		}
		n++
		nd.Assert(x.Labels["task"] == []string{"unlock", "timeout", "metrics", "recovery", "max_elements", "ttl"}[pass], "a duration is recorded under the name of what took it")
		x.Took(r.takes)
	}
	nd.Assert(n >= 1 && n <= r.n, "every run records how long it took")
	if pass != recovering && r.fail == 0 {
		nd.Assert(n == r.n, "every run records how long it took")
	}
	r.unwatch(s)
	nd.Cover("end")
}
