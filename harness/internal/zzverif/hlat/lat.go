// Package hlat reads the durations recorded in the metrics.
package hlat

import (
	"time"

	"github.com/takenet/deckard/internal/zzverif/nd"
	"go.opentelemetry.io/otel/metric"
)

// longest is the most that one thing takes.
const longest = 2 * time.Second

// Spent is the time spent since the last call to Watch or One.
var Spent time.Duration

// Spend is something that takes time.
func Spend(what string) time.Duration {
	d := nd.Skip(time.Duration(nd.Int64(what, 0, int64(longest))))
	Spent += d
	return d
}

// Sample is one duration.
type Sample struct {
	Name   string
	Ms     int64
	Labels map[string]string
}

// Watch keeps what is recorded from now on.
func Watch() *[]Sample {
	r := &[]Sample{}
	Spent = 0
	metric.Durations = func(name string, ms int64, opts []metric.RecordOption) {
		s := Sample{name, ms, map[string]string{}}
		for _, o := range opts {
			m, ok := o.(metric.MeasurementOption)
			if !ok {
				continue
			}
			for i := 0; i < m.Set.Len(); i++ {
				kv, _ := m.Set.Get(i)
				s.Labels[string(kv.Key)] = kv.Value.AsString()
			}
		}
		*r = append(*r, s)
	}
	return r
}

// Took checks a duration.
func (s Sample) Took(d time.Duration) {
	nd.Assert(time.Duration(s.Ms+1)*time.Millisecond > d, "a duration is the time it took, in milliseconds")
	s.AtMost(d)
}

// AtMost checks the duration of work of which some was done at the same time. What
// is under test may wait a little itself, and a native run may be slow.
func (s Sample) AtMost(d time.Duration) {
	slack := 50 * time.Millisecond
	if !nd.Symbolic() {
		slack = 20 * time.Second
	}
	nd.Assert(time.Duration(s.Ms)*time.Millisecond <= d+slack, "a duration is the time it took, in milliseconds")
}

// One checks that there is one sample, of this name and with these labels, and of the time spent.
func One(r *[]Sample, name string, labels ...string) {
	only(r, name, labels...).Took(Spent)
	Spent = 0
}

// OneAtMost is One for work of which some is done at the same time.
func OneAtMost(r *[]Sample, name string, labels ...string) {
	s := only(r, name, labels...)
	s.AtMost(Spent)
	if nd.Symbolic() { // where the clock is the sum of what was spent
		s.Took(Spent)
	}
	Spent = 0
}

func only(r *[]Sample, name string, labels ...string) Sample {
	nd.Assert(len(*r) == 1, "every duration is recorded once")
	s := (*r)[0]
	nd.Assert(s.Name == name, "a duration is recorded under the name of what took it")
	for i := 0; i+1 < len(labels); i += 2 {
		nd.Assert(s.Labels[labels[i]] == labels[i+1], "a duration is recorded under the name of what took it")
	}
	*r = nil
	return s
}
