// Package hconc runs operations of the in-memory back ends at the same time and compares what they
// do with what the same operations do one after another.
package hconc

import (
	"strings"
	"sync"

	"github.com/takenet/deckard/internal/zzverif/nd"
)

// outcome is what operations returned and what they left behind: its shape, and the values in it.
type outcome struct {
	text   string
	ints   []int64
	floats []float64
	strs   []string
}

func (o *outcome) say(s ...string) { o.text += strings.Join(s, ".") + "/" }
func (o *outcome) int(v int64)     { o.ints = append(o.ints, v); o.text += "i" }
func (o *outcome) float(v float64) { o.floats = append(o.floats, v); o.text += "f" }
func (o *outcome) str(v string)    { o.strs = append(o.strs, v); o.text += "s" }
func (o *outcome) bool(b bool) {
	if b {
		o.int(1)
	} else {
		o.int(0)
	}
}

func (o *outcome) fail(err error) {
	if err != nil {
		o.text += "!"
	}
	o.text += "/"
}

func (o *outcome) add(p *outcome) {
	o.text += p.text + ";"
	o.ints = append(o.ints, p.ints...)
	o.floats = append(o.floats, p.floats...)
	o.strs = append(o.strs, p.strs...)
}

func (o *outcome) same(p *outcome) bool {
	if o.text != p.text {
		return false
	}
	eq := []bool{true}
	for i := range o.ints {
		eq = append(eq, o.ints[i] == p.ints[i])
	}
	for i := range o.floats {
		eq = append(eq, nd.Same(o.floats[i], p.floats[i]))
	}
	for i := range o.strs {
		eq = append(eq, nd.StrEq(o.strs[i], p.strs[i]))
	}
	return nd.And(eq...)
}

// call is an operation on a back end; parts are what it may be broken up into, itself if nil.
type call[T any] struct {
	run   func(x T, o *outcome)
	parts []func(x T, o *outcome)
	join  func([]*outcome) *outcome
}

func one[T any](f func(x T, o *outcome)) call[T] { return call[T]{run: f} }

// orders lists the outcomes of all orders of the parts of the calls.
func orders[T any](calls []call[T], fresh func() T, dump func(x T, o *outcome)) []*outcome {
	var all []*outcome
	parts := make([][]func(x T, o *outcome), len(calls))
	total := 0
	for i, c := range calls {
		parts[i] = c.parts
		if c.parts == nil {
			parts[i] = []func(x T, o *outcome){c.run}
		}
		total += len(parts[i])
	}
	var next func(seq []int)
	next = func(seq []int) {
		if len(seq) == total {
			x := fresh()
			got := make([][]*outcome, len(calls))
			for _, i := range seq {
				o := &outcome{}
				parts[i][len(got[i])](x, o)
				got[i] = append(got[i], o)
			}
			res := &outcome{}
			for i := range calls {
				o := got[i][0]
				if calls[i].join != nil {
					o = calls[i].join(got[i])
				}
				res.add(o)
			}
			dump(x, res)
			all = append(all, res)
			return
		}
		for i := range calls {
			n := 0
			for _, j := range seq {
				if i == j {
					n++
				}
			}
			if n < len(parts[i]) {
				next(append(append([]int{}, seq...), i))
			}
		}
	}
	next(nil)
	return all
}

// together runs the calls at the same time and compares.
func together[T any](calls []call[T], fresh func() T, dump func(x T, o *outcome), k int) {
	nd.MapOrder(false)
	want := orders(calls, fresh, dump)
	x := fresh()
	got := make([]*outcome, len(calls))
	wg := &sync.WaitGroup{}
	wg.Add(len(calls))
	nd.Threads(k)
	for i := range calls {
		got[i] = &outcome{}
		go func() {
			defer wg.Done()
			calls[i].run(x, got[i])
		}()
	}
	wg.Wait()
	nd.NoThreads()
	res := &outcome{}
	for _, o := range got {
		res.add(o)
	}
	dump(x, res)
	nd.Cover("end")
	var any []bool
	for _, o := range want {
		any = append(any, o.same(res))
	}
	nd.Assert(nd.Or(any...), "operations at the same time have the effect of some order of them")
}

func depth() int {
	if nd.Thorough() {
		return 2
	}
	return 1
}
