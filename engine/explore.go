package main

import (
	"fmt"
	"os"
	"sort"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// harnessStat collects what happened to one harness.
type harnessStat struct {
	name       string
	fn         *ssa.Function
	queue      []*workItem
	running    int
	spent      time.Duration
	paths      map[string]int
	why        map[string]int
	asserts    map[string]int
	covers     map[string]int
	trivial    int
	unknown    map[string]int
	steps      int64
	branches   int64
	viols      map[string]*violCand // key label+kind+known
	samples    []*pathResult
	nsample    int
	validated  int
	mismatch   []string
	replayed   int
	sched      int
	sampleOnly int
}

type violCand struct {
	v         violation
	count     int
	tries     int
	confirmed bool
	replay    string
	detail    string
}

type explorer struct {
	w        *World
	mu       sync.Mutex
	cond     *sync.Cond
	hs       []*harnessStat
	busy     int
	rep      *replayer
	known    map[string]bool
	dev      bool
	alarm    *violCand
	alarmH   *harnessStat
	nsamples int
	seed     int64
	// totals over workers
	queries, sat, unsat, unknown, fallbacks, modelHits int
	solverTime                                         time.Duration
	funcs                                              map[string]bool
}

func (e *explorer) next() (*harnessStat, *workItem) {
	e.mu.Lock()
	defer e.mu.Unlock()
	for {
		if e.w.stopped() {
			return nil, nil
		}
		var best *harnessStat
		for _, h := range e.hs {
			if len(h.queue) > 0 && (best == nil || h.spent < best.spent) {
				best = h
			}
		}
		if best != nil {
			n := len(best.queue)
			it := best.queue[n-1]
			best.queue = best.queue[:n-1]
			e.busy++
			best.running++
			return best, it
		}
		if e.busy == 0 {
			e.cond.Broadcast()
			return nil, nil
		}
		e.cond.Wait()
	}
}

func (e *explorer) run(workers int) {
	e.cond = sync.NewCond(&e.mu)
	e.funcs = map[string]bool{}
	for _, h := range e.hs {
		h.queue = []*workItem{{harness: h.fn}}
		h.paths, h.why, h.asserts, h.covers = map[string]int{}, map[string]int{}, map[string]int{}, map[string]int{}
		h.unknown, h.viols = map[string]int{}, map[string]*violCand{}
	}
	stopTick := make(chan struct{})
	go func() {
		for {
			select {
			case <-stopTick:
				return
			case <-time.After(500 * time.Millisecond):
				if e.w.stopped() {
					e.mu.Lock()
					e.cond.Broadcast()
					e.mu.Unlock()
				}
			}
		}
	}()
	var wg sync.WaitGroup
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			m := NewM(e.w)
			defer m.sol.Close()
			for {
				h, it := e.next()
				if it == nil {
					break
				}
				t0 := time.Now()
				res := m.runPath(it)
				d := time.Since(t0)
				if pathLog != nil {
					fmt.Fprintf(pathLog, "%s %s %s steps=%d %v dec=%v\n", h.name, res.status, res.why, res.steps, d, m.dec)
				}
				e.done(h, res, d, len(m.dec)-len(it.prefix))
			}
			e.mu.Lock()
			e.queries += m.sol.Queries
			e.sat += m.sol.SatN
			e.unsat += m.sol.UnsatN
			e.unknown += m.sol.UnknownN
			e.fallbacks += m.sol.Fallbacks
			e.modelHits += m.sol.ModelHits
			e.solverTime += m.sol.Time
			for f := range m.funcs {
				e.funcs[f.String()] = true
			}
			e.mu.Unlock()
		}()
	}
	wg.Wait()
	close(stopTick)
}

var pathLog *os.File

func (e *explorer) done(h *harnessStat, res *pathResult, d time.Duration, nb int) {
	e.mu.Lock()
	h.spent += d
	h.paths[res.status]++
	if res.why != "" {
		w := res.why
		if len(w) > 2000 {
			w = w[:2000]
		}
		h.why[res.status+": "+w]++
	}
	for l, n := range res.asserts {
		h.asserts[l] += n
	}
	h.trivial += res.trivial
	for _, u := range res.unknown {
		h.unknown[u]++
	}
	for _, c := range res.covers {
		h.covers[c]++
	}
	h.steps += int64(res.steps)
	if nb > 0 {
		h.branches += int64(nb)
	}
	if res.sched {
		h.sched++
	}
	h.queue = append(h.queue, res.newItems...)
	if res.status == "ok" && !res.sched {
		// reservoir sample for native validation
		h.nsample++
		if len(h.samples) < e.nsamples {
			h.samples = append(h.samples, res)
		} else if k := int((uint64(h.nsample)*2654435761 + uint64(e.seed)) % uint64(h.nsample)); k < len(h.samples) {
			h.samples[k] = res
		}
	}
	var todo []*violCand
	var todoV []violation
	for _, v := range res.viols {
		key := v.kind + "|" + v.label + "|" + v.known
		c := h.viols[key]
		if c == nil {
			c = &violCand{v: v}
			h.viols[key] = c
		}
		c.count++
		if !c.confirmed && c.tries < 6 {
			c.tries++
			c.v = v
			todo = append(todo, c)
			todoV = append(todoV, v)
		}
	}
	var fallback bool
	if (res.status == "unsupported" || res.status == "error" || (res.status == "bound" && len(res.viols) == 0 && res.why != "time budget")) && h.sampleOnly < 40 {
		h.sampleOnly++
		fallback = true
	}
	e.mu.Unlock()
	for i, c := range todo {
		e.confirm(h, c, todoV[i])
	}
	if fallback && e.rep != nil {
		// the path could not be decided: run its inputs on the real code at least
		r := e.rep.run(h.name, res.sample, 1)
		e.mu.Lock()
		h.replayed++
		e.mu.Unlock()
		if r.bad() {
			v := violation{label: r.label, kind: r.kind, detail: "native run of an undecided path: " + r.detail, replay: res.sample}
			if r.kind == "known" {
				v.known = r.detail
				v.kind = "assert"
			}
			e.mu.Lock()
			key := v.kind + "|" + v.label + "|" + v.known
			c := h.viols[key]
			if c == nil {
				c = &violCand{v: v}
				h.viols[key] = c
			}
			e.mu.Unlock()
			e.accept(h, c, v, r)
		}
	}
	e.mu.Lock()
	e.busy--
	h.running--
	e.cond.Broadcast()
	e.mu.Unlock()
}

// confirm replays a counterexample on the real code.
func (e *explorer) confirm(h *harnessStat, c *violCand, v violation) {
	if e.rep == nil {
		return
	}
	tries := 1
	if v.sched {
		tries = 60
	}
	r := e.rep.runViolation(h.name, v, tries)
	e.mu.Lock()
	h.replayed++
	e.mu.Unlock()
	if !r.confirms(v) {
		e.mu.Lock()
		c.detail = fmt.Sprintf("native run: %s %s %s", r.kind, r.label, r.detail)
		e.mu.Unlock()
		return
	}
	e.accept(h, c, v, r)
}

func (e *explorer) accept(h *harnessStat, c *violCand, v violation, r *nativeResult) {
	e.mu.Lock()
	defer e.mu.Unlock()
	if c.confirmed {
		return
	}
	c.confirmed = true
	c.v = v
	c.detail = v.detail
	if r.detail != "" && r.detail != v.detail {
		c.detail += " (" + r.detail + ")"
	}
	if v.known != "" && e.known[v.known] {
		return
	}
	if e.alarm == nil {
		e.alarm, e.alarmH = c, h
	}
	if !e.dev {
		go e.w.stop()
	}
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
