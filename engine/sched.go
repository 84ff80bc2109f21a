package main

import (
	"fmt"
	"go/types"
	"runtime/debug"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type killed struct{}

func stackOf() string {
	s := string(debug.Stack())
	lines := strings.Split(s, "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "/engine/") {
			out = append(out, strings.TrimSpace(l))
		}
	}
	if len(out) > 14 {
		out = out[:14]
	}
	return "\n  " + strings.Join(out, "\n  ")
}

// VC is a vector clock.
type VC []int32

func (a VC) get(i int) int32 {
	if i < len(a) {
		return a[i]
	}
	return 0
}
func (a VC) join(b VC) VC {
	for len(a) < len(b) {
		a = append(a, 0)
	}
	for i, x := range b {
		if x > a[i] {
			a[i] = x
		}
	}
	return a
}
func (a VC) clone() VC { return append(VC{}, a...) }

// Thread is a simulated goroutine; exactly one runs at a time.
type Thread struct {
	id      int
	wake    chan struct{}
	done    bool
	blocked func() bool
	vc      VC
	fail    interface{}
	daemon  bool
	name    string
}

type timerRec struct {
	at    int64
	c     *Chan
	every int64
	fn    Value
	dead  bool
}

func (m *M) tick() {
	t := m.cur
	for len(t.vc) <= t.id {
		t.vc = append(t.vc, 0)
	}
	t.vc[t.id]++
}

func (m *M) spawn(fr *frame, fv Value, args []Value) {
	t := &Thread{id: len(m.threads), wake: make(chan struct{})}
	m.tick()
	t.vc = m.cur.vc.clone()
	for len(t.vc) <= t.id {
		t.vc = append(t.vc, 0)
	}
	t.vc[t.id] = 1
	if f, ok := fv.(*ssa.Function); ok && f != nil {
		t.name = f.String()
	} else if c, ok := fv.(*Closure); ok {
		t.name = c.fn.String()
	}
	m.threads = append(m.threads, t)
	if len(m.threads) > 64 {
		panic(pathEnd{"too many goroutines"})
	}
	go func() {
		<-t.wake
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(killed); !ok {
					t.fail = r
				}
			}
			t.done = true
			if m.killing {
				m.threads[0].wake <- struct{}{}
				return
			}
			if t.fail != nil {
				// report through the main thread
				m.cur = m.threads[0]
				m.threads[0].fail = t.fail
				m.threads[0].wake <- struct{}{}
				return
			}
			m.handoff(t)
		}()
		if m.killing {
			panic(killed{})
		}
		m.call(nil, fv, args)
	}()
	m.schedPoint()
}

// handoff passes control on from a finished thread.
func (m *M) handoff(t *Thread) {
	defer func() {
		if r := recover(); r != nil {
			m.cur = m.threads[0]
			m.threads[0].fail = r
			m.threads[0].wake <- struct{}{}
		}
	}()
	n := m.pickNext(true)
	m.cur = n
	n.wake <- struct{}{}
}

func (m *M) runnable(t *Thread) bool {
	return !t.done && (t.blocked == nil || t.blocked())
}

// pickNext selects a runnable thread other than the current one (mustLeave) or any.
func (m *M) pickNext(mustLeave bool) *Thread {
	for {
		var c []*Thread
		n := len(m.threads)
		start := m.cur.id
		for i := 1; i <= n; i++ {
			t := m.threads[(start+i)%n]
			if t == m.cur && mustLeave && t.done {
				continue
			}
			if m.runnable(t) {
				c = append(c, t)
			}
		}
		if len(c) > 0 {
			if m.schedND && len(c) > 1 {
				return c[m.choose("sched", len(c), true)]
			}
			return c[0]
		}
		if m.fireTimer() {
			continue
		}
		panic(pathEnd{"deadlock"})
	}
}

func (m *M) switchTo(n *Thread) {
	me := m.cur
	if n == me {
		return
	}
	m.cur = n
	n.wake <- struct{}{}
	<-me.wake
	if m.killing {
		panic(killed{})
	}
	if me.fail != nil {
		f := me.fail
		me.fail = nil
		panic(f)
	}
}

// block waits until pred holds.
func (m *M) block(pred func() bool) {
	if pred() {
		return
	}
	if !m.logging {
		unsupported("blocking during initialisation")
	}
	me := m.cur
	me.blocked = pred
	n := m.pickNext(true)
	me.blocked = nil
	if n != me {
		me.blocked = pred
		m.switchTo(n)
		me.blocked = nil
	}
	if !pred() {
		m.block(pred)
	}
}

// schedPoint is a place where another thread may be scheduled.
func (m *M) schedPoint() {
	if !m.schedND || len(m.threads) < 2 || m.preempt <= 0 {
		return
	}
	var c []*Thread
	for _, t := range m.threads {
		if t != m.cur && m.runnable(t) {
			c = append(c, t)
		}
	}
	if len(c) == 0 {
		return
	}
	k := m.choose("preempt", len(c)+1, true)
	if k == 0 {
		return
	}
	m.preempt--
	m.switchTo(c[k-1])
}

// yieldAll lets every other thread run until it blocks or ends.
func (m *M) quiesce() {
	for {
		var c []*Thread
		for _, t := range m.threads {
			if t != m.cur && m.runnable(t) {
				c = append(c, t)
			}
		}
		if len(c) == 0 {
			return
		}
		k := 0
		if m.schedND && len(c) > 1 {
			k = m.choose("sched", len(c), true)
		}
		// the current thread stays runnable, but only resumes when nobody else can run
		me := m.cur
		me.blocked = func() bool {
			for _, t := range m.threads {
				if t != me && !t.done && (t.blocked == nil || t.blocked()) {
					return false
				}
			}
			return true
		}
		m.switchTo(c[k])
		me.blocked = nil
	}
}

func (m *M) killThreads() {
	m.killing = true
	main := m.threads[0]
	for _, t := range m.threads[1:] {
		if !t.done {
			m.cur = t
			t.wake <- struct{}{}
			<-main.wake
		}
	}
	m.killing = false
}

// ---- channels

func (m *M) chanSend(c *Chan, v Value) {
	m.schedPoint()
	if c == nil {
		m.block(func() bool { return false })
	}
	if c.closed {
		m.goPanic("send on closed channel")
	}
	m.tick()
	if c.cap > 0 {
		m.block(func() bool { return c.closed || len(c.buf) < c.cap })
		if c.closed {
			m.goPanic("send on closed channel")
		}
		m.pushBuf(c, v)
		return
	}
	w := &sendWait{v: v, vc: m.cur.vc.clone()}
	c.sendq = append(c.sendq, w)
	m.block(func() bool { return w.done || c.closed })
	if !w.done {
		m.goPanic("send on closed channel")
	}
}

func (m *M) pushBuf(c *Chan, v Value) {
	old, oldv := c.buf, c.bufvc
	c.buf = append(append([]Value{}, c.buf...), copyVal(v))
	c.bufvc = append(append([]VC{}, c.bufvc...), m.cur.vc.clone())
	m.onUndo(func() { c.buf, c.bufvc = old, oldv })
}

func (m *M) recvReady(c *Chan) bool {
	return len(c.buf) > 0 || len(c.sendq) > 0 || c.closed
}

func (m *M) takeRecv(c *Chan, et types.Type) (Value, bool) {
	if len(c.buf) > 0 {
		old, oldv := c.buf, c.bufvc
		v := c.buf[0]
		m.cur.vc = m.cur.vc.join(c.bufvc[0])
		c.buf, c.bufvc = c.buf[1:], c.bufvc[1:]
		m.onUndo(func() { c.buf, c.bufvc = old, oldv })
		return v, true
	}
	if len(c.sendq) > 0 {
		w := c.sendq[0]
		c.sendq = c.sendq[1:]
		w.done = true
		m.cur.vc = m.cur.vc.join(w.vc)
		return copyVal(w.v), true
	}
	m.cur.vc = m.cur.vc.join(c.vc)
	return m.zero(et), false
}

func (m *M) chanRecv(c *Chan, et types.Type) (Value, bool) {
	m.schedPoint()
	if c == nil {
		m.block(func() bool { return false })
	}
	c.recvw++
	m.block(func() bool { return m.recvReady(c) })
	c.recvw--
	return m.takeRecv(c, et)
}

func (m *M) chanClose(c *Chan) {
	if c == nil {
		m.goPanic("close of nil channel")
	}
	m.schedPoint()
	if c.closed {
		m.goPanic("close of closed channel")
	}
	m.tick()
	c.closed = true
	c.vc = m.cur.vc.clone()
	m.onUndo(func() { c.closed = false })
}

func (m *M) selectStmt(fr *frame, in *ssa.Select) Value {
	m.schedPoint()
	type sc struct {
		c    *Chan
		send Value
		dir  types.ChanDir
	}
	var cs []sc
	for _, s := range in.States {
		c, _ := m.get(fr, s.Chan).(*Chan)
		x := sc{c: c, dir: s.Dir}
		if s.Dir == types.SendOnly {
			x.send = m.get(fr, s.Send)
		}
		cs = append(cs, x)
	}
	ready := func() []int {
		var r []int
		for i, x := range cs {
			if x.c == nil {
				continue
			}
			if x.dir == types.SendOnly {
				if x.c.closed || x.c.cap > 0 && len(x.c.buf) < x.c.cap || x.c.cap == 0 && x.c.recvw > 0 {
					r = append(r, i)
				}
			} else if m.recvReady(x.c) {
				r = append(r, i)
			}
		}
		return r
	}
	r := ready()
	if len(r) == 0 && in.Blocking {
		for _, x := range cs {
			if x.c != nil && x.dir != types.SendOnly {
				x.c.recvw++
			}
		}
		m.block(func() bool { return len(ready()) > 0 })
		for _, x := range cs {
			if x.c != nil && x.dir != types.SendOnly {
				x.c.recvw--
			}
		}
		r = ready()
	}
	res := TupleV{m.st.Const(64, ^uint64(0)), m.st.ff}
	for _, s := range in.States {
		if s.Dir != types.SendOnly {
			res = append(res, m.zero(s.Chan.Type().Underlying().(*types.Chan).Elem()))
		}
	}
	if len(r) == 0 {
		return res
	}
	k := r[0]
	if len(r) > 1 {
		k = r[m.choose("select", len(r), true)]
	}
	res[0] = m.st.Const(64, uint64(k))
	x := cs[k]
	if x.dir == types.SendOnly {
		m.chanSend(x.c, x.send)
		return res
	}
	ri := 2
	for i, s := range in.States {
		if s.Dir == types.SendOnly {
			continue
		}
		if i == k {
			v, ok := m.takeRecv(x.c, s.Chan.Type().Underlying().(*types.Chan).Elem())
			res[ri] = v
			res[1] = m.st.Bool(ok)
		}
		ri++
	}
	return res
}

// ---- timers: virtual time only advances when nothing else can run

func (m *M) fireTimer() bool {
	var best *timerRec
	for _, t := range m.timers {
		if !t.dead && (best == nil || t.at < best.at) {
			best = t
		}
	}
	if best == nil || m.ctrs["timers"] == 0 {
		return false
	}
	m.ctrs["timers"]--
	m.now = best.at
	// every timer due at that instant fires, so that the woken goroutines run in any order
	for _, t := range append([]*timerRec{}, m.timers...) {
		if t.dead || t.at != m.now {
			continue
		}
		if t.every > 0 {
			t.at += t.every
		} else {
			t.dead = true
		}
		if t.fn != nil {
			m.spawn(nil, t.fn, nil)
			continue
		}
		if len(t.c.buf) < t.c.cap {
			m.pushBuf(t.c, m.timeNowValue())
		}
	}
	return true
}

// ---- data races (vector clocks over the accesses of the code under test)

type shadowCell struct {
	wT    int
	wC    int32
	reads VC
	where string
}

func (m *M) access(fr *frame, p interface{}, write bool) {
	if len(m.threads) < 2 || !fr.info.repo {
		return
	}
	t := m.cur
	for len(t.vc) <= t.id {
		t.vc = append(t.vc, 0)
	}
	if m.shadow == nil {
		m.shadow = map[interface{}]*shadowCell{}
	}
	s := m.shadow[p]
	if s == nil {
		s = &shadowCell{wT: -1}
		m.shadow[p] = s
	}
	if s.wT >= 0 && s.wT != t.id && s.wC > t.vc.get(s.wT) {
		m.race(fr, s, write, true)
	}
	if write {
		for i, c := range s.reads {
			if i != t.id && c > t.vc.get(i) {
				m.race(fr, s, write, false)
			}
		}
		s.wT, s.wC = t.id, t.vc[t.id]
		s.where = m.w.posOf(fr)
	} else {
		for len(s.reads) <= t.id {
			s.reads = append(s.reads, 0)
		}
		s.reads[t.id] = t.vc[t.id]
		if s.where == "" {
			s.where = m.w.posOf(fr)
		}
	}
}

func (m *M) race(fr *frame, s *shadowCell, write, wr bool) {
	m.addViolation("race", "race", fmt.Sprintf("unsynchronised access in %s, other access in %s", m.w.posOf(fr), s.where), "")
	panic(pathEnd{"violated"})
}
