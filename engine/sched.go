package main

// Goroutines, channels and sync objects.  One goroutine of the interpreted
// program runs at a time; at every synchronisation operation the next one to
// run is a nondeterministic decision explored like any branch.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type gor struct {
	id    int
	top   *frame
	wake  chan struct{}
	ready func() bool // nil when runnable
	done  bool
	dead  chan struct{}
	vc    vclock
}

type Chan struct {
	cap    int
	buf    []value
	closed bool
	et     types.Type
	// unbuffered rendezvous
	recvWait int
	sendq    []*value
	vc       vclock
}

// syncObj is the state of a sync.Mutex, RWMutex, WaitGroup, Cond or Once.
type syncObj struct {
	locked  bool
	readers int
	count   int64
	waiters []*gor
	woken   map[*gor]bool
	done    bool
	running bool
	vc      vclock
	rvc     vclock // released by readers
}

func (in *interp) syncOf(a *value) *syncObj {
	s := in.syncs[a]
	if s == nil {
		s = &syncObj{woken: map[*gor]bool{}}
		in.syncs[a] = s
	}
	return s
}

func (in *interp) spawn(fr *frame, fn value, args []value) {
	in.gors++
	if len(in.all) > 256 {
		in.p.stop("limit", "more than 256 goroutines")
	}
	g := &gor{id: len(in.all), wake: make(chan struct{}), dead: make(chan struct{})}
	in.all = append(in.all, g)
	if fr.g.vc == nil {
		fr.g.tick()
	}
	g.vc = fr.g.vc.copy()
	g.tick()
	fr.g.tick()
	go func() {
		defer close(g.dead)
		<-g.wake
		if in.abort != nil {
			return
		}
		defer func() {
			if r := recover(); r != nil {
				in.gorPanic(r)
			}
			g.done = true
			in.exitGor(g)
		}()
		root := in.rootFrame(g)
		in.call(root, fn, args, 0)
	}()
	in.yield(fr)
}

// gorPanic turns a panic on a secondary goroutine into the end of the path.
func (in *interp) gorPanic(r any) {
	if in.abort != nil {
		return
	}
	e := in.p.e.classify(in.p, r)
	in.abort = &e
}

// exitGor hands the baton over when a goroutine ends.
func (in *interp) exitGor(g *gor) {
	if in.abort != nil {
		// give control to the main goroutine, which ends the path
		select {
		case in.all[0].wake <- struct{}{}:
		case <-in.all[0].dead:
		}
		return
	}
	var next *gor
	func() {
		defer func() {
			if r := recover(); r != nil {
				in.gorPanic(r)
				next = in.all[0]
			}
		}()
		next = in.pick(nil)
		if next == nil {
			// every other goroutine is blocked
			in.deadlock()
		}
	}()
	in.cur = next
	next.ready = nil
	next.wake <- struct{}{}
}

func (in *interp) runnable(except *gor) []*gor {
	var r []*gor
	for _, g := range in.all {
		if g.done || g == except {
			continue
		}
		if g.ready == nil || g.ready() {
			r = append(r, g)
		}
	}
	return r
}

func (in *interp) pick(except *gor) *gor {
	r := in.runnable(except)
	if len(r) == 0 {
		return nil
	}
	return r[in.choose(len(r))]
}

// choose is a scheduling decision.
func (in *interp) choose(n int) int {
	c := in.p.choose(n)
	if n > 1 {
		in.p.sched = append(in.p.sched, int64(c))
	}
	return c
}

func (in *interp) deadlock() {
	in.p.violate("deadlock", "all goroutines are asleep - deadlock!", nil, nil)
}

// switchTo transfers control; returns when g is scheduled again.
func (in *interp) switchTo(g, next *gor) {
	if next == g {
		g.ready = nil
		return
	}
	in.cur = next
	next.ready = nil
	next.wake <- struct{}{}
	<-g.wake
	if in.abort != nil {
		panic(*in.abort)
	}
	g.ready = nil
	in.cur = g
}

// yield lets any runnable goroutine continue (bounded number of preemptions).
func (in *interp) yield(fr *frame) {
	if len(in.all) < 2 {
		return
	}
	g := fr.g
	r := in.runnable(g)
	if len(r) == 0 {
		return
	}
	if in.preempt >= in.e.maxPreempt(in.p.h) {
		return
	}
	c := in.choose(len(r) + 1)
	if c == 0 {
		return
	}
	in.preempt++
	in.switchTo(g, r[c-1])
}

// block waits until cond holds.
func (in *interp) block(fr *frame, cond func() bool) {
	g := fr.g
	if cond() {
		return
	}
	for !cond() {
		g.ready = cond
		next := in.pick(g)
		if next == nil {
			in.deadlock()
		}
		in.switchTo(g, next)
	}
	g.ready = nil
}

// killAll ends the remaining goroutines of a finished path.
func (in *interp) killAll() {
	if in.abort == nil {
		in.abort = &pathEnd{status: "ok"}
	}
	for _, g := range in.all[1:] {
		for {
			stop := false
			select {
			case g.wake <- struct{}{}:
			case <-in.all[0].wake:
			case <-g.dead:
				stop = true
			}
			if stop {
				break
			}
		}
	}
}

// ---- channels ----

func (in *interp) send(fr *frame, c *Chan, v value) {
	in.yield(fr)
	if c == nil {
		in.block(fr, func() bool { return false })
	}
	in.release(fr.g, &c.vc)
	defer func() { in.acquire(fr.g, c.vc) }()
	if c.closed {
		in.targetPanicStr("send on closed channel")
	}
	if c.cap > 0 {
		in.block(fr, func() bool { return len(c.buf) < c.cap || c.closed })
		if c.closed {
			in.targetPanicStr("send on closed channel")
		}
		c.buf = append(c.buf, v)
		return
	}
	// unbuffered: deposit, then wait until taken
	slot := &v
	c.sendq = append(c.sendq, slot)
	in.block(fr, func() bool {
		for _, s := range c.sendq {
			if s == slot {
				return c.closed
			}
		}
		return true
	})
	for _, s := range c.sendq {
		if s == slot {
			in.targetPanicStr("send on closed channel")
		}
	}
}

func (c *Chan) canRecv() bool { return len(c.buf) > 0 || len(c.sendq) > 0 || c.closed }

func (c *Chan) take() (value, bool) {
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = c.buf[1:]
		return v, true
	}
	if len(c.sendq) > 0 {
		v := *c.sendq[0]
		c.sendq = c.sendq[1:]
		return v, true
	}
	return nil, false
}

func (in *interp) recv(fr *frame, c *Chan) (value, bool) {
	in.yield(fr)
	if c == nil {
		in.block(fr, func() bool { return false })
	}
	in.release(fr.g, &c.vc)
	c.recvWait++
	in.block(fr, c.canRecv)
	c.recvWait--
	in.acquire(fr.g, c.vc)
	return c.take()
}

func (in *interp) closeChan(fr *frame, c *Chan) {
	in.yield(fr)
	if c == nil {
		in.targetPanicStr("close of nil channel")
	}
	if c.closed {
		in.targetPanicStr("close of closed channel")
	}
	c.closed = true
	in.release(fr.g, &c.vc)
}

func (in *interp) selectStmt(fr *frame, instr *ssa.Select) value {
	in.yield(fr)
	type st struct {
		c    *Chan
		send value
	}
	sts := make([]st, len(instr.States))
	for i, s := range instr.States {
		sts[i].c = fr.get(s.Chan).(*Chan)
		if s.Send != nil {
			sts[i].send = copyVal(fr.get(s.Send))
		}
	}
	readyList := func() []int {
		var r []int
		for i, s := range instr.States {
			c := sts[i].c
			if c == nil {
				continue
			}
			if s.Dir == types.RecvOnly {
				if c.canRecv() {
					r = append(r, i)
				}
			} else if c.closed || (c.cap > 0 && len(c.buf) < c.cap) || (c.cap == 0 && c.recvWait > len(c.sendq)) {
				r = append(r, i)
			}
		}
		return r
	}
	chosen := -1
	r := readyList()
	if len(r) == 0 && instr.Blocking {
		for _, s := range instr.States {
			_ = s
		}
		for i, s := range instr.States {
			if s.Dir == types.RecvOnly && sts[i].c != nil {
				sts[i].c.recvWait++
			}
		}
		in.block(fr, func() bool { return len(readyList()) > 0 })
		for i, s := range instr.States {
			if s.Dir == types.RecvOnly && sts[i].c != nil {
				sts[i].c.recvWait--
			}
		}
		r = readyList()
	}
	if len(r) > 0 {
		chosen = r[in.choose(len(r))]
	}
	if chosen >= 0 {
		in.release(fr.g, &sts[chosen].c.vc)
		in.acquire(fr.g, sts[chosen].c.vc)
	}
	res := tuple{int64(chosen), false}
	for i, s := range instr.States {
		if s.Dir == types.RecvOnly {
			v := zero(s.Chan.Type().Underlying().(*types.Chan).Elem())
			if i == chosen {
				x, ok := sts[i].c.take()
				if ok {
					v = x
				}
				res[1] = ok
			}
			res = append(res, v)
		} else if i == chosen {
			c := sts[i].c
			if c.closed {
				in.targetPanicStr("send on closed channel")
			}
			if c.cap > 0 {
				c.buf = append(c.buf, sts[i].send)
			} else {
				slot := sts[i].send
				c.sendq = append(c.sendq, &slot)
			}
		}
	}
	return res
}

// ---- sync models ----

func (in *interp) lock(fr *frame, a *value) {
	in.yield(fr)
	s := in.syncOf(a)
	in.block(fr, func() bool { return !s.locked && s.readers == 0 })
	s.locked = true
	in.acquire(fr.g, s.vc)
	in.acquire(fr.g, s.rvc)
}

func (in *interp) unlock(fr *frame, a *value) {
	in.yield(fr)
	s := in.syncOf(a)
	if !s.locked {
		in.targetPanicStr("fatal error: sync: unlock of unlocked mutex")
	}
	s.locked = false
	in.release(fr.g, &s.vc)
}

func (in *interp) condWait(fr *frame, cond *value, locker *value) {
	s := in.syncOf(cond)
	m := in.syncOf(locker)
	if !m.locked {
		in.targetPanicStr("fatal error: sync: unlock of unlocked mutex")
	}
	m.locked = false
	in.release(fr.g, &m.vc)
	g := fr.g
	s.waiters = append(s.waiters, g)
	in.block(fr, func() bool { return s.woken[g] })
	delete(s.woken, g)
	in.block(fr, func() bool { return !m.locked && m.readers == 0 })
	m.locked = true
	in.acquire(g, m.vc)
	in.acquire(g, m.rvc)
	in.acquire(g, s.vc)
}

func (in *interp) condSignal(fr *frame, cond *value, all bool) {
	in.yield(fr)
	s := in.syncOf(cond)
	in.release(fr.g, &s.vc)
	for len(s.waiters) > 0 {
		// Signal wakes one arbitrary waiter
		i := 0
		if !all {
			i = in.choose(len(s.waiters))
		}
		s.woken[s.waiters[i]] = true
		s.waiters = append(s.waiters[:i:i], s.waiters[i+1:]...)
		if !all {
			break
		}
	}
}
