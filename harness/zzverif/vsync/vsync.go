// Package vsync stands in for sync, sync/atomic and runtime when a schedule
// found by the symbolic executor is replayed against the real code: it mirrors
// the executor's scheduler step by step, taking every scheduling decision from
// the recorded list.  Only one goroutine runs at a time.
package vsync

import (
	"os"
	"runtime"
	"time"

	"github.com/RenatoGeh/gospn/zzverif/nd"
)

type gor struct {
	wake  chan struct{}
	ready func() bool
	done  bool
}

var (
	all     = []*gor{{wake: make(chan struct{})}}
	cur     = all[0]
	preempt int
	pos     int
)

func choose(n int) int {
	if n <= 1 {
		return 0
	}
	s := nd.Schedule()
	if pos >= len(s) {
		pos++
		return 0
	}
	c := int(s[pos])
	pos++
	if c >= n {
		os.Stdout.WriteString("RESULT mismatch schedule\n")
		os.Exit(3)
	}
	return c
}

func runnable(except *gor) []*gor {
	var r []*gor
	for _, g := range all {
		if g.done || g == except {
			continue
		}
		if g.ready == nil || g.ready() {
			r = append(r, g)
		}
	}
	return r
}

func pick(except *gor) *gor {
	r := runnable(except)
	if len(r) == 0 {
		return nil
	}
	return r[choose(len(r))]
}

func deadlock() {
	os.Stdout.WriteString("RESULT crash fatal error: all goroutines are asleep - deadlock!\n")
	os.Exit(2)
}

func switchTo(g, next *gor) {
	if next == g {
		g.ready = nil
		return
	}
	cur = next
	next.ready = nil
	next.wake <- struct{}{}
	<-g.wake
	g.ready = nil
	cur = g
}

func yield() {
	if len(all) < 2 {
		return
	}
	g := cur
	r := runnable(g)
	if len(r) == 0 || preempt >= nd.Preemptions() {
		return
	}
	c := choose(len(r) + 1)
	if c == 0 {
		return
	}
	preempt++
	switchTo(g, r[c-1])
}

func block(cond func() bool) {
	g := cur
	for !cond() {
		g.ready = cond
		next := pick(g)
		if next == nil {
			deadlock()
		}
		switchTo(g, next)
	}
	g.ready = nil
}

func fatal(s string) {
	os.Stdout.WriteString("RESULT crash " + s + "\n")
	os.Exit(2)
}

// Go starts a goroutine.
func Go(f func()) {
	g := &gor{wake: make(chan struct{})}
	all = append(all, g)
	go func() {
		<-g.wake
		f()
		g.done = true
		next := pick(nil)
		if next == nil {
			deadlock()
		}
		cur = next
		next.ready = nil
		next.wake <- struct{}{}
	}()
	yield()
}

// Locker is sync.Locker.
type Locker interface {
	Lock()
	Unlock()
}

// Mutex is sync.Mutex.
type Mutex struct {
	locked  bool
	readers int
}

func (m *Mutex) free() bool { return !m.locked && m.readers == 0 }

func (m *Mutex) Lock() {
	yield()
	block(m.free)
	m.locked = true
}

func (m *Mutex) Unlock() {
	yield()
	if !m.locked {
		fatal("fatal error: sync: unlock of unlocked mutex")
	}
	m.locked = false
}

func (m *Mutex) TryLock() bool {
	yield()
	if !m.free() {
		return false
	}
	m.locked = true
	return true
}

// RWMutex is sync.RWMutex.
type RWMutex struct{ Mutex }

func (m *RWMutex) RLock() {
	yield()
	block(func() bool { return !m.locked })
	m.readers++
}

func (m *RWMutex) RUnlock() {
	yield()
	if m.readers <= 0 {
		fatal("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
}

// WaitGroup is sync.WaitGroup.
type WaitGroup struct{ count int }

func (w *WaitGroup) Add(d int) {
	yield()
	w.count += d
	if w.count < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	yield()
	block(func() bool { return w.count == 0 })
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(func() {
		f()
		w.Done()
	})
}

// Cond is sync.Cond.
type Cond struct {
	L       Locker
	waiters []*gor
	woken   map[*gor]bool
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	var m *Mutex
	switch l := c.L.(type) {
	case *Mutex:
		m = l
	case *RWMutex:
		m = &l.Mutex
	default:
		os.Stdout.WriteString("RESULT mismatch locker\n")
		os.Exit(3)
	}
	if !m.locked {
		fatal("fatal error: sync: unlock of unlocked mutex")
	}
	m.locked = false
	g := cur
	c.waiters = append(c.waiters, g)
	if c.woken == nil {
		c.woken = map[*gor]bool{}
	}
	block(func() bool { return c.woken[g] })
	delete(c.woken, g)
	block(m.free)
	m.locked = true
}

func (c *Cond) signal(every bool) {
	yield()
	for len(c.waiters) > 0 {
		i := 0
		if !every {
			i = choose(len(c.waiters))
		}
		c.woken[c.waiters[i]] = true
		c.waiters = append(c.waiters[:i:i], c.waiters[i+1:]...)
		if !every {
			break
		}
	}
}

func (c *Cond) Signal()    { c.signal(false) }
func (c *Cond) Broadcast() { c.signal(true) }

// Once is sync.Once.
type Once struct{ done, running bool }

func (o *Once) Do(f func()) {
	yield()
	if o.done {
		return
	}
	if o.running {
		block(func() bool { return o.done })
		return
	}
	o.running = true
	f()
	o.done = true
}

// runtime

func NumCPU() int             { return 4 }
func Sleep(d time.Duration)   { yield() }
func GOMAXPROCS(n int) int    { return 4 }
func NumGoroutine() int       { return 1 }
func Gosched()                { yield() }
func GC()                     {}
func KeepAlive(x interface{}) {}

type MemStats = runtime.MemStats

func ReadMemStats(m *MemStats) {}

// sync/atomic

func AddInt32(p *int32, d int32) int32     { yield(); *p += d; return *p }
func AddInt64(p *int64, d int64) int64     { yield(); *p += d; return *p }
func AddUint32(p *uint32, d uint32) uint32 { yield(); *p += d; return *p }
func AddUint64(p *uint64, d uint64) uint64 { yield(); *p += d; return *p }
func LoadInt32(p *int32) int32             { yield(); return *p }
func LoadInt64(p *int64) int64             { yield(); return *p }
func LoadUint32(p *uint32) uint32          { yield(); return *p }
func LoadUint64(p *uint64) uint64          { yield(); return *p }
func StoreInt32(p *int32, v int32)         { yield(); *p = v }
func StoreInt64(p *int64, v int64)         { yield(); *p = v }
func StoreUint32(p *uint32, v uint32)      { yield(); *p = v }
func StoreUint64(p *uint64, v uint64)      { yield(); *p = v }
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	yield()
	if *p == o {
		*p = n
		return true
	}
	return false
}
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	yield()
	if *p == o {
		*p = n
		return true
	}
	return false
}
