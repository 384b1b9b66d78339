// Package vsync takes the place of package sync in a build of the code under
// test whose goroutines are scheduled by the driver: one of them runs at a
// time, and which one runs next is decided at every Point and every lock.
package vsync

import (
	"context"
	"os"
	"runtime"
	"runtime/pprof"
	"strconv"
	"sync"
	"sync/atomic"
	"time"
	"unsafe"
)

type (
	Cond      = sync.Cond
	Locker    = sync.Locker
	Map       = sync.Map
	WaitGroup = sync.WaitGroup
)

func NewCond(l Locker) *Cond { return sync.NewCond(l) }

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}

// -- scheduler

type state int

const (
	ready state = iota
	running
	blocked
	outside // waiting for something the scheduler does not know
	finished
)

type worker struct {
	id     int
	gate   chan struct{}
	st     state
	on     any
	points int
	prio   int
}

// Plan says how to choose who runs next.
type Plan struct {
	Kind  string // "rand", "one" or "prio"
	Seed  uint64
	P     int   // rand: one switch in P points
	First int   // one: who starts
	K     int   // one: after how many points of its own it is interrupted
	At    []int // prio: points at which the running one becomes the last choice
}

var (
	active  atomic.Bool
	mu      sync.Mutex
	workers []*worker
	byGo    map[uint64]*worker
	cur     *worker
	plan    Plan
	rnd     uint64
	steps   int
	low     int
	done    chan string
)

const maxSteps = 300000

func next() uint64 {
	rnd ^= rnd << 13
	rnd ^= rnd >> 7
	rnd ^= rnd << 17
	return rnd
}

//go:linkname profLabel runtime/pprof.runtime_getProfLabel
func profLabel() unsafe.Pointer

// The code under test starts goroutines of its own, which labels do not tell apart.
var slow = os.Getenv("VSYNC_SLOW") != ""

func mark(i int) {
	if !slow {
		pprof.SetGoroutineLabels(pprof.WithLabels(context.Background(), pprof.Labels("w", strconv.Itoa(i))))
	}
}

// goid tells the workers apart; 0 is none of them.
func goid() uint64 {
	if !slow {
		return uint64(uintptr(profLabel()))
	}
	var buf [40]byte
	n := runtime.Stack(buf[:], false)
	id := uint64(0)
	for i := len("goroutine "); i < n && buf[i] >= '0' && buf[i] <= '9'; i++ {
		id = id*10 + uint64(buf[i]-'0')
	}
	return id
}

// Run runs the functions under a plan. It returns "" when all ended, else what
// kept them from it, and the points passed by each.
func Run(p Plan, fns []func()) (string, []int) {
	mu.Lock()
	plan, steps, low, rnd = p, 0, -1, p.Seed*0x9E3779B97F4A7C15+0x1234567
	next()
	workers, byGo, cur = nil, map[uint64]*worker{}, nil
	done = make(chan string, 1)
	for i := range fns {
		workers = append(workers, &worker{id: i, gate: make(chan struct{}, 1)})
	}
	for i := range workers { // random order of priorities
		j := int(next() % uint64(i+1))
		workers[i].prio = workers[j].prio
		workers[j].prio = i + 1
	}
	ws := workers
	mu.Unlock()
	active.Store(true)
	var up sync.WaitGroup
	up.Add(len(fns))
	for i, fn := range fns {
		go func() {
			w := ws[i]
			mark(i)
			mu.Lock()
			byGo[goid()] = w
			mu.Unlock()
			up.Done()
			<-w.gate
			fn()
			end(w)
		}()
	}
	up.Wait()
	mu.Lock()
	w := ws[0]
	switch plan.Kind {
	case "one":
		w = ws[plan.First%len(ws)]
	default:
		w = choose(nil)
	}
	resume(w)
	mu.Unlock()
	why := watch()
	active.Store(false)
	counts := make([]int, len(ws))
	for i, w := range ws {
		counts[i] = w.points
	}
	return why, counts
}

// watch notices a worker that waits for something unknown to the scheduler.
func watch() string {
	t := time.NewTicker(100 * time.Millisecond)
	defer t.Stop()
	last, since := -1, time.Now()
	for {
		select {
		case why := <-done:
			return why
		case <-t.C:
			mu.Lock()
			if steps != last {
				last, since = steps, time.Now()
			} else if time.Since(since) > time.Second && cur != nil {
				if w := choose(cur); w != nil {
					cur.st = outside
					resume(w)
					since = time.Now()
				}
			}
			if time.Since(since) > 30*time.Second {
				mu.Unlock()
				return "hang"
			}
			mu.Unlock()
		}
	}
}

func resume(w *worker) {
	w.st, cur = running, w
	w.gate <- struct{}{}
}

// choose picks a ready worker other than w, or nil.
func choose(w *worker) *worker {
	var rs []*worker
	for _, x := range workers {
		if x != w && x.st == ready {
			rs = append(rs, x)
		}
	}
	if len(rs) == 0 {
		return nil
	}
	if plan.Kind == "prio" {
		best := rs[0]
		for _, x := range rs {
			if x.prio > best.prio {
				best = x
			}
		}
		return best
	}
	return rs[next()%uint64(len(rs))]
}

// Point is where another goroutine may take over.
func Point() {
	if !active.Load() {
		return
	}
	id := goid()
	mu.Lock()
	w := byGo[id]
	if w == nil {
		mu.Unlock()
		return
	}
	steps++
	w.points++
	if steps == 10*maxSteps { // it does not end
		done <- "endless"
	}
	if steps >= 10*maxSteps {
		mu.Unlock()
		select {}
	}
	if w != cur { // back from outside
		w.st = ready
		if cur == nil {
			w.st, cur = running, w
			mu.Unlock()
			return
		}
		mu.Unlock()
		<-w.gate
		return
	}
	var to *worker
	if steps < maxSteps {
		switch plan.Kind {
		case "rand":
			if next()%uint64(plan.P) == 0 {
				to = choose(w)
			}
		case "one":
			if w.id == plan.First%len(workers) && w.points == plan.K {
				to = choose(w)
			}
		case "prio":
			for _, k := range plan.At {
				if steps == k {
					w.prio = low
					low--
				}
			}
			if to = choose(w); to != nil && to.prio < w.prio {
				to = nil
			}
		}
	} else if steps%1000 == 0 {
		to = choose(w)
	}
	if to == nil {
		mu.Unlock()
		return
	}
	w.st = ready
	resume(to)
	mu.Unlock()
	<-w.gate
}

// wait blocks the caller on a lock; mu is held, and held again afterwards.
func wait(w *worker, on any) {
	if w == nil {
		mu.Unlock()
		panic("deadlock: the lock is held and nobody is running who could release it")
	}
	w.st, w.on = blocked, on
	if w == cur {
		handOver()
	}
	mu.Unlock()
	<-w.gate
	mu.Lock()
}

// handOver lets another one run; mu is held.
func handOver() {
	if to := choose(cur); to != nil {
		resume(to)
		return
	}
	cur = nil
	out := false
	all := true
	for _, x := range workers {
		out = out || x.st == outside
		all = all && x.st == finished
	}
	if all {
		done <- ""
	} else if !out {
		done <- "deadlock"
	}
}

func end(w *worker) {
	mu.Lock()
	defer mu.Unlock()
	w.st = finished
	if w == cur || cur == nil {
		handOver()
	}
}

func wake(on any) {
	for _, w := range workers {
		if w.st == blocked && w.on == on {
			w.st, w.on = ready, nil
		}
	}
	if cur == nil {
		if to := choose(nil); to != nil {
			resume(to)
		}
	}
}

func me() *worker {
	if !active.Load() {
		return nil
	}
	id := goid()
	return byGo[id]
}

// -- locks

type RWMutex struct {
	w       bool
	r, want int
}

func (m *RWMutex) Lock() {
	Point()
	mu.Lock()
	defer mu.Unlock()
	for m.w || m.r > 0 {
		m.want++
		wait(me(), m)
		m.want--
	}
	m.w = true
}

func (m *RWMutex) Unlock() {
	mu.Lock()
	if !m.w {
		mu.Unlock()
		panic("sync: unlock of unlocked mutex")
	}
	m.w = false
	wake(m)
	mu.Unlock()
	Point()
}

func (m *RWMutex) RLock() {
	Point()
	mu.Lock()
	defer mu.Unlock()
	for m.w || m.want > 0 {
		wait(me(), m)
	}
	m.r++
}

func (m *RWMutex) RUnlock() {
	mu.Lock()
	if m.r == 0 {
		mu.Unlock()
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.r--
	wake(m)
	mu.Unlock()
	Point()
}

func (m *RWMutex) TryLock() bool {
	Point()
	mu.Lock()
	defer mu.Unlock()
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	return true
}

func (m *RWMutex) TryRLock() bool {
	Point()
	mu.Lock()
	defer mu.Unlock()
	if m.w || m.want > 0 {
		return false
	}
	m.r++
	return true
}

type rlocker struct{ m *RWMutex }

func (l rlocker) Lock()   { l.m.RLock() }
func (l rlocker) Unlock() { l.m.RUnlock() }

func (m *RWMutex) RLocker() Locker { return rlocker{m} }

type Mutex struct{ m RWMutex }

func (m *Mutex) Lock()         { m.m.Lock() }
func (m *Mutex) Unlock()       { m.m.Unlock() }
func (m *Mutex) TryLock() bool { return m.m.TryLock() }

type Once struct {
	m    RWMutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// Pool hands out what was put back last, so that anything still in use shows.
type Pool struct {
	New  func() any
	mu   sync.Mutex
	free []any
}

func (p *Pool) Get() any {
	Point()
	p.mu.Lock()
	if n := len(p.free); n > 0 {
		x := p.free[n-1]
		p.free = p.free[:n-1]
		p.mu.Unlock()
		return x
	}
	p.mu.Unlock()
	if p.New == nil {
		return nil
	}
	return p.New()
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	p.mu.Lock()
	p.free = append(p.free, x)
	p.mu.Unlock()
	Point()
}
