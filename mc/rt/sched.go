// Package rt is the runtime of the controlled scheduler: instrumented code calls
// P() before every statement, and exactly one controlled goroutine runs at a time.
package rt

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sync/atomic"
	"time"
	"unsafe"
)

const (
	maxThreads = 8
	maxPoints  = 1 << 16
)

type thread struct {
	id      int
	wake    chan struct{}
	done    bool
	blocked unsafe.Pointer // what it waits for, nil when runnable
	edge    int64          // anchor of its happens-before edges
	name    string
	quiet   bool
	left    int // scheduling points until it becomes quiet, 0: never
}

// Point is one scheduling decision of an execution.
type Point struct {
	N      int32 // number of enabled threads
	Choice int32 // index chosen (0 = the running thread if still enabled)
	Pre    bool  // the running thread was still enabled: another choice is a preemption
}

// Exec is what one controlled execution produced.
type Exec struct {
	Points   []Point
	Panic    string // panic of a thread, with stack
	Deadlock bool
	Diverged string // replay of a prefix did not match
	Overflow bool   // horizon reached
	Hang     bool   // a thread blocked on something the scheduler does not model
	Spawned  int
}

type sched struct {
	ths     [maxThreads]*thread
	nth     int
	cur     *thread
	prefix  []int32
	pts     []Point
	np      int
	abort   bool
	panics  string
	dead    bool
	diverge string
	over    bool
	doneCh  chan struct{}
	live    int
}

type abortSentinel struct{}

var (
	active *sched
	ptsBuf = make([]Point, maxPoints)
	beat   atomic.Int64
)

// Active reports whether a controlled execution is running.
//
//go:norace
func Active() bool { return active != nil }

// P is a scheduling point.
//
//go:norace
func P() {
	s := active
	if s == nil || s.cur.quiet {
		return
	}
	if t := s.cur; t.left > 0 {
		if t.left--; t.left == 0 {
			t.quiet = true
			return
		}
	}
	s.point()
}

// QuietAfter is Quiet from the n-th scheduling point of f on: for code whose first statements
// only are independent of chance.
//
//go:norace
func QuietAfter(n int, f func()) {
	s := active
	if s == nil {
		f()
		return
	}
	t := s.cur
	t.left = n + 1
	defer func() { t.left, t.quiet = 0, false }()
	f()
}

// Quiet runs f without scheduling points, apart from its blocking operations: for code whose
// number of statements executed depends on chance (random values, map order).
//
//go:norace
func Quiet(f func()) {
	s := active
	if s == nil {
		f()
		return
	}
	t := s.cur
	t.quiet = true
	defer func() { t.quiet = false }()
	f()
}

//go:norace
func (s *sched) point() {
	t := s.cur
	if s.abort {
		panic(abortSentinel{})
	}
	n := s.pick(t)
	if n != t {
		s.switchTo(t, n)
	}
}

// pick decides who runs next. t is the running thread; it may be blocked or done.
//
//go:norace
func (s *sched) pick(t *thread) *thread {
	var en [maxThreads]*thread
	k := 0
	pre := false
	if !t.done && t.blocked == nil {
		en[k] = t
		k++
		pre = true
	}
	for i := 0; i < s.nth; i++ {
		o := s.ths[i]
		if o != t && !o.done && o.blocked == nil {
			en[k] = o
			k++
		}
	}
	if k == 0 {
		return nil
	}
	if k == 1 {
		return en[0]
	}
	c := int32(0)
	if s.np < len(s.prefix) {
		c = s.prefix[s.np]
		if int(c) >= k {
			s.diverge = "replayed choice out of range"
			c = 0
		}
	}
	if s.np >= maxPoints {
		s.over = true
		return en[0]
	}
	s.pts[s.np] = Point{N: int32(k), Choice: c, Pre: pre}
	s.np++
	return en[c]
}

//go:norace
func (s *sched) switchTo(t, n *thread) {
	s.cur = n
	raceOff()
	n.wake <- struct{}{}
	<-t.wake
	raceOn()
	if s.abort {
		panic(abortSentinel{})
	}
}

// block parks the running thread until what() is released.
//
//go:norace
func (s *sched) block(on unsafe.Pointer) {
	t := s.cur
	t.blocked = on
	n := s.pick(t)
	if n == nil {
		s.dead = true
		s.abort = true
		t.blocked = nil
		panic(abortSentinel{})
	}
	s.switchTo(t, n)
}

//go:norace
func (s *sched) release(on unsafe.Pointer) {
	for i := 0; i < s.nth; i++ {
		if s.ths[i].blocked == on {
			s.ths[i].blocked = nil
		}
	}
}

//go:norace
func (s *sched) run(t *thread, f func()) {
	raceOff()
	<-t.wake
	raceOn()
	defer s.finish(t)
	if s.abort {
		return
	}
	f()
}

//go:norace
func (s *sched) finish(t *thread) {
	if r := recover(); r != nil {
		if _, ok := r.(abortSentinel); !ok {
			if s.panics == "" {
				s.panics = fmt.Sprintf("%v\n%s", r, debug.Stack())
			}
			s.abort = true
		}
	}
	raceRelease(unsafe.Pointer(&t.edge))
	t.done = true
	s.live--
	if s.live == 0 {
		raceOff()
		close(s.doneCh)
		raceOn()
		return
	}
	var n *thread
	if s.abort {
		for i := 0; i < s.nth; i++ {
			if !s.ths[i].done {
				n = s.ths[i]
				n.blocked = nil
				break
			}
		}
	} else {
		n = s.pick(t)
		if n == nil {
			s.dead = true
			s.abort = true
			for i := 0; i < s.nth; i++ {
				if !s.ths[i].done {
					n = s.ths[i]
					n.blocked = nil
					break
				}
			}
		}
	}
	s.cur = n
	raceOff()
	n.wake <- struct{}{}
	raceOn()
}

//go:norace
func (s *sched) spawn(f func()) bool {
	if s.nth >= maxThreads {
		return false
	}
	t := &thread{id: s.nth, wake: make(chan struct{})}
	s.ths[s.nth] = t
	s.nth++
	s.live++
	go s.run(t, f)
	return true
}

// Go starts a goroutine of the code under check.
//
//go:norace
func Go(f func()) {
	if s := active; s != nil {
		if s.spawn(f) {
			return
		}
	}
	// Outside a controlled execution: a legal, adversarial delay, so that
	// fire-and-forget work is not finished when the caller returns.
	go func() {
		time.Sleep(2 * time.Millisecond)
		f()
	}()
}

// Run executes the threads under the schedule prefix, choosing 0 afterwards.
//
//go:norace
func Run(prefix []int32, threads []func()) Exec {
	s := &sched{prefix: prefix, pts: ptsBuf, doneCh: make(chan struct{})}
	for _, f := range threads {
		s.spawn(f)
	}
	base := s.nth
	// The first decision: any thread may start (a free choice).
	boot := &thread{id: -1, done: true}
	s.cur = boot
	active = s
	n := s.pick(boot)
	s.cur = n
	raceOff()
	n.wake <- struct{}{}
	raceOn()
	hang := false
	tm := time.NewTimer(20 * time.Second)
	raceOff()
	select {
	case <-s.doneCh:
	case <-tm.C:
		hang = true
	}
	raceOn()
	tm.Stop()
	active = nil
	for i := 0; i < s.nth; i++ {
		raceAcquire(unsafe.Pointer(&s.ths[i].edge))
	}
	x := Exec{Panic: s.panics, Deadlock: s.dead, Diverged: s.diverge, Overflow: s.over, Hang: hang, Spawned: s.nth - base}
	x.Points = make([]Point, s.np)
	copy(x.Points, s.pts[:s.np])
	if s.np < len(prefix) && x.Diverged == "" && !hang {
		x.Diverged = "execution ended before the replayed prefix"
	}
	return x
}

var _ = runtime.NumGoroutine
