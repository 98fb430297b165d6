package rt

import (
	"sync"
	"unsafe"
)

// Shims for the sync package. Under a controlled execution they block in the
// scheduler; otherwise they are the real thing.

type Mutex struct {
	mu     sync.Mutex
	locked bool
	edge   int64
}

//go:norace
func (m *Mutex) Lock() {
	s := active
	if s == nil {
		m.mu.Lock()
		return
	}
	s.point()
	for m.locked {
		s.block(unsafe.Pointer(m))
	}
	m.locked = true
	raceAcquire(unsafe.Pointer(&m.edge))
}

//go:norace
func (m *Mutex) TryLock() bool {
	s := active
	if s == nil {
		return m.mu.TryLock()
	}
	s.point()
	if m.locked {
		return false
	}
	m.locked = true
	raceAcquire(unsafe.Pointer(&m.edge))
	return true
}

//go:norace
func (m *Mutex) Unlock() {
	s := active
	if s == nil {
		m.mu.Unlock()
		return
	}
	if s.abort {
		m.locked = false
		return
	}
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	raceRelease(unsafe.Pointer(&m.edge))
	m.locked = false
	s.release(unsafe.Pointer(m))
	s.point()
}

type RWMutex struct {
	mu    sync.RWMutex
	w     bool
	r     int
	wedge int64
	redge int64
}

//go:norace
func (m *RWMutex) Lock() {
	s := active
	if s == nil {
		m.mu.Lock()
		return
	}
	s.point()
	for m.w || m.r > 0 {
		s.block(unsafe.Pointer(m))
	}
	m.w = true
	raceAcquire(unsafe.Pointer(&m.wedge))
	raceAcquire(unsafe.Pointer(&m.redge))
}

//go:norace
func (m *RWMutex) Unlock() {
	s := active
	if s == nil {
		m.mu.Unlock()
		return
	}
	if s.abort {
		m.w = false
		return
	}
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	raceRelease(unsafe.Pointer(&m.wedge))
	m.w = false
	s.release(unsafe.Pointer(m))
	s.point()
}

//go:norace
func (m *RWMutex) RLock() {
	s := active
	if s == nil {
		m.mu.RLock()
		return
	}
	s.point()
	for m.w {
		s.block(unsafe.Pointer(m))
	}
	m.r++
	raceAcquire(unsafe.Pointer(&m.wedge))
}

//go:norace
func (m *RWMutex) RUnlock() {
	s := active
	if s == nil {
		m.mu.RUnlock()
		return
	}
	if s.abort {
		m.r--
		return
	}
	if m.r <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	raceRelease(unsafe.Pointer(&m.redge))
	m.r--
	s.release(unsafe.Pointer(m))
	s.point()
}

func (m *RWMutex) RLocker() sync.Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type Once struct {
	m    Mutex
	done bool
}

//go:norace
func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer o.set()
		f()
	}
}

//go:norace
func (o *Once) set() { o.done = true }

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}

type WaitGroup struct {
	wg   sync.WaitGroup
	n    int
	edge int64
}

//go:norace
func (w *WaitGroup) Add(d int) {
	s := active
	if s == nil {
		w.wg.Add(d)
		return
	}
	if d < 0 {
		raceRelease(unsafe.Pointer(&w.edge))
	}
	w.n += d
	if w.n == 0 {
		s.release(unsafe.Pointer(w))
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(func() { defer w.Done(); f() })
}

//go:norace
func (w *WaitGroup) Wait() {
	s := active
	if s == nil {
		w.wg.Wait()
		return
	}
	s.point()
	for w.n > 0 {
		s.block(unsafe.Pointer(w))
	}
	raceAcquire(unsafe.Pointer(&w.edge))
}

type Cond struct {
	L sync.Locker
	c *sync.Cond
	b byte
}

func NewCond(l sync.Locker) *Cond { return &Cond{L: l, c: sync.NewCond(l)} }

func (c *Cond) Wait() {
	s := active
	if s == nil {
		c.c.Wait()
		return
	}
	c.L.Unlock()
	s.block(unsafe.Pointer(&c.b))
	c.L.Lock()
}

func (c *Cond) Signal() {
	s := active
	if s == nil {
		c.c.Signal()
		return
	}
	for i := 0; i < s.nth; i++ {
		if s.ths[i].blocked == unsafe.Pointer(&c.b) {
			s.ths[i].blocked = nil
			return
		}
	}
}

func (c *Cond) Broadcast() {
	s := active
	if s == nil {
		c.c.Broadcast()
		return
	}
	s.release(unsafe.Pointer(&c.b))
}
