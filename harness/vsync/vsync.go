// Package vsync stands in for package sync in instrumented packages. Under a
// controlled run, whether a pool recycles an object, and which, is a choice.
package vsync

import (
	"polymc/vsched"
	"sync"
)

type (
	Map    = sync.Map
	Cond   = sync.Cond
	Locker = sync.Locker
)

func NewCond(l Locker) *Cond { return sync.NewCond(l) }

// Pool hands out any object put into it and not taken since, or none.
type Pool struct {
	New   func() any
	items []any
	mu    sync.Mutex
}

func (p *Pool) Get() any {
	vsched.Point()
	p.mu.Lock()
	n := len(p.items)
	at := -1
	if vsched.Active() {
		// newest, oldest, (middle,) none
		switch c := vsched.Choose(min(n, 3) + 1); {
		case c == min(n, 3):
		case c == 0:
			at = n - 1
		case c == 1:
			at = 0
		default:
			at = n / 2
		}
	} else if n > 0 {
		at = n - 1
	}
	if at < 0 {
		p.mu.Unlock()
		if p.New != nil {
			return p.New()
		}
		return nil
	}
	x := p.items[at]
	p.items = append(append([]any(nil), p.items[:at]...), p.items[at+1:]...)
	p.mu.Unlock()
	return x
}

func (p *Pool) Put(x any) {
	vsched.Point()
	if x == nil {
		return
	}
	p.mu.Lock()
	p.items = append(p.items, x)
	p.mu.Unlock()
}

// Mutex blocks the virtual thread, not the goroutine.
type Mutex struct {
	held bool
	real sync.Mutex
}

func (m *Mutex) Lock() {
	if !vsched.Active() {
		m.real.Lock()
		return
	}
	vsched.Point()
	vsched.Block(func() bool { return m.held })
	m.held = true
}

func (m *Mutex) TryLock() bool {
	if !vsched.Active() {
		return m.real.TryLock()
	}
	vsched.Point()
	if m.held {
		return false
	}
	m.held = true
	return true
}

func (m *Mutex) Unlock() {
	if !vsched.Active() {
		if m.held {
			m.held = false
			return
		}
		m.real.Unlock()
		return
	}
	if !m.held {
		panic("sync: unlock of unlocked mutex")
	}
	m.held = false
	vsched.Point()
}

type RWMutex struct {
	w    bool
	r    int
	real sync.RWMutex
}

func (m *RWMutex) Lock() {
	if !vsched.Active() {
		m.real.Lock()
		return
	}
	vsched.Point()
	vsched.Block(func() bool { return m.w || m.r > 0 })
	m.w = true
}

func (m *RWMutex) TryLock() bool {
	if !vsched.Active() {
		return m.real.TryLock()
	}
	vsched.Point()
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	return true
}

func (m *RWMutex) Unlock() {
	if !vsched.Active() {
		m.real.Unlock()
		return
	}
	m.w = false
	vsched.Point()
}

func (m *RWMutex) RLock() {
	if !vsched.Active() {
		m.real.RLock()
		return
	}
	vsched.Point()
	vsched.Block(func() bool { return m.w })
	m.r++
}

func (m *RWMutex) TryRLock() bool {
	if !vsched.Active() {
		return m.real.TryRLock()
	}
	vsched.Point()
	if m.w {
		return false
	}
	m.r++
	return true
}

func (m *RWMutex) RUnlock() {
	if !vsched.Active() {
		m.real.RUnlock()
		return
	}
	m.r--
	vsched.Point()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type Once struct {
	done bool
	m    Mutex
}

func (o *Once) Do(f func()) {
	vsched.Point()
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var a T1
	var b T2
	return func() (T1, T2) { o.Do(func() { a, b = f() }); return a, b }
}

type WaitGroup struct {
	n    int
	real sync.WaitGroup
}

func (w *WaitGroup) Add(d int) {
	if !vsched.Active() {
		w.real.Add(d)
		return
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vsched.Go(func() { defer w.Done(); f() })
}

func (w *WaitGroup) Wait() {
	if !vsched.Active() {
		w.real.Wait()
		return
	}
	vsched.Point()
	vsched.Block(func() bool { return w.n > 0 })
}
