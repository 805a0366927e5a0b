// Package ssync stands in for package sync inside the simulator.
package ssync

import (
	"simrt"
	"sync"
)

type Locker = sync.Locker

type Mutex struct {
	locked bool
}

func (m *Mutex) Lock() {
	simrt.Point()
	if !simrt.Block(func() bool { return !m.locked }) {
		return
	}
	m.locked = true
}

func (m *Mutex) TryLock() bool {
	simrt.Point()
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

func (m *Mutex) Unlock() {
	if !m.locked && !simrt.Ending() {
		panic("fatal error: sync: unlock of unlocked mutex")
	}
	m.locked = false
	simrt.Point()
}

type RWMutex struct {
	w       bool
	r       int
	waiting int
}

func (m *RWMutex) Lock() {
	simrt.Point()
	m.waiting++
	ok := simrt.Block(func() bool { return !m.w && m.r == 0 })
	m.waiting--
	if ok {
		m.w = true
	}
}

func (m *RWMutex) TryLock() bool {
	simrt.Point()
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	return true
}

func (m *RWMutex) Unlock() {
	if !m.w && !simrt.Ending() {
		panic("fatal error: sync: Unlock of unlocked RWMutex")
	}
	m.w = false
	simrt.Point()
}

func (m *RWMutex) RLock() {
	simrt.Point()
	if simrt.Block(func() bool { return !m.w && m.waiting == 0 }) {
		m.r++
	}
}

func (m *RWMutex) TryRLock() bool {
	simrt.Point()
	if m.w || m.waiting > 0 {
		return false
	}
	m.r++
	return true
}

func (m *RWMutex) RUnlock() {
	if m.r <= 0 {
		if simrt.Ending() {
			return
		}
		panic("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	m.r--
	simrt.Point()
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

func (m *RWMutex) RLocker() Locker { return rlocker{m} }

type WaitGroup struct{ n int }

func (g *WaitGroup) Add(d int) {
	g.n += d
	if g.n < 0 && !simrt.Ending() {
		panic("sync: negative WaitGroup counter")
	}
	simrt.Point()
}
func (g *WaitGroup) Done() { g.Add(-1) }
func (g *WaitGroup) Wait() {
	simrt.Point()
	simrt.Block(func() bool { return g.n <= 0 })
}
func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	simrt.Go(func() {
		defer g.Done()
		f()
	})
}

type Once struct {
	done bool
	m    Mutex
}

func (o *Once) Do(f func()) {
	simrt.Point()
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done && !simrt.Ending() {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var r T
	return func() T {
		o.Do(func() { r = f() })
		return r
	}
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var r1 T1
	var r2 T2
	return func() (T1, T2) {
		o.Do(func() { r1, r2 = f() })
		return r1, r2
	}
}

// Pool hands out what was put back last, so that wrong reuse shows.
type Pool struct {
	New   func() any
	items []any
}

func (p *Pool) Get() any {
	simrt.Point()
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	simrt.Point()
	if x != nil {
		p.items = append(p.items, x)
	}
}

type Map struct {
	m    map[any]any
	keys []any
}

func (m *Map) Load(k any) (any, bool) {
	simrt.Point()
	v, ok := m.m[k]
	return v, ok
}

func (m *Map) Store(k, v any) { m.Swap(k, v) }

func (m *Map) Swap(k, v any) (any, bool) {
	simrt.Point()
	old, ok := m.m[k]
	if m.m == nil {
		m.m = map[any]any{}
	}
	if !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
	return old, ok
}

func (m *Map) LoadOrStore(k, v any) (any, bool) {
	simrt.Point()
	if old, ok := m.m[k]; ok {
		return old, true
	}
	if m.m == nil {
		m.m = map[any]any{}
	}
	m.keys = append(m.keys, k)
	m.m[k] = v
	return v, false
}

func (m *Map) LoadAndDelete(k any) (any, bool) {
	simrt.Point()
	v, ok := m.m[k]
	if ok {
		delete(m.m, k)
		for i, x := range m.keys {
			if x == k {
				m.keys = append(append([]any(nil), m.keys[:i]...), m.keys[i+1:]...)
				break
			}
		}
	}
	return v, ok
}

func (m *Map) Delete(k any) { m.LoadAndDelete(k) }

func (m *Map) CompareAndSwap(k, old, new any) bool {
	simrt.Point()
	if v, ok := m.m[k]; ok && v == old {
		m.m[k] = new
		return true
	}
	return false
}

func (m *Map) CompareAndDelete(k, old any) bool {
	simrt.Point()
	if v, ok := m.m[k]; ok && v == old {
		m.Delete(k)
		return true
	}
	return false
}

func (m *Map) Clear() {
	simrt.Point()
	m.m, m.keys = nil, nil
}

func (m *Map) Range(f func(k, v any) bool) {
	simrt.Point()
	for _, k := range simrt.Order(append([]any(nil), m.keys...)) {
		v, ok := m.m[k]
		if ok && !f(k, v) {
			return
		}
	}
}

type Cond struct {
	L Locker
	q []*bool
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	me := new(bool)
	c.q = append(c.q, me)
	c.L.Unlock()
	simrt.Block(func() bool { return *me })
	c.L.Lock()
}

func (c *Cond) Signal() {
	simrt.Point()
	if len(c.q) > 0 {
		*c.q[0] = true
		c.q = c.q[1:]
	}
}

func (c *Cond) Broadcast() {
	simrt.Point()
	for _, w := range c.q {
		*w = true
	}
	c.q = nil
}
