// Package vsync replaces sync in instrumented code.
package vsync

import (
	"fmt"
	"sort"
	"sync"
	"sync/atomic"
	"unsafe"

	"verif/mc/rt/sched"
)

// Locker is sync.Locker.
type Locker = sync.Locker

// Mutex is a mutex whose scheduling is controlled.
type Mutex struct {
	mu     sync.Mutex
	locked bool
}

// Lock locks.
func (m *Mutex) Lock() {
	if sched.On() && !sched.Lock(unsafe.Pointer(m), func() bool { return !m.locked }) {
		return
	}
	m.mu.Lock()
	m.locked = true
}

// TryLock tries.
func (m *Mutex) TryLock() bool {
	if sched.On() && !sched.Write(unsafe.Pointer(m)) {
		return false
	}
	if m.mu.TryLock() {
		m.locked = true
		return true
	}
	return false
}

// Unlock unlocks.
func (m *Mutex) Unlock() {
	if sched.On() && !sched.Unlock(unsafe.Pointer(m)) {
		return
	}
	m.locked = false
	m.mu.Unlock()
}

// RWMutex is a read-write mutex.
type RWMutex struct {
	mu sync.RWMutex
	w  bool
	r  int32
}

// Lock locks for writing.
func (m *RWMutex) Lock() {
	if sched.On() && !sched.Lock(unsafe.Pointer(m), func() bool { return !m.w && m.r == 0 }) {
		return
	}
	m.mu.Lock()
	m.w = true
}

// Unlock unlocks.
func (m *RWMutex) Unlock() {
	if sched.On() && !sched.Unlock(unsafe.Pointer(m)) {
		return
	}
	m.w = false
	m.mu.Unlock()
}

// RLock locks for reading.
func (m *RWMutex) RLock() {
	if sched.On() {
		if !sched.Lock(unsafe.Pointer(m), func() bool { return !m.w }) {
			return
		}
		m.mu.RLock()
		m.r++
		return
	}
	m.mu.RLock()
	atomic.AddInt32(&m.r, 1)
}

// RUnlock unlocks.
func (m *RWMutex) RUnlock() {
	if sched.On() {
		if !sched.Unlock(unsafe.Pointer(m)) {
			return
		}
		m.r--
		m.mu.RUnlock()
		return
	}
	atomic.AddInt32(&m.r, -1)
	m.mu.RUnlock()
}

// TryLock tries to lock for writing.
func (m *RWMutex) TryLock() bool {
	if sched.On() {
		if !sched.Write(unsafe.Pointer(m)) {
			return false
		}
		if m.w || m.r != 0 {
			return false
		}
		m.mu.Lock()
		m.w = true
		return true
	}
	if m.mu.TryLock() {
		m.w = true
		return true
	}
	return false
}

// TryRLock tries to lock for reading.
func (m *RWMutex) TryRLock() bool {
	if sched.On() {
		if !sched.Write(unsafe.Pointer(m)) {
			return false
		}
		if m.w {
			return false
		}
		m.mu.RLock()
		m.r++
		return true
	}
	if m.mu.TryRLock() {
		atomic.AddInt32(&m.r, 1)
		return true
	}
	return false
}

// RLocker returns a Locker.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// WaitGroup is a wait group.
type WaitGroup struct {
	wg sync.WaitGroup
	n  int64
}

// Add adds.
func (w *WaitGroup) Add(d int) {
	if sched.On() {
		if !sched.WgAdd(unsafe.Pointer(w), d) {
			return
		}
		w.n += int64(d)
	} else {
		atomic.AddInt64(&w.n, int64(d))
	}
	w.wg.Add(d)
}

// Done is Add(-1).
func (w *WaitGroup) Done() { w.Add(-1) }

// Wait waits.
func (w *WaitGroup) Wait() {
	if sched.On() && !sched.WgWait(unsafe.Pointer(w), func() bool { return w.n <= 0 }) {
		return
	}
	w.wg.Wait()
}

// Go runs f in a goroutine of the group.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	sched.Go(func() {
		defer w.Done()
		f()
	})
}

// Once runs once.
type Once struct {
	m    Mutex
	done bool
}

// Do runs f once.
func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// Pool keeps every object.
type Pool struct {
	New func() interface{}
	m   Mutex
	s   []interface{}
}

// Get takes the last object put back.
func (p *Pool) Get() interface{} {
	p.m.Lock()
	defer p.m.Unlock()
	if n := len(p.s); n > 0 {
		v := p.s[n-1]
		p.s = p.s[:n-1]
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

// Put puts an object back.
func (p *Pool) Put(v interface{}) {
	p.m.Lock()
	p.s = append(p.s, v)
	p.m.Unlock()
}

// Map is a map guarded by a lock.
type Map struct {
	m RWMutex
	d map[interface{}]interface{}
}

// Load loads.
func (m *Map) Load(k interface{}) (v interface{}, ok bool) {
	m.m.RLock()
	defer m.m.RUnlock()
	v, ok = m.d[k]
	return
}

// Store stores.
func (m *Map) Store(k, v interface{}) {
	m.m.Lock()
	defer m.m.Unlock()
	if m.d == nil {
		m.d = map[interface{}]interface{}{}
	}
	m.d[k] = v
}

// LoadOrStore loads or stores.
func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	m.m.Lock()
	defer m.m.Unlock()
	if m.d == nil {
		m.d = map[interface{}]interface{}{}
	}
	if o, ok := m.d[k]; ok {
		return o, true
	}
	m.d[k] = v
	return v, false
}

// Delete deletes.
func (m *Map) Delete(k interface{}) {
	m.m.Lock()
	defer m.m.Unlock()
	delete(m.d, k)
}

// LoadAndDelete deletes and returns what was there.
func (m *Map) LoadAndDelete(k interface{}) (v interface{}, ok bool) {
	m.m.Lock()
	defer m.m.Unlock()
	v, ok = m.d[k]
	delete(m.d, k)
	return
}

// Swap stores and returns what was there.
func (m *Map) Swap(k, v interface{}) (o interface{}, ok bool) {
	m.m.Lock()
	defer m.m.Unlock()
	if m.d == nil {
		m.d = map[interface{}]interface{}{}
	}
	o, ok = m.d[k]
	m.d[k] = v
	return
}

// CompareAndSwap stores if the old value is there.
func (m *Map) CompareAndSwap(k, o, v interface{}) bool {
	m.m.Lock()
	defer m.m.Unlock()
	if w, ok := m.d[k]; !ok || w != o {
		return false
	}
	m.d[k] = v
	return true
}

// CompareAndDelete deletes if the old value is there.
func (m *Map) CompareAndDelete(k, o interface{}) bool {
	m.m.Lock()
	defer m.m.Unlock()
	if w, ok := m.d[k]; !ok || w != o {
		return false
	}
	delete(m.d, k)
	return true
}

// Clear deletes everything.
func (m *Map) Clear() {
	m.m.Lock()
	m.d = nil
	m.m.Unlock()
}

// Range calls f on a copy of the content.
func (m *Map) Range(f func(k, v interface{}) bool) {
	m.m.RLock()
	var ks, vs []interface{}
	for k, v := range m.d {
		ks, vs = append(ks, k), append(vs, v)
	}
	m.m.RUnlock()
	ix := make([]int, len(ks))
	for i := range ix {
		ix[i] = i
	}
	sort.Slice(ix, func(a, b int) bool { return fmt.Sprint(ks[ix[a]]) < fmt.Sprint(ks[ix[b]]) })
	for _, i := range ix {
		if !f(ks[i], vs[i]) {
			return
		}
	}
}

// Cond is a condition variable.
type Cond struct {
	L  Locker
	ch []chan struct{}
	m  Mutex
}

// NewCond makes a condition variable.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

// Wait waits for a signal.
func (c *Cond) Wait() {
	k := make(chan struct{}, 1)
	c.m.Lock()
	c.ch = append(c.ch, k)
	c.m.Unlock()
	c.L.Unlock()
	sched.Recv(k)
	c.L.Lock()
}

// Signal wakes one.
func (c *Cond) Signal() {
	c.m.Lock()
	if len(c.ch) > 0 {
		k := c.ch[0]
		c.ch = c.ch[1:]
		sched.Send(k)(struct{}{})
	}
	c.m.Unlock()
}

// Broadcast wakes all.
func (c *Cond) Broadcast() {
	c.m.Lock()
	for _, k := range c.ch {
		sched.Send(k)(struct{}{})
	}
	c.ch = nil
	c.m.Unlock()
}
