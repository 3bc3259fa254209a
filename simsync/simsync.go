// Package simsync replaces package sync in the instrumented library. Who waits
// and who proceeds is decided by the simulator; the real primitive underneath
// is taken only once the simulator granted it (it never blocks), so the race
// detector sees exactly the happens-before edges real code would create.
package simsync

import (
	"fmt"
	"sort"
	rsync "sync"
	"unsafe"

	"verif.local/sim/simrt"
)

// Locker is sync.Locker.
type Locker = rsync.Locker

// Mutex simulates sync.Mutex.
type Mutex struct {
	held bool
	r    rsync.Mutex
}

//go:norace
func (m *Mutex) Lock() {
	simrt.Point()
	for m.held {
		simrt.Block(unsafe.Pointer(m))
	}
	m.held = true
	m.r.Lock()
}

//go:norace
func (m *Mutex) TryLock() bool {
	simrt.Point()
	if m.held {
		return false
	}
	m.held = true
	m.r.Lock()
	return true
}

//go:norace
func (m *Mutex) Unlock() {
	if !m.held {
		if simrt.Aborting() {
			return
		}
		panic("sync: unlock of unlocked mutex")
	}
	m.held = false
	m.r.Unlock()
	simrt.Unblock(unsafe.Pointer(m))
	simrt.Point()
}

// RWMutex simulates sync.RWMutex, including writer preference.
type RWMutex struct {
	w       bool
	readers int
	waiting int
	r       rsync.RWMutex
}

//go:norace
func (m *RWMutex) Lock() {
	simrt.Point()
	m.waiting++
	for m.w || m.readers > 0 {
		simrt.Block(unsafe.Pointer(m))
	}
	m.waiting--
	m.w = true
	m.r.Lock()
}

//go:norace
func (m *RWMutex) TryLock() bool {
	simrt.Point()
	if m.w || m.readers > 0 {
		return false
	}
	m.w = true
	m.r.Lock()
	return true
}

//go:norace
func (m *RWMutex) Unlock() {
	if !m.w {
		if simrt.Aborting() {
			return
		}
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.w = false
	m.r.Unlock()
	simrt.Unblock(unsafe.Pointer(m))
	simrt.Point()
}

//go:norace
func (m *RWMutex) RLock() {
	simrt.Point()
	for m.w || m.waiting > 0 {
		simrt.Block(unsafe.Pointer(m))
	}
	m.readers++
	m.r.RLock()
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	simrt.Point()
	if m.w || m.waiting > 0 {
		return false
	}
	m.readers++
	m.r.RLock()
	return true
}

//go:norace
func (m *RWMutex) RUnlock() {
	if m.readers == 0 {
		if simrt.Aborting() {
			return
		}
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	m.r.RUnlock()
	simrt.Unblock(unsafe.Pointer(m))
	simrt.Point()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once simulates sync.Once.
type Once struct {
	done bool
	m    Mutex
	r    rsync.Mutex
}

//go:norace
func (o *Once) isDone() bool { return o.done }

//go:norace
func (o *Once) setDone() { o.done = true }

func (o *Once) Do(f func()) {
	simrt.Point()
	if o.isDone() {
		// the edge a real Once gives through its atomic flag
		o.r.Lock()
		o.r.Unlock()
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.isDone() {
		defer func() {
			o.r.Lock()
			o.setDone()
			o.r.Unlock()
		}()
		f()
	}
}

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

// OnceValues is sync.OnceValues.
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var a T1
	var b T2
	return func() (T1, T2) { o.Do(func() { a, b = f() }); return a, b }
}

// WaitGroup simulates sync.WaitGroup.
type WaitGroup struct {
	n int
	r rsync.Mutex
}

//go:norace
func (w *WaitGroup) add(d int) {
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		simrt.Unblock(unsafe.Pointer(w))
	}
}

func (w *WaitGroup) Add(d int) {
	w.r.Lock()
	w.add(d)
	w.r.Unlock()
	simrt.Point()
}

func (w *WaitGroup) Done() { w.Add(-1) }

//go:norace
func (w *WaitGroup) wait() {
	for w.n > 0 {
		simrt.Block(unsafe.Pointer(w))
	}
}

func (w *WaitGroup) Wait() {
	simrt.Point()
	w.wait()
	w.r.Lock()
	w.r.Unlock()
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	simrt.Go(func() { defer w.Done(); f() })
}

// Cond simulates sync.Cond.
type Cond struct {
	L   Locker
	gen int
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

//go:norace
func (c *Cond) waitGen() {
	g := c.gen
	for c.gen == g {
		simrt.Block(unsafe.Pointer(c))
	}
}

func (c *Cond) Wait() {
	c.L.Unlock()
	c.waitGen()
	c.L.Lock()
}

//go:norace
func (c *Cond) Signal() { c.Broadcast() } // spurious wake-ups are legal

//go:norace
func (c *Cond) Broadcast() {
	c.gen++
	simrt.Unblock(unsafe.Pointer(c))
}

// Pool simulates sync.Pool: last in, first out, or (seeded) nothing at all.
type Pool struct {
	New   func() any
	fixed *[4096]poolItem
	cnt   int
	r     rsync.Mutex
	n     uint64
}

type poolItem struct {
	x any
	m *rsync.Mutex
}

// Drop makes simulated pools lose every k-th item (0: never).
var Drop uint64

func (p *Pool) Get() any {
	simrt.Point()
	if it, ok := p.pop(); ok {
		it.m.Lock() // happens-before edge from the matching Put only
		it.m.Unlock()
		return it.x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	it := poolItem{x, new(rsync.Mutex)}
	it.m.Lock()
	it.m.Unlock()
	p.push(it)
	simrt.Point()
}

// fixed backing array: growing slices would be visible to the race detector
//
//go:norace
func (p *Pool) pop() (poolItem, bool) {
	if p.fixed == nil || p.cnt == 0 {
		return poolItem{}, false
	}
	p.cnt--
	it := p.fixed[p.cnt]
	p.fixed[p.cnt] = poolItem{}
	return it, true
}

//go:norace
func (p *Pool) push(it poolItem) {
	if p.fixed == nil {
		p.fixed = new([4096]poolItem)
	}
	p.n++
	if Drop > 0 && p.n%Drop == 0 {
		return
	}
	if p.cnt < len(p.fixed) {
		p.fixed[p.cnt] = it
		p.cnt++
	}
}

// Map simulates sync.Map with ordered iteration.
type Map struct {
	m Mutex
	d map[any]any
}

func (m *Map) Load(k any) (any, bool) {
	m.m.Lock()
	defer m.m.Unlock()
	v, ok := m.d[k]
	return v, ok
}

func (m *Map) Store(k, v any) { m.Swap(k, v) }

func (m *Map) Swap(k, v any) (any, bool) {
	m.m.Lock()
	defer m.m.Unlock()
	if m.d == nil {
		m.d = map[any]any{}
	}
	o, ok := m.d[k]
	m.d[k] = v
	return o, ok
}

func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.m.Lock()
	defer m.m.Unlock()
	if o, ok := m.d[k]; ok {
		return o, true
	}
	if m.d == nil {
		m.d = map[any]any{}
	}
	m.d[k] = v
	return v, false
}

func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.m.Lock()
	defer m.m.Unlock()
	o, ok := m.d[k]
	delete(m.d, k)
	return o, ok
}

func (m *Map) Delete(k any) { m.LoadAndDelete(k) }

func (m *Map) CompareAndSwap(k, old, new any) bool {
	m.m.Lock()
	defer m.m.Unlock()
	if o, ok := m.d[k]; ok && o == old {
		m.d[k] = new
		return true
	}
	return false
}

func (m *Map) CompareAndDelete(k, old any) bool {
	m.m.Lock()
	defer m.m.Unlock()
	if o, ok := m.d[k]; ok && o == old {
		delete(m.d, k)
		return true
	}
	return false
}

func (m *Map) Clear() {
	m.m.Lock()
	defer m.m.Unlock()
	m.d = nil
}

func (m *Map) Range(f func(k, v any) bool) {
	m.m.Lock()
	keys := make([]any, 0, len(m.d))
	for k := range m.d {
		keys = append(keys, k)
	}
	m.m.Unlock()
	sort.Slice(keys, func(i, j int) bool { return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j]) })
	for _, k := range keys {
		if v, ok := m.Load(k); ok && !f(k, v) {
			return
		}
	}
}
