// Package ssync mirrors package sync on top of the simulator's scheduler.
package ssync

import (
	"fmt"
	"unsafe"

	"verifsim/simrt"
)

// Locker mirrors sync.Locker.
type Locker interface {
	Lock()
	Unlock()
}

//go:norace
func acq(p unsafe.Pointer) {
	if annotate {
		simrt.RaceAcquire(p)
	}
}

//go:norace
func rel(p unsafe.Pointer) {
	if annotate {
		simrt.RaceRelease(p)
	}
}

//go:norace
func relm(p unsafe.Pointer) {
	if annotate {
		simrt.RaceReleaseMerge(p)
	}
}

//go:norace
func fatal(s string) { panic("fatal error: " + s) }

// Mutex mirrors sync.Mutex.
type Mutex struct{ held bool }

// SimReady implements simrt.Waiter.
//
//go:norace
func (m *Mutex) SimReady() bool { return !m.held }

// Lock locks m.
//
//go:norace
func (m *Mutex) Lock() {
	point()
	for m.held {
		simrt.Await(m, "a mutex")
	}
	m.held = true
	acq(unsafe.Pointer(m))
}

// TryLock tries to lock m.
//
//go:norace
func (m *Mutex) TryLock() bool {
	point()
	if m.held {
		return false
	}
	m.held = true
	acq(unsafe.Pointer(m))
	return true
}

// Unlock unlocks m.
//
//go:norace
func (m *Mutex) Unlock() {
	if !m.held {
		fatal("sync: unlock of unlocked mutex")
	}
	rel(unsafe.Pointer(m))
	m.held = false
	point()
}

// RWMutex mirrors sync.RWMutex.
type RWMutex struct {
	writer  bool
	waiting int
	readers int
	r, w    byte
}

type rwRead struct{ m *RWMutex }

//go:norace
func (x rwRead) SimReady() bool { return !x.m.writer && x.m.waiting == 0 }

type rwWrite struct{ m *RWMutex }

//go:norace
func (x rwWrite) SimReady() bool { return !x.m.writer && x.m.readers == 0 }

// RLock locks for reading.
//
//go:norace
func (m *RWMutex) RLock() {
	point()
	for m.writer || m.waiting > 0 {
		simrt.Await(rwRead{m}, "a read lock")
	}
	m.readers++
	acq(unsafe.Pointer(&m.w))
}

// TryRLock tries to lock for reading.
//
//go:norace
func (m *RWMutex) TryRLock() bool {
	point()
	if m.writer || m.waiting > 0 {
		return false
	}
	m.readers++
	acq(unsafe.Pointer(&m.w))
	return true
}

// RUnlock undoes RLock.
//
//go:norace
func (m *RWMutex) RUnlock() {
	if m.readers == 0 {
		fatal("sync: RUnlock of unlocked RWMutex")
	}
	relm(unsafe.Pointer(&m.r))
	m.readers--
	point()
}

// Lock locks for writing.
//
//go:norace
func (m *RWMutex) Lock() {
	point()
	m.waiting++
	for m.writer || m.readers > 0 {
		simrt.Await(rwWrite{m}, "a write lock")
	}
	m.waiting--
	m.writer = true
	acq(unsafe.Pointer(&m.w))
	acq(unsafe.Pointer(&m.r))
}

// TryLock tries to lock for writing.
//
//go:norace
func (m *RWMutex) TryLock() bool {
	point()
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	acq(unsafe.Pointer(&m.w))
	acq(unsafe.Pointer(&m.r))
	return true
}

// Unlock undoes Lock.
//
//go:norace
func (m *RWMutex) Unlock() {
	if !m.writer {
		fatal("sync: Unlock of unlocked RWMutex")
	}
	rel(unsafe.Pointer(&m.w))
	m.writer = false
	point()
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

// RLocker mirrors sync.RWMutex.RLocker.
func (m *RWMutex) RLocker() Locker { return rlocker{m} }

// Once mirrors sync.Once.
type Once struct {
	done bool
	m    Mutex
}

//go:norace
func (o *Once) isDone() bool {
	point()
	return o.done
}

//go:norace
func (o *Once) set() { o.done = true }

// Do calls f once.
func (o *Once) Do(f func()) {
	if o.isDone() {
		acq(unsafe.Pointer(o))
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.isDone() {
		defer func() {
			rel(unsafe.Pointer(o))
			o.set()
		}()
		f()
	}
}

// OnceFunc mirrors sync.OnceFunc.
func OnceFunc(f func()) func() {
	var once Once
	var valid bool
	var p interface{}
	g := func() {
		defer func() {
			p = recover()
			if !valid {
				panic(p)
			}
		}()
		f()
		f = nil
		valid = true
	}
	return func() {
		once.Do(g)
		if !valid {
			panic(p)
		}
	}
}

// OnceValue mirrors sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var r T
	g := OnceFunc(func() { r = f() })
	return func() T { g(); return r }
}

// OnceValues mirrors sync.OnceValues.
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var a T1
	var b T2
	g := OnceFunc(func() { a, b = f() })
	return func() (T1, T2) { g(); return a, b }
}

// Pool mirrors sync.Pool. Which item Get returns, and when the pool loses
// its items to a collection, is decided by the simulator.
type Pool struct {
	New   func() interface{}
	mu    byte
	known int64 // the run this pool was last used in
	items []interface{}
}

// Get takes an item.
func (p *Pool) Get() interface{} {
	point()
	x := p.take()
	if x == nil && p.New != nil {
		x = p.New()
	}
	return x
}

//go:norace
func (p *Pool) take() interface{} {
	n := len(p.items)
	drop := n > 0 && simrt.Coin(16) == 0
	simrt.CountPool(drop)
	if drop {
		p.items = nil
		return nil
	}
	if n == 0 || simrt.Coin(10) == 0 {
		return nil
	}
	i := n - 1
	if simrt.Coin(3) == 0 {
		i = simrt.Coin(n)
	}
	x := p.items[i]
	items := make([]interface{}, 0, n)
	for j := 0; j < n; j++ {
		if j != i {
			items = append(items, p.items[j])
		}
	}
	p.items = items
	acq(unsafe.Pointer(&p.mu))
	return x
}

// Put returns an item.
//
//go:norace
func (p *Pool) Put(x interface{}) {
	if x == nil {
		return
	}
	relm(unsafe.Pointer(&p.mu))
	if simrt.NewPool(&p.known) {
		simrt.AddPool(func() { p.items = nil })
	}
	n := len(p.items)
	if n < 64 && simrt.Coin(20) != 0 {
		items := make([]interface{}, n+1)
		for j := 0; j < n; j++ {
			items[j] = p.items[j]
		}
		items[n] = x
		p.items = items
	}
	point()
}

// WaitGroup mirrors sync.WaitGroup.
type WaitGroup struct{ n int }

// SimReady implements simrt.Waiter.
//
//go:norace
func (w *WaitGroup) SimReady() bool { return w.n <= 0 }

// Add adds to the counter.
//
//go:norace
func (w *WaitGroup) Add(d int) {
	if d < 0 {
		relm(unsafe.Pointer(w))
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	point()
}

// Done decrements the counter.
func (w *WaitGroup) Done() { w.Add(-1) }

// Wait waits for zero.
//
//go:norace
func (w *WaitGroup) Wait() {
	point()
	for w.n > 0 {
		simrt.Await(w, "a wait group")
	}
	acq(unsafe.Pointer(w))
}

// Go mirrors sync.WaitGroup.Go.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	simrt.Go(func() {
		defer w.Done()
		f()
	})
}

// Cond mirrors sync.Cond.
type Cond struct {
	L    Locker
	list []*condWait
}

type condWait struct{ woken bool }

//go:norace
func (c *condWait) SimReady() bool { return c.woken }

// NewCond mirrors sync.NewCond.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

//go:norace
func (c *Cond) add() *condWait {
	x := &condWait{}
	n := make([]*condWait, len(c.list)+1)
	for i := range c.list {
		n[i] = c.list[i]
	}
	n[len(c.list)] = x
	c.list = n
	return x
}

// Wait mirrors sync.Cond.Wait.
func (c *Cond) Wait() {
	x := c.add()
	c.L.Unlock()
	c.block(x)
	c.L.Lock()
}

//go:norace
func (c *Cond) block(x *condWait) {
	for !x.woken {
		simrt.Await(x, "a condition variable")
	}
	acq(unsafe.Pointer(c))
}

// Signal mirrors sync.Cond.Signal.
//
//go:norace
func (c *Cond) Signal() {
	relm(unsafe.Pointer(c))
	if len(c.list) > 0 {
		c.list[0].woken = true
		c.list = c.list[1:]
	}
	point()
}

// Broadcast mirrors sync.Cond.Broadcast.
//
//go:norace
func (c *Cond) Broadcast() {
	relm(unsafe.Pointer(c))
	for i := range c.list {
		c.list[i].woken = true
	}
	c.list = nil
	point()
}

// Map mirrors sync.Map.
type Map struct {
	mu   Mutex
	m    map[interface{}]interface{}
	keys []interface{}
}

// Load mirrors sync.Map.Load.
func (m *Map) Load(k interface{}) (interface{}, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	v, ok := m.m[k]
	return v, ok
}

// Store mirrors sync.Map.Store.
func (m *Map) Store(k, v interface{}) { m.Swap(k, v) }

// Clear mirrors sync.Map.Clear.
func (m *Map) Clear() {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.m, m.keys = nil, nil
}

func (m *Map) put(k, v interface{}) {
	if m.m == nil {
		m.m = map[interface{}]interface{}{}
	}
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}

func (m *Map) del(k interface{}) {
	if _, ok := m.m[k]; !ok {
		return
	}
	delete(m.m, k)
	for i, x := range m.keys {
		if x == k {
			m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
			return
		}
	}
}

// LoadOrStore mirrors sync.Map.LoadOrStore.
func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if o, ok := m.m[k]; ok {
		return o, true
	}
	m.put(k, v)
	return v, false
}

// LoadAndDelete mirrors sync.Map.LoadAndDelete.
func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	v, ok := m.m[k]
	m.del(k)
	return v, ok
}

// Delete mirrors sync.Map.Delete.
func (m *Map) Delete(k interface{}) { m.LoadAndDelete(k) }

// Swap mirrors sync.Map.Swap.
func (m *Map) Swap(k, v interface{}) (interface{}, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	o, ok := m.m[k]
	m.put(k, v)
	return o, ok
}

// CompareAndSwap mirrors sync.Map.CompareAndSwap.
func (m *Map) CompareAndSwap(k, old, v interface{}) bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if o, ok := m.m[k]; ok && o == old {
		m.put(k, v)
		return true
	}
	return false
}

// CompareAndDelete mirrors sync.Map.CompareAndDelete.
func (m *Map) CompareAndDelete(k, old interface{}) bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if o, ok := m.m[k]; ok && o == old {
		m.del(k)
		return true
	}
	return false
}

// Range mirrors sync.Map.Range.
func (m *Map) Range(f func(k, v interface{}) bool) {
	m.mu.Lock()
	keys := append([]interface{}(nil), m.keys...)
	m.mu.Unlock()
	simrt.Shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
	for _, k := range keys {
		if v, ok := m.Load(k); ok {
			if !f(k, v) {
				return
			}
		}
	}
}

var _ = fmt.Sprint
