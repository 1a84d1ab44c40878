package simrt

import (
	"sync"
	"unsafe"
)

// Mutex is sync.Mutex under the scheduler.
type Mutex struct {
	held bool
	w    bool // someone waits
	_    [6]byte
}

//go:norace
func (m *Mutex) lock() {
	for m.held {
		m.w = true
		fired.LockWaits++
		block(unsafe.Pointer(m))
	}
	m.held = true
}

// Lock locks m.
func (m *Mutex) Lock() {
	if !Active() {
		m.lockQuiet()
		return
	}
	Y(-10)
	m.lock()
	raceAcquire(unsafe.Pointer(m))
}

//go:norace
func (m *Mutex) lockQuiet() {
	if m.held {
		panic("simrt: lock held outside a run")
	}
	m.held = true
}

// TryLock tries to lock m.
func (m *Mutex) TryLock() bool {
	if Active() {
		Y(-11)
	}
	if !m.try() {
		return false
	}
	raceAcquire(unsafe.Pointer(m))
	return true
}

//go:norace
func (m *Mutex) try() bool {
	if m.held {
		return false
	}
	m.held = true
	return true
}

// Unlock unlocks m.
func (m *Mutex) Unlock() {
	raceReleaseMerge(unsafe.Pointer(m))
	m.unlock()
	if Active() {
		Y(-12)
	}
}

//go:norace
func (m *Mutex) unlock() {
	if !m.held {
		panic("sync: unlock of unlocked mutex")
	}
	m.held = false
	if m.w {
		m.w = false
		wake(unsafe.Pointer(m))
	}
}

// RWMutex is sync.RWMutex under the scheduler; as in sync, a waiting writer
// blocks new readers.
type RWMutex struct {
	readers  int32
	waitingW int32
	writer   bool
	rsync    byte // address for reader -> writer edges
	wsync    byte // address for writer -> anyone edges
	_        byte
}

//go:norace
func (m *RWMutex) lock() {
	m.waitingW++
	for m.writer || m.readers > 0 {
		fired.LockWaits++
		block(unsafe.Pointer(m))
	}
	m.waitingW--
	m.writer = true
}

// Lock locks m for writing.
func (m *RWMutex) Lock() {
	if Active() {
		Y(-13)
	}
	m.lockOr()
	raceAcquire(unsafe.Pointer(&m.rsync))
	raceAcquire(unsafe.Pointer(&m.wsync))
}

//go:norace
func (m *RWMutex) lockOr() {
	if cur == nil {
		if m.writer || m.readers > 0 {
			panic("simrt: lock held outside a run")
		}
		m.writer = true
		return
	}
	m.lock()
}

// TryLock tries to lock m for writing.
func (m *RWMutex) TryLock() bool {
	if Active() {
		Y(-14)
	}
	if !m.try() {
		return false
	}
	raceAcquire(unsafe.Pointer(&m.rsync))
	raceAcquire(unsafe.Pointer(&m.wsync))
	return true
}

//go:norace
func (m *RWMutex) try() bool {
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	return true
}

// Unlock unlocks m for writing.
func (m *RWMutex) Unlock() {
	raceRelease(unsafe.Pointer(&m.wsync))
	m.unlock()
	if Active() {
		Y(-15)
	}
}

//go:norace
func (m *RWMutex) unlock() {
	if !m.writer {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.writer = false
	wake(unsafe.Pointer(m))
}

// RLock locks m for reading.
func (m *RWMutex) RLock() {
	if Active() {
		Y(-16)
	}
	m.rlock()
	raceAcquire(unsafe.Pointer(&m.wsync))
}

//go:norace
func (m *RWMutex) rlock() {
	if cur != nil {
		for m.writer || m.waitingW > 0 {
			fired.LockWaits++
			block(unsafe.Pointer(m))
		}
	}
	m.readers++
}

// TryRLock tries to lock m for reading.
func (m *RWMutex) TryRLock() bool {
	if Active() {
		Y(-17)
	}
	if !m.tryR() {
		return false
	}
	raceAcquire(unsafe.Pointer(&m.wsync))
	return true
}

//go:norace
func (m *RWMutex) tryR() bool {
	if m.writer || m.waitingW > 0 {
		return false
	}
	m.readers++
	return true
}

// RUnlock undoes a single RLock.
func (m *RWMutex) RUnlock() {
	raceReleaseMerge(unsafe.Pointer(&m.rsync))
	m.runlock()
	if Active() {
		Y(-18)
	}
}

//go:norace
func (m *RWMutex) runlock() {
	if m.readers <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	if m.readers == 0 {
		wake(unsafe.Pointer(m))
	}
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker returns a Locker for the read side.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Locker is sync.Locker.
type Locker = sync.Locker

// Once is sync.Once under the scheduler.
type Once struct {
	done bool
	m    Mutex
}

// Do calls f once.
func (o *Once) Do(f func()) {
	if Active() {
		Y(-19)
	}
	if o.isDone() {
		raceAcquire(unsafe.Pointer(o))
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.isDone() {
		defer func() {
			raceRelease(unsafe.Pointer(o))
			o.setDone()
		}()
		f()
	}
}

//go:norace
func (o *Once) isDone() bool { return o.done }

//go:norace
func (o *Once) setDone() { o.done = true }

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	var once Once
	return func() { once.Do(f) }
}

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var once Once
	var r T
	return func() T {
		once.Do(func() { r = f() })
		return r
	}
}

// OnceValues is sync.OnceValues.
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var once Once
	var r1 T1
	var r2 T2
	return func() (T1, T2) {
		once.Do(func() { r1, r2 = f() })
		return r1, r2
	}
}

// WaitGroup is sync.WaitGroup under the scheduler.
type WaitGroup struct {
	n int64
}

// Add adds delta.
func (w *WaitGroup) Add(delta int) {
	if Active() {
		Y(-20)
	}
	if delta < 0 {
		raceReleaseMerge(unsafe.Pointer(w))
	}
	w.add(delta)
}

//go:norace
func (w *WaitGroup) add(delta int) {
	w.n += int64(delta)
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		wake(unsafe.Pointer(w))
	}
}

// Done is Add(-1).
func (w *WaitGroup) Done() { w.Add(-1) }

// Wait blocks until the counter is zero.
func (w *WaitGroup) Wait() {
	if Active() {
		Y(-21)
	}
	w.wait()
	raceAcquire(unsafe.Pointer(w))
}

//go:norace
func (w *WaitGroup) wait() {
	for w.n > 0 {
		if cur == nil {
			panic("simrt: WaitGroup.Wait outside a run")
		}
		block(unsafe.Pointer(w))
	}
}

// Go runs f in a task.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(func() {
		defer w.Done()
		f()
	})
}

// Cond is sync.Cond under the scheduler.
type Cond struct {
	L   Locker
	seq int64
}

// NewCond returns a Cond.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

// Wait waits for a signal.
func (c *Cond) Wait() {
	s := c.get()
	c.L.Unlock()
	c.wait(s)
	raceAcquire(unsafe.Pointer(&c.seq))
	c.L.Lock()
}

//go:norace
func (c *Cond) get() int64 { return c.seq }

//go:norace
func (c *Cond) wait(s int64) {
	for c.seq == s {
		block(unsafe.Pointer(c))
	}
}

// Signal wakes waiters (all of them: a legal spurious wake-up).
func (c *Cond) Signal() { c.Broadcast() }

// Broadcast wakes all waiters.
func (c *Cond) Broadcast() {
	if Active() {
		Y(-22)
	}
	raceReleaseMerge(unsafe.Pointer(&c.seq))
	c.bump()
}

//go:norace
func (c *Cond) bump() {
	c.seq++
	wake(unsafe.Pointer(c))
}

// Pool is sync.Pool under the scheduler: what it returns is a seeded choice.
type Pool struct {
	New   func() any
	items []any
	n     int
	run   *Config
}

// Get takes an item or makes one.
func (p *Pool) Get() any {
	if Active() {
		Y(-23)
	}
	if x, ok := p.take(); ok {
		if a := dataWord(x); a != nil {
			raceAcquire(a)
		}
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

//go:norace
func (p *Pool) take() (any, bool) {
	if p.run != cfg {
		p.run, p.n = cfg, 0
	}
	if cur == nil || p.n == 0 || cfg.PoolMode == 2 {
		fired.PoolNew++
		return nil, false
	}
	i := p.n - 1
	if cfg.PoolMode == 1 {
		if choose(21, 4) == 0 {
			fired.PoolNew++
			return nil, false
		}
		i = int(choose(22, uint64(p.n)))
	}
	x := p.items[i]
	p.items[i] = p.items[p.n-1]
	p.items[p.n-1] = nil
	p.n--
	fired.PoolReuse++
	return x, true
}

// Put gives an item back.
func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	if Active() {
		Y(-24)
	}
	if a := dataWord(x); a != nil {
		raceReleaseMerge(a)
	}
	p.give(x)
	if Active() {
		Y(-25)
	}
}

//go:norace
func (p *Pool) give(x any) {
	if p.run != cfg {
		p.run, p.n = cfg, 0
	}
	if cur == nil || cfg.PoolMode == 2 {
		return
	}
	if cfg.PoolMode == 1 && choose(23, 5) == 0 {
		fired.PoolDrop++
		return
	}
	if p.n == len(p.items) {
		ni := make([]any, 2*p.n+8)
		for i := 0; i < p.n; i++ {
			ni[i] = p.items[i]
		}
		p.items = ni
	}
	p.items[p.n] = x
	p.n++
}

// dataWord is the address sync.Pool uses for its happens-before edges.
//
//go:norace
func dataWord(x any) unsafe.Pointer {
	return (*[2]unsafe.Pointer)(unsafe.Pointer(&x))[1]
}

// Map is sync.Map under the scheduler.
type Map struct {
	d DMap[any, any]
}

func (m *Map) Load(key any) (any, bool)               { return m.d.Get(key) }
func (m *Map) Store(key, value any)                   { m.d.Set(key, value) }
func (m *Map) LoadOrStore(key, value any) (any, bool) { return m.d.GetOrSet(key, value) }
func (m *Map) LoadAndDelete(key any) (any, bool)      { return m.d.GetAndDelete(key) }
func (m *Map) Delete(key any)                         { m.d.GetAndDelete(key) }
func (m *Map) Swap(key, value any) (any, bool)        { return m.d.Swap(key, value) }
func (m *Map) Range(f func(key, value any) bool)      { m.d.ForEach(f) }
func (m *Map) Clear()                                 { m.d.Clear() }
func (m *Map) CompareAndSwap(key, old, new any) bool  { return m.d.CompareAndSwap(key, old, new) }
func (m *Map) CompareAndDelete(key, old any) bool {
	return m.d.compareAndDelete(key, old)
}
