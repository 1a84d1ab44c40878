package simrt

import "unsafe"

// DMap stands in for the concurrent maps the repository depends on. Each
// operation is atomic, as theirs are, happens at a yield point, and gives
// happens-before edges per key only. Iteration visits the entries one by one
// with yield points in between, in an order the run's seed decides, and may or
// may not see entries added meanwhile.
type DMap[K comparable, V any] struct {
	ents  []*dent[K, V]
	n     int // used slots, including deleted ones
	size  int
	busy  bool
	owner int32
}

type dent[K comparable, V any] struct {
	key  K
	val  V
	live bool
	sync byte
}

//go:norace
func (m *DMap[K, V]) find(k K) *dent[K, V] {
	for i := 0; i < m.n; i++ {
		if e := m.ents[i]; e.live && e.key == k {
			return e
		}
	}
	return nil
}

//go:norace
func (m *DMap[K, V]) slot(k K) *dent[K, V] {
	if e := m.find(k); e != nil {
		return e
	}
	e := &dent[K, V]{key: k}
	if m.n == len(m.ents) {
		ne := make([]*dent[K, V], 2*m.n+4)
		for i := 0; i < m.n; i++ {
			ne[i] = m.ents[i]
		}
		m.ents = ne
	}
	m.ents[m.n] = e
	m.n++
	return e
}

//go:norace
func (m *DMap[K, V]) load(k K) (v V, ok bool, p unsafe.Pointer) {
	if e := m.find(k); e != nil {
		return e.val, true, unsafe.Pointer(&e.sync)
	}
	return v, false, nil
}

//go:norace
func (m *DMap[K, V]) put(k K, v V, keep, reuse bool) (old V, had bool, p unsafe.Pointer) {
	if e := m.find(k); e != nil {
		old = e.val
		if !keep {
			e.val = v
		}
		return old, true, unsafe.Pointer(&e.sync)
	}
	e := m.slot(k)
	e.val, e.live = v, true
	m.size++
	return old, false, unsafe.Pointer(&e.sync)
}

//go:norace
func (m *DMap[K, V]) del(k K) (old V, had bool, p unsafe.Pointer) {
	if e := m.find(k); e != nil {
		e.live = false
		m.size--
		return e.val, true, unsafe.Pointer(&e.sync)
	}
	return old, false, nil
}

// Get returns the value of a key.
func (m *DMap[K, V]) Get(k K) (V, bool) {
	Y(-30)
	v, ok, p := m.load(k)
	if p != nil {
		raceAcquire(p)
	}
	return v, ok
}

// Set stores a value.
func (m *DMap[K, V]) Set(k K, v V) {
	Y(-31)
	m.waitIdle()
	_, _, p := m.put(k, v, false, true)
	raceAcquire(p)
	raceReleaseMerge(p)
	Y(-32)
}

// Swap stores a value and returns the one before.
func (m *DMap[K, V]) Swap(k K, v V) (V, bool) {
	Y(-33)
	m.waitIdle()
	old, had, p := m.put(k, v, false, true)
	raceAcquire(p)
	raceReleaseMerge(p)
	return old, had
}

// GetOrSet returns the existing value or stores the given one.
func (m *DMap[K, V]) GetOrSet(k K, v V) (V, bool) {
	Y(-34)
	m.waitIdle()
	old, had, p := m.put(k, v, true, true)
	raceAcquire(p)
	if had {
		return old, true
	}
	raceReleaseMerge(p)
	Y(-35)
	return v, false
}

// GetAndDelete removes a key.
func (m *DMap[K, V]) GetAndDelete(k K) (V, bool) {
	Y(-36)
	m.waitIdle()
	old, had, p := m.del(k)
	if p != nil {
		raceAcquire(p)
		raceReleaseMerge(p)
	}
	return old, had
}

// CompareAndSwap replaces old by new.
func (m *DMap[K, V]) CompareAndSwap(k K, old, new V) bool {
	Y(-37)
	m.waitIdle()
	v, ok, p := m.load(k)
	if !ok || any(v) != any(old) {
		return false
	}
	m.put(k, new, false, true)
	raceAcquire(p)
	raceReleaseMerge(p)
	return true
}

func (m *DMap[K, V]) compareAndDelete(k K, old V) bool {
	Y(-37)
	m.waitIdle()
	v, ok, p := m.load(k)
	if !ok || any(v) != any(old) {
		return false
	}
	m.del(k)
	raceAcquire(p)
	raceReleaseMerge(p)
	return true
}

// Compute runs fn on the value of a key while all other writers wait.
func (m *DMap[K, V]) Compute(k K, fn func(V, bool) (V, bool)) (V, bool) {
	m.Lock()
	defer m.Unlock()
	old, had := m.Get(k)
	v, del := fn(old, had)
	if del {
		if had {
			m.GetAndDelete(k)
		}
		return old, false
	}
	m.Set(k, v)
	return v, true
}

// GetOrCompute stores the value of fn unless there is one.
func (m *DMap[K, V]) GetOrCompute(k K, fn func() V) (V, bool) {
	if v, ok := m.Get(k); ok {
		return v, true
	}
	m.Lock()
	defer m.Unlock()
	if v, ok := m.Get(k); ok {
		return v, true
	}
	v := fn()
	m.Set(k, v)
	return v, false
}

// Lock and Unlock serialise the writers while a compute callback runs, as the
// bucket lock of the real map does.
func (m *DMap[K, V]) Lock() {
	Y(-38)
	m.lock()
	raceAcquire(unsafe.Pointer(m))
}

// waitIdle waits while another task runs a compute callback, which holds the
// lock of the bucket in the real maps.
//
//go:norace
func (m *DMap[K, V]) waitIdle() {
	for m.busy && cur != nil && m.owner != cur.id {
		block(unsafe.Pointer(m))
	}
}

//go:norace
func (m *DMap[K, V]) lock() {
	for m.busy {
		block(unsafe.Pointer(m))
	}
	m.busy = true
	if cur != nil {
		m.owner = cur.id
	}
}

// Unlock ends Lock.
func (m *DMap[K, V]) Unlock() {
	raceReleaseMerge(unsafe.Pointer(m))
	m.unlock()
	Y(-39)
}

//go:norace
func (m *DMap[K, V]) unlock() {
	m.busy = false
	wake(unsafe.Pointer(m))
}

//go:norace
func (m *DMap[K, V]) order() []int {
	n := m.n
	o := make([]int, n)
	for i := range o {
		o[i] = i
	}
	if cur == nil || n < 2 {
		return o
	}
	switch cfg.MapMode {
	case 1:
		fired.MapShuffles++
		for i := n - 1; i > 0; i-- {
			j := int(choose(31, uint64(i+1)))
			o[i], o[j] = o[j], o[i]
		}
	case 2:
		for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
			o[i], o[j] = o[j], o[i]
		}
	}
	return o
}

//go:norace
func (m *DMap[K, V]) at(i int) (k K, v V, ok bool, p unsafe.Pointer) {
	if i >= m.n {
		return
	}
	e := m.ents[i]
	if !e.live {
		return
	}
	return e.key, e.val, true, unsafe.Pointer(&e.sync)
}

//go:norace
func (m *DMap[K, V]) used() int { return m.n }

// ForEach visits the entries until f returns false.
func (m *DMap[K, V]) ForEach(f func(K, V) bool) {
	Y(-40)
	o := m.order()
	n := len(o)
	for _, i := range o {
		k, v, ok, p := m.at(i)
		if !ok {
			continue
		}
		raceAcquire(p)
		if !f(k, v) {
			return
		}
		Y(-41)
	}
	// Entries added while iterating may be seen or not.
	for i := n; i < m.used(); i++ {
		if Choose(32, 2) == 0 {
			continue
		}
		k, v, ok, p := m.at(i)
		if !ok {
			continue
		}
		noteExtra()
		raceAcquire(p)
		if !f(k, v) {
			return
		}
		Y(-42)
	}
}

//go:norace
func noteExtra() { fired.RangeExtra++ }

// Clear removes everything.
func (m *DMap[K, V]) Clear() {
	Y(-43)
	m.clear()
}

//go:norace
func (m *DMap[K, V]) clear() {
	m.n, m.size = 0, 0
	m.ents = nil
}

// Size is the number of entries.
func (m *DMap[K, V]) Size() int {
	Y(-44)
	return m.count()
}

//go:norace
func (m *DMap[K, V]) count() int { return m.size }
