// Package maps stands in for github.com/oarkflow/maps in the simulation: the
// same interface, on a map whose operations are the scheduler's yield points.
// As in the real package, GetOrSet and GetOrCompute are not atomic.
package maps

import (
	"encoding/json"
	"unsafe"

	"verif/simrt"
)

// IMap is the interface of the real package.
type IMap[K comparable, V any] interface {
	Del(keys ...K)
	Get(key K) (value V, ok bool)
	Set(key K, value V)
	GetOrSet(key K, value V) (actual V, loaded bool)
	GetOrCompute(key K, valueFn func() V) (actual V, loaded bool)
	GetAndDel(key K) (value V, ok bool)
	CompareAndSwap(key K, oldValue, newValue V) bool
	Swap(key K, newValue V) (oldValue V, swapped bool)
	ForEach(lambda func(K, V) bool)
	Grow(newSize uintptr)
	AsMap() map[K]V
	SetHasher(hs func(K) uintptr)
	Len() uintptr
	FillRate() uintptr
	MarshalJSON() ([]byte, error)
	UnmarshalJSON(i []byte) error
}

type hashable interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr |
		~float32 | ~float64 | ~complex64 | ~complex128 | ~string | unsafe.Pointer
}

// Map is the map.
type Map[K hashable, V any] struct {
	d simrt.DMap[K, V]
}

func New[K hashable, V any](size ...uintptr) *Map[K, V] { return &Map[K, V]{} }

func (m *Map[K, V]) Del(keys ...K) {
	for _, k := range keys {
		m.d.GetAndDelete(k)
	}
}
func (m *Map[K, V]) Get(k K) (V, bool)         { return m.d.Get(k) }
func (m *Map[K, V]) Set(k K, v V)              { m.d.Set(k, v) }
func (m *Map[K, V]) GetAndDel(k K) (V, bool)   { return m.d.GetAndDelete(k) }
func (m *Map[K, V]) ForEach(f func(K, V) bool) { m.d.ForEach(f) }
func (m *Map[K, V]) Grow(uintptr)              {}
func (m *Map[K, V]) SetHasher(func(K) uintptr) {}
func (m *Map[K, V]) Len() uintptr              { return uintptr(m.d.Size()) }
func (m *Map[K, V]) FillRate() uintptr         { return 0 }

func (m *Map[K, V]) GetOrSet(k K, v V) (V, bool) {
	if old, ok := m.d.Get(k); ok {
		return old, true
	}
	m.d.Set(k, v)
	return v, false
}

func (m *Map[K, V]) GetOrCompute(k K, f func() V) (V, bool) {
	if old, ok := m.d.Get(k); ok {
		return old, true
	}
	v := f()
	m.d.Set(k, v)
	return v, false
}

func (m *Map[K, V]) CompareAndSwap(k K, old, new V) bool { return m.d.CompareAndSwap(k, old, new) }

func (m *Map[K, V]) Swap(k K, v V) (V, bool) {
	if _, ok := m.d.Get(k); !ok {
		var z V
		return z, false
	}
	return m.d.Swap(k, v)
}

func (m *Map[K, V]) AsMap() map[K]V {
	r := make(map[K]V)
	m.d.ForEach(func(k K, v V) bool { r[k] = v; return true })
	return r
}

func (m *Map[K, V]) MarshalJSON() ([]byte, error) {
	r := make(map[K]V)
	m.d.ForEach(func(k K, v V) bool { r[k] = v; return true })
	return json.Marshal(r)
}

func (m *Map[K, V]) UnmarshalJSON(i []byte) error {
	g := make(map[K]V)
	if err := json.Unmarshal(i, &g); err != nil {
		return err
	}
	for k, v := range simrt.MapRange(g) {
		m.Set(k, v)
	}
	return nil
}

func FromMap(data map[string]any) IMap[string, any] {
	m := New[string, any]()
	for k, v := range simrt.MapRange(data) {
		m.Set(k, v)
	}
	return m
}

func ToMap(data IMap[string, any]) map[string]any {
	r := make(map[string]any)
	data.ForEach(func(k string, v any) bool { r[k] = v; return true })
	return r
}
