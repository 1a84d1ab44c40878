// Package xsync stands in for github.com/oarkflow/xsync in the simulation: the
// same interface, on a map whose operations are the scheduler's yield points.
package xsync

import "verif/simrt"

// IMap is the interface of the real package.
type IMap[K comparable, V any] interface {
	Get(K) (V, bool)
	Set(K, V)
	GetOrSet(K, V) (V, bool)
	GetAndSet(K, V) (V, bool)
	GetOrCompute(K, func() V) (V, bool)
	Compute(K, func(V, bool) (V, bool)) (V, bool)
	GetAndDelete(K) (V, bool)
	Del(K)
	ForEach(func(K, V) bool)
	Clear()
	Size() int
	Stats() MapStats
	Keys() []K
	Values() []V
	AsMap() map[K]V
	Clone() *MapOf[K, V]
}

// MapConfig is accepted and ignored.
type MapConfig struct{}

// MapStats holds the size only.
type MapStats struct{ Size int }

// WithPresize is accepted and ignored.
func WithPresize(int) func(*MapConfig) { return func(*MapConfig) {} }

// WithGrowOnly is accepted and ignored.
func WithGrowOnly() func(*MapConfig) { return func(*MapConfig) {} }

// MapOf is the map.
type MapOf[K comparable, V any] struct {
	d simrt.DMap[K, V]
}

func NewMap[K comparable, V any](options ...func(*MapConfig)) *MapOf[K, V] {
	return &MapOf[K, V]{}
}

func NewMapOfWithHasher[K comparable, V any](_ func(K, uint64) uint64, options ...func(*MapConfig)) *MapOf[K, V] {
	return &MapOf[K, V]{}
}

func (m *MapOf[K, V]) Get(k K) (V, bool)                                { return m.d.Get(k) }
func (m *MapOf[K, V]) Set(k K, v V)                                     { m.d.Set(k, v) }
func (m *MapOf[K, V]) GetOrSet(k K, v V) (V, bool)                      { return m.d.GetOrSet(k, v) }
func (m *MapOf[K, V]) GetOrCompute(k K, f func() V) (V, bool)           { return m.d.GetOrCompute(k, f) }
func (m *MapOf[K, V]) Compute(k K, f func(V, bool) (V, bool)) (V, bool) { return m.d.Compute(k, f) }
func (m *MapOf[K, V]) GetAndDelete(k K) (V, bool)                       { return m.d.GetAndDelete(k) }
func (m *MapOf[K, V]) Del(k K)                                          { m.d.GetAndDelete(k) }
func (m *MapOf[K, V]) ForEach(f func(K, V) bool)                        { m.d.ForEach(f) }
func (m *MapOf[K, V]) Clear()                                           { m.d.Clear() }
func (m *MapOf[K, V]) Size() int                                        { return m.d.Size() }
func (m *MapOf[K, V]) Stats() MapStats                                  { return MapStats{Size: m.d.Size()} }

func (m *MapOf[K, V]) GetAndSet(k K, v V) (V, bool) {
	old, had := m.d.Swap(k, v)
	if !had {
		return v, false
	}
	return old, true
}

func (m *MapOf[K, V]) Keys() []K {
	var r []K
	m.d.ForEach(func(k K, _ V) bool { r = append(r, k); return true })
	return r
}

func (m *MapOf[K, V]) Values() []V {
	var r []V
	m.d.ForEach(func(_ K, v V) bool { r = append(r, v); return true })
	return r
}

func (m *MapOf[K, V]) AsMap() map[K]V {
	r := make(map[K]V)
	m.d.ForEach(func(k K, v V) bool { r[k] = v; return true })
	return r
}

func (m *MapOf[K, V]) Clone() *MapOf[K, V] {
	r := NewMap[K, V]()
	m.d.ForEach(func(k K, v V) bool { r.Set(k, v); return true })
	return r
}
