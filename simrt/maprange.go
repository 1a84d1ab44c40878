package simrt

import (
	"fmt"
	"iter"
	"reflect"
	"sort"
)

// MapRange iterates over a Go map in an order decided by the run's seed. Like
// the language, it skips entries deleted before they are reached.
func MapRange[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		if len(m) == 0 {
			return
		}
		keys := make([]K, 0, len(m))
		for k := range m {
			keys = append(keys, k)
		}
		if Active() {
			sortKeys(keys)
			shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
		}
		for _, k := range keys {
			v, ok := m[k]
			if !ok {
				continue
			}
			if !yield(k, v) {
				return
			}
		}
	}
}

//go:norace
func shuffle(n int, swap func(i, j int)) {
	switch cfg.MapMode {
	case 1:
		fired.MapShuffles++
		for i := n - 1; i > 0; i-- {
			swap(i, int(choose(41, uint64(i+1))))
		}
	case 2:
		for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
			swap(i, j)
		}
	}
}

func sortKeys[K comparable](keys []K) {
	switch ks := any(keys).(type) {
	case []string:
		sort.Strings(ks)
		return
	case []int:
		sort.Ints(ks)
		return
	}
	var z K
	t := reflect.TypeOf(&z).Elem()
	if t.Kind() == reflect.Pointer || t.Kind() == reflect.Chan || t.Kind() == reflect.UnsafePointer {
		noteNondet()
		return
	}
	s := make([]string, len(keys))
	idx := make([]int, len(keys))
	for i, k := range keys {
		s[i] = fmt.Sprintf("%T|%#v", k, k)
		idx[i] = i
	}
	sort.Slice(idx, func(a, b int) bool { return s[idx[a]] < s[idx[b]] })
	cp := make([]K, len(keys))
	for i, j := range idx {
		cp[i] = keys[j]
	}
	copy(keys, cp)
}

//go:norace
func noteNondet() { fired.NondetRange++ }
