// Package sync is what the instrumented copy imports in place of the standard
// library's sync.
package sync

import "verif/simrt"

type (
	Mutex     = simrt.Mutex
	RWMutex   = simrt.RWMutex
	Once      = simrt.Once
	WaitGroup = simrt.WaitGroup
	Cond      = simrt.Cond
	Pool      = simrt.Pool
	Map       = simrt.Map
	Locker    = simrt.Locker
)

func NewCond(l Locker) *Cond                             { return simrt.NewCond(l) }
func OnceFunc(f func()) func()                           { return simrt.OnceFunc(f) }
func OnceValue[T any](f func() T) func() T               { return simrt.OnceValue(f) }
func OnceValues[A, B any](f func() (A, B)) func() (A, B) { return simrt.OnceValues(f) }
