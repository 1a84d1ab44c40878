package simrt

import (
	"iter"
	"reflect"
	"unsafe"
)

// Channel operations of the code under test poll, so that waiting for a channel
// is a scheduling decision as well. A sender on an unbuffered channel leaves an
// offer that a receiver takes; a receiver leaves a wish that a select may fill.

type offer struct {
	ch    unsafe.Pointer
	c     any // chan T of capacity one: full in an offer, empty in a wish
	taken bool
	sync  byte
}

const maxOffers = 4096

type board struct {
	o [maxOffers]*offer
	n int
}

var (
	offers, wishes board
	chCfg          *Config
)

//go:norace
func newOffer(ch unsafe.Pointer, c any) *offer {
	if chCfg != cfg {
		chCfg, offers.n, wishes.n = cfg, 0, 0
	}
	o := &offer{}
	o.ch, o.c = ch, c
	return o
}

//go:norace
func contents(o *offer) any { return o.c }

//go:norace
func find(l *board, ch unsafe.Pointer) *offer {
	if chCfg != cfg {
		return nil
	}
	for i := 0; i < l.n; i++ {
		if o := l.o[i]; o.ch == ch {
			withdraw(l, o)
			o.taken = true
			return o
		}
	}
	return nil
}

//go:norace
func leave(l *board, o *offer) {
	if l.n == maxOffers {
		panic("simrt: too many waiting channel operations")
	}
	l.o[l.n] = o
	l.n++
}

//go:norace
func withdraw(l *board, o *offer) {
	for i := 0; i < l.n; i++ {
		if l.o[i] == o {
			for ; i+1 < l.n; i++ {
				l.o[i] = l.o[i+1]
			}
			l.n--
			return
		}
	}
}

//go:norace
func isTaken(o *offer) bool { return o.taken }

func addr(ch any) unsafe.Pointer { return reflect.ValueOf(ch).UnsafePointer() }

// Send is ch <- v.
func Send[C ~chan T | ~chan<- T, T any](ch C, v T) {
	if !Active() {
		ch <- v
		return
	}
	if cap(ch) == 0 && ch != nil {
		Y(-60)
		c := make(chan T, 1)
		c <- v
		o := newOffer(addr(ch), c)
		leave(&offers, o)
		for !isTaken(o) {
			yieldAway()
		}
		raceAcquire(unsafe.Pointer(&o.sync))
		return
	}
	for {
		Y(-60)
		select {
		case ch <- v:
			return
		default:
			yieldAway()
		}
	}
}

// Recv is <-ch.
func Recv[C ~chan T | ~<-chan T, T any](ch C) T {
	v, _ := Recv2(ch)
	return v
}

// Recv2 is v, ok := <-ch.
func Recv2[C ~chan T | ~<-chan T, T any](ch C) (T, bool) {
	if !Active() {
		v, ok := <-ch
		return v, ok
	}
	var w *offer
	if cap(ch) == 0 && ch != nil {
		w = newOffer(addr(ch), make(chan T, 1))
	}
	for first := true; ; first = false {
		Y(-61)
		if w != nil {
			if isTaken(w) {
				return <-contents(w).(chan T), true
			}
			if o := find(&offers, addr(ch)); o != nil {
				withdraw(&wishes, w)
				raceReleaseMerge(unsafe.Pointer(&o.sync))
				return <-contents(o).(chan T), true
			}
		}
		select {
		case v, ok := <-ch:
			if w != nil {
				withdraw(&wishes, w)
			}
			return v, ok
		default:
		}
		if w != nil && first {
			leave(&wishes, w)
		}
		yieldAway()
	}
}

// ChanRange is range over a channel.
func ChanRange[C ~chan T | ~<-chan T, T any](ch C) iter.Seq[T] {
	return func(yield func(T) bool) {
		for {
			v, ok := Recv2[C, T](ch)
			if !ok || !yield(v) {
				return
			}
		}
	}
}

// Sel is the state of a select statement: its cases are tried one at a time,
// starting with a seeded choice.
type Sel struct {
	n, k, tried int
	def         bool
}

// NewSel starts a select with n cases and possibly a default.
func NewSel(n int, def bool) *Sel {
	s := &Sel{n: n, def: def}
	if n > 0 {
		s.k = Choose(61, n)
	}
	if Active() {
		Y(-62)
	}
	return s
}

// Next moves on to the next case; false when the default clause is to run.
func (s *Sel) Next() bool {
	s.tried++
	if s.n > 0 {
		s.k = (s.k + 1) % s.n
	}
	if s.tried < s.n {
		return true
	}
	s.tried = 0
	if s.def {
		return false
	}
	if Active() {
		yieldAway()
		Y(-62)
	}
	return true
}

// SelR is the channel case i of s receives from, nil if it is not its turn.
func SelR[C ~chan T | ~<-chan T, T any](s *Sel, i int, ch C) <-chan T {
	if s.k != i {
		return nil
	}
	if Active() && ch != nil && cap(ch) == 0 {
		if o := find(&offers, addr(ch)); o != nil {
			raceReleaseMerge(unsafe.Pointer(&o.sync))
			return contents(o).(chan T)
		}
	}
	return ch
}

// SelS is the channel case i of s sends to, nil if it is not its turn.
func SelS[C ~chan T | ~chan<- T, T any](s *Sel, i int, ch C) chan<- T {
	if s.k != i {
		return nil
	}
	if Active() && ch != nil && cap(ch) == 0 {
		if o := find(&wishes, addr(ch)); o != nil {
			return contents(o).(chan T)
		}
	}
	return ch
}

// yieldAway lets another task run if there is one.
//
//go:norace
func yieldAway() {
	t := cur
	steps++
	if steps > limit {
		hang()
	}
	t.state = stBlocked
	n := pick(t, true)
	t.state = stRunnable
	if n == nil && nasleep == 0 {
		// Nobody else can ever run: the channel stays as it is.
		idle++
		if idle > 1000 {
			t.state = stBlocked
			out.Deadlock = true
			describe()
			park()
		}
		return
	}
	idle = 0
	if n != nil && n != t {
		if cfg.Strategy == StratPCT {
			lowPrio--
			t.prio = lowPrio
		}
		switchTo(n, t)
	}
}

var idle int
