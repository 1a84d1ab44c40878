// Package time is what the instrumented copy imports in place of the standard
// library's time: the same values, but the clock and all timers are simulated.
package time

import (
	"sync/atomic"
	"time"

	"verif/simrt"
)

type (
	Duration   = time.Duration
	Location   = time.Location
	Month      = time.Month
	ParseError = time.ParseError
	Time       = time.Time
	Weekday    = time.Weekday
)

const (
	Layout      = time.Layout
	ANSIC       = time.ANSIC
	UnixDate    = time.UnixDate
	RubyDate    = time.RubyDate
	RFC822      = time.RFC822
	RFC822Z     = time.RFC822Z
	RFC850      = time.RFC850
	RFC1123     = time.RFC1123
	RFC1123Z    = time.RFC1123Z
	RFC3339     = time.RFC3339
	RFC3339Nano = time.RFC3339Nano
	Kitchen     = time.Kitchen
	Stamp       = time.Stamp
	StampMilli  = time.StampMilli
	StampMicro  = time.StampMicro
	StampNano   = time.StampNano
	DateTime    = time.DateTime
	DateOnly    = time.DateOnly
	TimeOnly    = time.TimeOnly

	Nanosecond  = time.Nanosecond
	Microsecond = time.Microsecond
	Millisecond = time.Millisecond
	Second      = time.Second
	Minute      = time.Minute
	Hour        = time.Hour

	January   = time.January
	February  = time.February
	March     = time.March
	April     = time.April
	May       = time.May
	June      = time.June
	July      = time.July
	August    = time.August
	September = time.September
	October   = time.October
	November  = time.November
	December  = time.December

	Sunday    = time.Sunday
	Monday    = time.Monday
	Tuesday   = time.Tuesday
	Wednesday = time.Wednesday
	Thursday  = time.Thursday
	Friday    = time.Friday
	Saturday  = time.Saturday
)

var (
	Local = time.Local
	UTC   = time.UTC
)

func ParseDuration(s string) (Duration, error)    { return time.ParseDuration(s) }
func FixedZone(name string, offset int) *Location { return time.FixedZone(name, offset) }
func LoadLocation(name string) (*Location, error) { return time.LoadLocation(name) }
func Parse(layout, value string) (Time, error)    { return time.Parse(layout, value) }
func Unix(sec, nsec int64) Time                   { return time.Unix(sec, nsec) }
func UnixMicro(usec int64) Time                   { return time.UnixMicro(usec) }
func UnixMilli(msec int64) Time                   { return time.UnixMilli(msec) }
func LoadLocationFromTZData(n string, d []byte) (*Location, error) {
	return time.LoadLocationFromTZData(n, d)
}
func ParseInLocation(layout, value string, loc *Location) (Time, error) {
	return time.ParseInLocation(layout, value, loc)
}
func Date(year int, month Month, day, hour, min, sec, nsec int, loc *Location) Time {
	return time.Date(year, month, day, hour, min, sec, nsec, loc)
}

// Now reads the simulated clock.
func Now() Time {
	if simrt.Active() {
		simrt.Y(-50)
		return time.Unix(0, simrt.Now())
	}
	return time.Unix(0, simrt.Now())
}

func Since(t Time) Duration { return Now().Sub(t) }
func Until(t Time) Duration { return t.Sub(Now()) }

// Sleep suspends the task in simulated time.
func Sleep(d Duration) { simrt.SleepUntil(simrt.Now() + int64(d)) }

// Timer fires once in simulated time.
type Timer struct {
	C   <-chan Time
	c   chan Time
	f   func()
	gen atomic.Int64 // the current arming; atomics, so that the race detector sees no race of ours
	on  atomic.Int64 // the arming that has yet to fire, or 0
}

func (t *Timer) start(d Duration) {
	gen := t.gen.Add(1)
	t.on.Store(gen)
	at := simrt.Now() + int64(d)
	simrt.Go(func() {
		simrt.SleepUntil(at)
		if !t.on.CompareAndSwap(gen, 0) {
			return
		}
		if t.f != nil {
			t.f()
			return
		}
		select {
		case t.c <- Now():
		default:
		}
	})
}

func (t *Timer) Stop() bool {
	return t.on.Swap(0) != 0
}

func (t *Timer) Reset(d Duration) bool {
	was := t.on.Load() != 0
	t.start(d)
	return was
}

func NewTimer(d Duration) *Timer {
	c := make(chan Time, 1)
	t := &Timer{C: c, c: c}
	t.start(d)
	return t
}

func AfterFunc(d Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.start(d)
	return t
}

func After(d Duration) <-chan Time { return NewTimer(d).C }

// Ticker fires repeatedly in simulated time.
type Ticker struct {
	C   <-chan Time
	c   chan Time
	gen atomic.Int64
}

func (t *Ticker) start(d Duration) {
	gen := t.gen.Add(1)
	simrt.Go(func() {
		for t.gen.Load() == gen {
			simrt.SleepUntil(simrt.Now() + int64(d))
			if t.gen.Load() != gen {
				return
			}
			select {
			case t.c <- Now():
			default:
			}
		}
	})
}

func (t *Ticker) Stop()            { t.gen.Add(1) }
func (t *Ticker) Reset(d Duration) { t.start(d) }

func NewTicker(d Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan Time, 1)
	t := &Ticker{C: c, c: c}
	t.start(d)
	return t
}

func Tick(d Duration) <-chan Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}
