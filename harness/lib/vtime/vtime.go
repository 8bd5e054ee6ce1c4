// Package vtime replaces the standard time package in the code under test by a
// virtual clock that the harness drives: time passes and timers and tickers
// fire only when the harness says so.
package vtime

import (
	"sync"
	"time"

	"github.com/livekit/media-sdk/zzverif/sym"
)

type (
	Time       = time.Time
	Duration   = time.Duration
	Month      = time.Month
	Weekday    = time.Weekday
	Location   = time.Location
	ParseError = time.ParseError
)

const (
	Nanosecond  = time.Nanosecond
	Microsecond = time.Microsecond
	Millisecond = time.Millisecond
	Second      = time.Second
	Minute      = time.Minute
	Hour        = time.Hour

	January   = time.January
	February  = time.February
	March     = time.March
	April     = time.April
	May       = time.May
	June      = time.June
	July      = time.July
	August    = time.August
	September = time.September
	October   = time.October
	November  = time.November
	December  = time.December

	Layout      = time.Layout
	ANSIC       = time.ANSIC
	RFC1123     = time.RFC1123
	RFC3339     = time.RFC3339
	RFC3339Nano = time.RFC3339Nano
	Kitchen     = time.Kitchen
	DateTime    = time.DateTime
	DateOnly    = time.DateOnly
	TimeOnly    = time.TimeOnly
)

var (
	UTC   = time.UTC
	Local = time.Local
)

func Date(year int, month Month, day, hour, min, sec, nsec int, loc *Location) Time {
	return time.Date(year, month, day, hour, min, sec, nsec, loc)
}
func Unix(sec, nsec int64) Time                   { return time.Unix(sec, nsec) }
func UnixMilli(ms int64) Time                     { return time.UnixMilli(ms) }
func UnixMicro(us int64) Time                     { return time.UnixMicro(us) }
func ParseDuration(s string) (Duration, error)    { return time.ParseDuration(s) }
func Parse(l, s string) (Time, error)             { return time.Parse(l, s) }
func FixedZone(n string, o int) *Location         { return time.FixedZone(n, o) }
func LoadLocation(name string) (*Location, error) { return time.LoadLocation(name) }

var (
	mu   sync.Mutex
	base = time.Now()
	cur  Duration

	// Timers and Tickers created so far by the code under test.
	Timers  []*Timer
	Tickers []*Ticker
)

func lock() {
	if !sym.Engine() {
		mu.Lock()
	}
}

func unlock() {
	if !sym.Engine() {
		mu.Unlock()
	}
}

// ---- harness control

// Set moves the clock to d after the start.
func Set(d Duration) {
	lock()
	cur = d
	unlock()
}

func Elapsed() Duration {
	lock()
	defer unlock()
	return cur
}

// At is the time d after the start.
func At(d Duration) Time { return base.Add(d) }

// Rel is the time of t after the start.
func Rel(t Time) Duration { return t.Sub(base) }

// NTickers and NTimers count the ones created so far.
func NTickers() int {
	lock()
	defer unlock()
	return len(Tickers)
}

func NTimers() int {
	lock()
	defer unlock()
	return len(Timers)
}

// ---- the time API

func Now() Time {
	lock()
	defer unlock()
	return base.Add(cur)
}

func Since(t Time) Duration { return Now().Sub(t) }
func Until(t Time) Duration { return t.Sub(Now()) }

type Timer struct {
	C      <-chan Time
	c      chan Time
	f      func()
	active bool
	when   Duration
	Resets int
}

func newTimer(d Duration, f func()) *Timer {
	c := make(chan Time, 1)
	t := &Timer{C: c, c: c, f: f, active: true}
	lock()
	t.when = cur + d
	Timers = append(Timers, t)
	unlock()
	return t
}

func NewTimer(d Duration) *Timer            { return newTimer(d, nil) }
func AfterFunc(d Duration, f func()) *Timer { return newTimer(d, f) }
func After(d Duration) <-chan Time          { return newTimer(d, nil).C }
func Sleep(d Duration)                      { <-newTimer(d, nil).C }

func drain(c chan Time) {
	select {
	case <-c:
	default:
	}
}

func (t *Timer) Stop() bool {
	lock()
	a := t.active
	t.active = false
	unlock()
	drain(t.c)
	return a
}

func (t *Timer) Reset(d Duration) bool {
	drain(t.c)
	lock()
	defer unlock()
	a := t.active
	t.active = true
	t.when = cur + d
	t.Resets++
	return a
}

// Active and When describe a timer to the harness.
func (t *Timer) Active() bool {
	lock()
	defer unlock()
	return t.active
}

func (t *Timer) When() Duration {
	lock()
	defer unlock()
	return t.when
}

// Fire expires the timer.
func (t *Timer) Fire() {
	lock()
	t.active = false
	now := base.Add(cur)
	unlock()
	if t.f != nil {
		go t.f()
		return
	}
	select {
	case t.c <- now:
	default:
	}
}

type Ticker struct {
	C       <-chan Time
	c       chan Time
	period  Duration
	stopped bool
}

func NewTicker(d Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan Time, 1)
	t := &Ticker{C: c, c: c, period: d}
	lock()
	Tickers = append(Tickers, t)
	unlock()
	return t
}

func Tick(d Duration) <-chan Time { return NewTicker(d).C }

func (t *Ticker) Stop() {
	lock()
	t.stopped = true
	unlock()
	drain(t.c)
}

func (t *Ticker) Reset(d Duration) {
	drain(t.c)
	lock()
	t.period, t.stopped = d, false
	unlock()
}

func (t *Ticker) Period() Duration {
	lock()
	defer unlock()
	return t.period
}

func (t *Ticker) Stopped() bool {
	lock()
	defer unlock()
	return t.stopped
}

// Tick makes the ticker fire once (dropped if the last tick was not consumed).
func (t *Ticker) Tick() {
	if t.Stopped() {
		return
	}
	select {
	case t.c <- Now():
	default:
	}
}
