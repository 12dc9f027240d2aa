// Package time replaces the standard package in instrumented code; the clock is virtual.
package time

import (
	real "time"

	"github.com/sttp/goapi/vdrv/vsched"
)

type (
	Time       = real.Time
	Duration   = real.Duration
	Month      = real.Month
	Weekday    = real.Weekday
	Location   = real.Location
	ParseError = real.ParseError
)

const (
	Nanosecond  = real.Nanosecond
	Microsecond = real.Microsecond
	Millisecond = real.Millisecond
	Second      = real.Second
	Minute      = real.Minute
	Hour        = real.Hour

	Sunday    = real.Sunday
	Monday    = real.Monday
	Tuesday   = real.Tuesday
	Wednesday = real.Wednesday
	Thursday  = real.Thursday
	Friday    = real.Friday
	Saturday  = real.Saturday

	January   = real.January
	February  = real.February
	March     = real.March
	April     = real.April
	May       = real.May
	June      = real.June
	July      = real.July
	August    = real.August
	September = real.September
	October   = real.October
	November  = real.November
	December  = real.December

	Layout      = real.Layout
	ANSIC       = real.ANSIC
	UnixDate    = real.UnixDate
	RubyDate    = real.RubyDate
	RFC822      = real.RFC822
	RFC822Z     = real.RFC822Z
	RFC850      = real.RFC850
	RFC1123     = real.RFC1123
	RFC1123Z    = real.RFC1123Z
	RFC3339     = real.RFC3339
	RFC3339Nano = real.RFC3339Nano
	Kitchen     = real.Kitchen
	Stamp       = real.Stamp
	StampMilli  = real.StampMilli
	StampMicro  = real.StampMicro
	StampNano   = real.StampNano
	DateTime    = real.DateTime
	DateOnly    = real.DateOnly
	TimeOnly    = real.TimeOnly
)

var (
	UTC   = real.UTC
	Local = real.Local

	Date            = real.Date
	Parse           = real.Parse
	ParseInLocation = real.ParseInLocation
	ParseDuration   = real.ParseDuration
	Unix            = real.Unix
	UnixMilli       = real.UnixMilli
	UnixMicro       = real.UnixMicro
	LoadLocation    = real.LoadLocation
	FixedZone       = real.FixedZone
)

func Now() Time {
	if !vsched.Active() {
		return real.Now()
	}
	vsched.Op()
	return vsched.Base.Add(Duration(vsched.Now()))
}
func Since(t Time) Duration { return Now().Sub(t) }
func Until(t Time) Duration { return t.Sub(Now()) }

// Timer is a virtual timer.
type Timer struct {
	C <-chan Time
	c chan Time
	f func()
	t *vsched.Timer
}

func (t *Timer) start(d Duration) {
	t.t = vsched.AfterFunc(d, func() {
		if t.f != nil {
			f := t.f
			vsched.GoNamed("timer func", f)
			return
		}
		select {
		case t.c <- vsched.Base.Add(Duration(vsched.Now())):
		default:
		}
	})
}

func NewTimer(d Duration) *Timer {
	t := &Timer{c: make(chan Time, 1)}
	t.C = t.c
	if !vsched.Active() {
		return t
	}
	vsched.Op()
	t.start(d)
	return t
}

func AfterFunc(d Duration, f func()) *Timer {
	t := &Timer{f: f}
	if !vsched.Active() {
		return t
	}
	vsched.Op()
	t.start(d)
	return t
}

func (t *Timer) Stop() bool {
	if !vsched.Active() || t.t == nil {
		return false
	}
	vsched.Op()
	return t.t.Stop()
}

func (t *Timer) Reset(d Duration) bool {
	if !vsched.Active() || t.t == nil {
		return false
	}
	vsched.Op()
	p := t.t.Stop()
	t.start(d)
	return p
}

func After(d Duration) <-chan Time { return NewTimer(d).C }

func Sleep(d Duration) {
	if !vsched.Active() {
		return
	}
	vsched.Op()
	fired := false
	vsched.AfterFunc(d, func() { fired = true })
	vsched.Block("sleep", func() bool { return fired })
}

// Ticker is a virtual ticker.
type Ticker struct {
	C       <-chan Time
	c       chan Time
	d       Duration
	t       *vsched.Timer
	stopped bool
}

func NewTicker(d Duration) *Ticker {
	k := &Ticker{c: make(chan Time, 1), d: d}
	k.C = k.c
	if vsched.Active() {
		vsched.Op()
		k.arm()
	}
	return k
}

func (k *Ticker) arm() {
	k.t = vsched.AfterFunc(k.d, func() {
		select {
		case k.c <- vsched.Base.Add(Duration(vsched.Now())):
		default:
		}
		if !k.stopped {
			k.arm()
		}
	})
}
func (k *Ticker) Stop() {
	k.stopped = true
	if k.t != nil {
		k.t.Stop()
	}
}
func (k *Ticker) Reset(d Duration) {
	k.Stop()
	k.stopped = false
	k.d = d
	k.arm()
}
func Tick(d Duration) <-chan Time { return NewTicker(d).C }
