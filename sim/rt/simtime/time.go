// Package time replaces the standard time package inside instrumented code.
package time

import (
	"time"

	"verifsim/rt"
)

type (
	Duration   = time.Duration
	Time       = time.Time
	Month      = time.Month
	Weekday    = time.Weekday
	Location   = time.Location
	ParseError = time.ParseError
)

const (
	Nanosecond  = time.Nanosecond
	Microsecond = time.Microsecond
	Millisecond = time.Millisecond
	Second      = time.Second
	Minute      = time.Minute
	Hour        = time.Hour

	Layout      = time.Layout
	ANSIC       = time.ANSIC
	UnixDate    = time.UnixDate
	RubyDate    = time.RubyDate
	RFC822      = time.RFC822
	RFC822Z     = time.RFC822Z
	RFC850      = time.RFC850
	RFC1123     = time.RFC1123
	RFC1123Z    = time.RFC1123Z
	RFC3339     = time.RFC3339
	RFC3339Nano = time.RFC3339Nano
	Kitchen     = time.Kitchen
	Stamp       = time.Stamp
	StampMilli  = time.StampMilli
	StampMicro  = time.StampMicro
	StampNano   = time.StampNano
	DateTime    = time.DateTime
	DateOnly    = time.DateOnly
	TimeOnly    = time.TimeOnly
	January     = time.January
	February    = time.February
	March       = time.March
	April       = time.April
	May         = time.May
	June        = time.June
	July        = time.July
	August      = time.August
	September   = time.September
	October     = time.October
	November    = time.November
	December    = time.December
	Sunday      = time.Sunday
	Monday      = time.Monday
	Tuesday     = time.Tuesday
	Wednesday   = time.Wednesday
	Thursday    = time.Thursday
	Friday      = time.Friday
	Saturday    = time.Saturday
)

var (
	UTC                    = time.UTC
	Local                  = time.UTC
	Unix                   = time.Unix
	UnixMilli              = time.UnixMilli
	UnixMicro              = time.UnixMicro
	ParseInLocation        = time.ParseInLocation
	FixedZone              = time.FixedZone
	LoadLocation           = time.LoadLocation
	LoadLocationFromTZData = time.LoadLocationFromTZData
	Date                   = time.Date
	Parse                  = time.Parse
	ParseDuration          = time.ParseDuration
)

var epoch = time.Date(2020, 1, 1, 0, 0, 0, 0, time.UTC)

func Now() Time                    { return epoch.Add(Duration(rt.Nanos())) }
func Since(t Time) Duration        { return Now().Sub(t) }
func Until(t Time) Duration        { return t.Sub(Now()) }
func Sleep(d Duration)             { rt.Sleep(int64(d)) }
func After(d Duration) <-chan Time { return NewTimer(d).C }
func Tick(d Duration) <-chan Time  { return NewTicker(d).C }

type Timer struct {
	C <-chan Time
	c chan Time
	f func()
	t *rt.Timer
}

func (t *Timer) start(d Duration) {
	t.t = rt.AddTimer(int64(d), func() {
		if t.f != nil {
			rt.GoTimer(t.f)
			return
		}
		rt.TrySend(t.c, Now())
	})
}

func NewTimer(d Duration) *Timer {
	c := rt.MakeChan[Time](1)
	t := &Timer{C: c, c: c}
	t.start(d)
	return t
}

func AfterFunc(d Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.start(d)
	return t
}

func (t *Timer) Stop() bool { return t.t.Stop() }

func (t *Timer) Reset(d Duration) bool {
	was := t.t.Stop()
	t.start(d)
	return was
}

type Ticker struct {
	C <-chan Time
	c chan Time
	d Duration
	t *rt.Timer
}

func (t *Ticker) start() {
	t.t = rt.AddTimer(int64(t.d), func() {
		rt.TrySend(t.c, Now())
		t.start()
	})
}

func NewTicker(d Duration) *Ticker {
	c := rt.MakeChan[Time](1)
	t := &Ticker{C: c, c: c, d: d}
	t.start()
	return t
}

func (t *Ticker) Stop()            { t.t.Stop() }
func (t *Ticker) Reset(d Duration) { t.t.Stop(); t.d = d; t.start() }
