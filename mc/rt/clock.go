package rt

import "time"

// The virtual clock. Instrumented code reads it instead of time.Now.

// Base is the virtual time at which every execution starts.
var Base = time.Date(2031, 3, 5, 7, 11, 13, 0, time.UTC)

var now = Base

// ResetClock sets the virtual clock back to Base.
func ResetClock() { now = Base }

// Advance moves the virtual clock.
func Advance(d time.Duration) { now = now.Add(d) }

// SetNow sets the virtual clock.
func SetNow(t time.Time) { now = t }

//go:norace
func Now() time.Time { return now }

func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

// Sleep only yields: virtual time moves when the harness moves it.
func Sleep(time.Duration) { P() }

// After never fires within an execution.
func After(time.Duration) <-chan time.Time { return make(chan time.Time) }

// NewTicker returns a ticker which never fires: background cleaning is not part of
// any observable behaviour here and must not run outside the controlled schedule.
func NewTicker(time.Duration) *time.Ticker { return time.NewTicker(1 << 62) }
