//go:build !race

package rt

import "unsafe"

const RaceEnabled = false

func raceOff()                   {}
func raceOn()                    {}
func raceAcquire(unsafe.Pointer) {}
func raceRelease(unsafe.Pointer) {}

// RaceErrors is the number of data races reported so far.
func RaceErrors() int { return 0 }
