//go:build race

// Package hb tells the race detector, when the simulator is built with it,
// which operations of the program are ordered before which: locks and the like
// are, the simulator's own passing on of the processor is not.
package hb

import (
	"runtime"
	"unsafe"
)

const On = true

// Acquire orders what was released through p before what follows.
func Acquire(p unsafe.Pointer) { runtime.RaceAcquire(p) }

// Release orders what came before, and nothing else, before later acquisitions of p.
func Release(p unsafe.Pointer) { runtime.RaceRelease(p) }

// ReleaseMerge is Release that keeps earlier releases.
func ReleaseMerge(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }

// Off makes the calling goroutine's channel operations order nothing.
func Off() { runtime.RaceDisable() }

// Back ends Off.
func Back() { runtime.RaceEnable() }

// Races is the number of races reported so far.
func Races() int { return runtime.RaceErrors() }

// Quiet makes the detector overlook memory accesses and says whether it did
// before; only one task runs at a time, so one switch serves them all.
func Quiet() uint8 {
	was := runtime.SimQuiet
	runtime.SimQuiet = 1
	return was
}

// Restore ends Quiet.
func Restore(was uint8) { runtime.SimQuiet = was }
