//go:build race

package sched

import (
	"runtime"
	"unsafe"
)

// In a program built with the race detector, what the scheduler does to hand
// over control is hidden from the detector; only what the code under test does
// itself to order its accesses counts.

const Race = true

func off() { runtime.RaceDisable() }
func on()  { runtime.RaceEnable() }

// Off and On enclose synchronization that is not the code's own.
func Off() { off() }
func On()  { on() }

func Acquire(p unsafe.Pointer) { runtime.RaceAcquire(p) }
func Release(p unsafe.Pointer) { runtime.RaceRelease(p) }
func Merge(p unsafe.Pointer)   { runtime.RaceReleaseMerge(p) }

func Races() int { return runtime.RaceErrors() }
