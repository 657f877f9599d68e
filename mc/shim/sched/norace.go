//go:build !race

package sched

import "unsafe"

const Race = false

func off() {}
func on()  {}

func Off() {}
func On()  {}

func Acquire(p unsafe.Pointer) {}
func Release(p unsafe.Pointer) {}
func Merge(p unsafe.Pointer)   {}

func Races() int { return 0 }
