//go:build !race

package hb

import "unsafe"

const On = false

func Acquire(p unsafe.Pointer)      {}
func Release(p unsafe.Pointer)      {}
func ReleaseMerge(p unsafe.Pointer) {}
func Off()                          {}
func Back()                         {}
func Races() int                    { return 0 }
func Quiet() uint8                  { return 0 }
func Restore(was uint8)             {}
