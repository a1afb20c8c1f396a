// Package a0s is what instrumented code imports: the scheduling point, the go
// statement, and (through its init) the simulated machine under it all.
package a0s

import (
	"a0sim/life"
	"a0sim/sched"
	_ "a0sim/world"
)

// Y precedes every statement of the code under test.
func Y(site int32) { sched.Y(site) }

// Go is a go statement.
func Go(f func()) { sched.Go(f) }

func init() { life.Boot() }
