package props

import (
	"fmt"
	"mime"
	"strings"

	"a0sim/life"
	"a0sim/sched"
)

// runTasks lets the functions run at the same time under the scheduler. A
// panic in one of them is a violation.
func runTasks(expect int, fs ...func()) {
	sched.Reset()
	for i, f := range fs {
		sched.Spawn(fmt.Sprintf("t%d", i), f)
	}
	sched.Run(expect)
	for _, t := range sched.Tasks() {
		if t.Panic != nil {
			s := fmt.Sprint(t.Panic)
			if strings.HasPrefix(s, "kern: ") || strings.HasPrefix(s, "goemu: ") {
				life.Broken("%s", s)
			}
			fail("panic", "%s panics: %s\n%s", t.Name, s, t.Stack)
		}
	}
	sched.Reset()
}

// warm fills the caches of the standard library that a task must not be
// switched away from while it fills them.
func warm() {
	mime.TypeByExtension(".txt")
}

// expectPoints draws how many scheduling points the run may have, which places
// the forced switches.
func expectPoints() int { return []int{60, 200, 600, 3000}[sched.W(4)] }
