// worker lives one simulated life of the program: the request comes on stdin,
// the result goes to stdout.
package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"strings"

	"a0sim/life"
	"a0sim/props"
)

func main() {
	if !life.On {
		fmt.Fprintln(os.Stderr, "worker: no request (A0SIM unset)")
		os.Exit(3)
	}
	defer func() {
		if r := recover(); r != nil {
			s := fmt.Sprint(r)
			if strings.HasPrefix(s, "kern: ") || strings.HasPrefix(s, "goemu: ") {
				life.Broken("%s", s)
			}
			life.Fail("panic", "panic: %s\n%s", s, debug.Stack())
		}
		life.Finish()
	}()
	p := props.All[life.Req.Prop]
	if p == nil {
		life.Broken("no property %q", life.Req.Prop)
	}
	p()
}
