package props

import (
	"bytes"
	"strings"

	"a0sim/kern"
	"a0sim/life"
	"a0sim/sched"
	"a0sim/world"

	"github.com/markbates/pkger"
)

func faulted(prefix string) bool {
	for _, e := range sched.T.Out.F {
		if strings.HasPrefix(e.Note, prefix) {
			return true
		}
	}
	return false
}

// C02: a pack under faults either fails cleanly or is complete and right.
func init() {
	All["C02"] = func() {
		life.Res.Sample = sampleApp()
		out := outPath()
		wantPkg := pkgNameOf(pathDir(out))
		exp := wants(world.A.Expect())
		touchOut(exp)
		var old []byte
		if n := kern.Look(out); n != nil {
			old = append([]byte{}, n.Data...)
		}
		// other programs are at work in some runs
		var oth *others
		if sched.Env("others at work", 4) == 3 {
			oth = disturb(exp)
			kern.K.Others = oth.step
		}
		sched.T.FaultsOn = true
		// a tool that cannot find its module cannot find an earlier result
		_, lost := pkger.Current()
		err, panicked := tryCli(packArgs()...)
		sched.T.FaultsOn = false
		kern.K.Others = nil
		if panicked != "" {
			fail("panic", "packing panics: %s", panicked)
		}
		n := kern.Look(out)
		if err == nil {
			stat("succeeded", 1)
			if world.A.Broken != "" {
				fail("silent", "packing succeeds although %s", world.A.Broken)
			}
			p, err := embedded(out, wantPkg)
			if err != nil {
				fail("output", "packing reports success but the generated file is unusable: %v", err)
			}
			if oth != nil {
				oth.resolve(p)
			}
			if code, msg := holds(p, exp, false); code != "" {
				fail(code, "packing reports success but %s", msg)
			}
		} else {
			stat("failed", 1)
			if sched.T.NFired == 0 && kern.K.Free < 0 && world.A.Broken == "" && (oth == nil || !oth.gone) {
				fail("error", "packing fails although nothing is wrong: %v", err)
			}
			if n != nil && !bytes.Equal(n.Data, old) {
				fail("partial", "packing fails (%v) and leaves %s behind with %d bytes", err, out, len(n.Data))
			}
			if n != nil && !faulted("unlink") && lost == nil {
				fail("stale", "packing fails (%v) and leaves the earlier %s behind although it could be removed", err, out)
			}
		}
		known := map[string]bool{}
		for _, k := range world.A.Before {
			known[k] = true
		}
		if oth != nil {
			for _, p := range oth.abs {
				known[p] = true
			}
		}
		kern.Each("/", func(p string, n *kern.Node) {
			if !known[p] && p != out && !faulted("unlink") {
				fail("leftover", "packing (%v) leaves %s behind", err, p)
			}
		})
		if len(kern.K.FDs) > 0 && err == nil {
			stat("open_descriptors", int64(len(kern.K.FDs)))
		}
	}
}
