package props

import (
	"a0sim/life"
	"a0sim/world"
)

// C01: the generated file holds exactly what is declared.
func init() {
	All["C01"] = func() {
		life.Res.Sample = sampleApp()
		wantPkg := pkgNameOf(pathDir(outPath()))
		exp := wants(world.A.Expect())
		packOrFail()
		touchOut(exp)
		p, err := embedded(outPath(), wantPkg)
		if err != nil {
			fail("output", "the generated file is unusable: %v", err)
		}
		if code, msg := holds(p, exp, true); code != "" {
			fail(code, "%s", msg)
		}
		stat("files_compared", int64(len(exp)))
	}
}
