package props

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	"a0sim/kern"
	"a0sim/life"
	"a0sim/sched"
	"a0sim/world"
)

// C19: list names what a pack embeds.
func init() {
	All["C19"] = func() {
		life.Res.Sample = sampleApp()
		exp := wants(world.A.Expect())
		args := []string{"list"}
		for _, f := range world.A.Flags {
			args = append(args, "-include", f)
		}
		asJSON := sched.W(2) == 1
		if asJSON {
			args = append(args, "-json")
		}
		kern.K.Out = nil
		sched.T.FaultsOn = true
		err, panicked := tryCli(args...)
		sched.T.FaultsOn = false
		if panicked != "" {
			fail("panic", "listing panics: %s", panicked)
		}
		if err != nil {
			if sched.T.NFired == 0 && world.A.Broken == "" {
				fail("error", "listing fails although nothing is wrong: %v", err)
			}
			stat("failed", 1)
			return
		}
		if world.A.Broken != "" {
			fail("silent", "listing succeeds although %s", world.A.Broken)
		}
		var got []string
		var imp string
		if asJSON {
			var d struct {
				ImportPath string
				Files      []struct {
					Abs  string
					Path struct{ Pkg, Name string }
				}
			}
			if err := json.Unmarshal(kern.K.Out, &d); err != nil {
				fail("json", "listing is not JSON: %v", err)
			}
			imp = d.ImportPath
			for _, f := range d.Files {
				got = append(got, f.Path.Pkg+":"+f.Path.Name)
				n := kern.Look(f.Abs)
				if n == nil {
					fail("abs", "listing gives %s for %s, which does not exist", f.Abs, f.Path.Name)
				}
			}
		} else {
			ls := strings.Split(strings.TrimSuffix(string(kern.K.Out), "\n"), "\n")
			imp = ls[0]
			for _, l := range ls[1:] {
				if !strings.HasPrefix(l, " > ") {
					fail("text", "listing has the line %q", l)
				}
				got = append(got, strings.TrimPrefix(l, " > "))
			}
		}
		if imp != world.A.Mod {
			fail("import", "listing is headed %q, not %q", imp, world.A.Mod)
		}
		if !sort.StringsAreSorted(got) {
			fail("order", "listing is not sorted: %v", got)
		}
		if old := world.A.Dir + "/pkged.go"; sched.T.NFired > 0 && kern.Look(old) != nil {
			// an earlier result that could not be removed is a file like others
			var rest []string
			for _, g := range got {
				if g != world.A.Mod+":/pkged.go" {
					rest = append(rest, g)
				}
			}
			got = rest
		}
		seen := map[string]bool{}
		for _, g := range got {
			if seen[g] {
				fail("twice", "%s is listed twice", g)
			}
			seen[g] = true
			if _, ok := exp[g]; !ok {
				fail("extra", "%s is listed, but not declared", g)
			}
		}
		for _, k := range sortedKeys(exp) {
			if !seen[k] {
				fail("missing", "%s is declared, but not listed", k)
			}
		}
		// and the pack of the same tree agrees
		if sched.W(2) == 1 {
			if err := cli(packArgs()...); err != nil {
				fail("pack", "packing fails after listing succeeded: %v", err)
			}
			p, err := embedded(outPath(), "")
			if err != nil {
				fail("pack", "%v", err)
			}
			b, err := p.MarshalJSON()
			if err != nil {
				fail("pack", "%v", err)
			}
			ks, err := jsonFiles(b)
			if err != nil {
				fail("pack", "%v", err)
			}
			if fmt.Sprint(ks) != fmt.Sprint(got) {
				fail("differ", "list and pack differ: %v and %v", got, ks)
			}
		}
	}
}
