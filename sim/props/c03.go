package props

import (
	"fmt"
	"path"
	"sort"
	"strings"

	"a0sim/kern"
	"a0sim/life"
	"a0sim/sched"
	"a0sim/world"
)

// snapshot describes every object on the disk.
func snapshot() map[string]string {
	m := map[string]string{}
	kern.Each("/", func(p string, n *kern.Node) {
		t := n.MTime
		if n.IsDir() {
			t = 0
		}
		m[p] = fmt.Sprintf("%o %d %s %s", n.Mode, t, sum(n.Data), n.Link)
	})
	return m
}

// command draws a command line.
func command() (name string, args []string) {
	a := world.A
	inc := func() []string {
		var out []string
		for _, f := range a.Flags {
			out = append(out, "-include", f)
		}
		return out
	}
	some := func() []string {
		all := world.List(a.Dir, "/")
		var out []string
		for i := 0; i <= sched.W(3); i++ {
			switch sched.W(6) {
			case 0:
				out = append(out, a.Mod+":"+all[sched.W(len(all))])
			case 1:
				out = append(out, "/no/such/thing")
			case 2:
				out = append(out, a.Mod)
			case 3:
				out = append(out, "/")
			default:
				if s := all[sched.W(len(all))]; s != "" {
					out = append(out, s)
				}
			}
		}
		return out
	}
	switch sched.W(9) {
	case 8:
		l := []string{"serve"}
		if sched.W(3) > 0 {
			l = append(l, some()...)
		}
		return "serve", l
	case 0, 1, 2:
		return "pack", packArgs()
	case 3:
		l := append([]string{"list"}, inc()...)
		if sched.W(2) == 1 {
			l = append(l, "-json")
		}
		return "list", l
	case 4:
		l := []string{"parse"}
		if sched.W(2) == 1 {
			l = append(l, a.Mod)
		}
		return "parse", l
	case 5:
		return "stat", append([]string{"stat"}, some()...)
	case 6:
		return "info", []string{"info", a.Mod}
	}
	return "path", append([]string{"path"}, some()...)
}

// C03: the command changes nothing but its output.
func init() {
	All["C03"] = func() {
		if sched.W(20) == 19 {
			// an output directory that is not there
			world.A.Out = []string{"no/such", "public/nowhere", "main.go", "../elsewhere"}[sched.W(4)]
		}
		name, args := command()
		life.Res.Sample = fmt.Sprintf("%s; pkger %s", sampleApp(), strings.Join(args, " "))
		out := outPath()
		if name == "list" {
			out = path.Join(world.A.Dir, "pkged.go")
		}
		before := snapshot()
		cwd := kern.K.Cwd
		kern.K.Mutations = nil
		sched.T.FaultsOn = true
		err, _ := tryCli(args...)
		sched.T.FaultsOn = false
		stat(name, 1)
		writes := name == "pack" || name == "list"
		for _, m := range kern.K.Mutations {
			if writes && m == out {
				continue
			}
			if _, old := before[m]; name == "pack" && !old && path.Dir(m) == path.Dir(out) {
				continue
			}
			// an unusable go command leaves the tool with no module directory:
			// its output is then the working directory's
			fail("touched", "pkger %s changes %s", strings.Join(args, " "), m)
		}
		after := snapshot()
		var ks []string
		for k := range before {
			ks = append(ks, k)
		}
		for k := range after {
			if _, ok := before[k]; !ok {
				ks = append(ks, k)
			}
		}
		sort.Strings(ks)
		for _, k := range ks {
			if before[k] != after[k] && !(writes && k == out) && !(name == "pack" && before[k] == "" && path.Dir(k) == path.Dir(out) && faulted("unlink")) {
				fail("changed", "pkger %s (%v) changes %s: %q before, %q after", strings.Join(args, " "), err, k, before[k], after[k])
			}
		}
		if kern.K.Cwd != cwd {
			fail("cwd", "pkger %s (%v) leaves the working directory at %s, it was %s", strings.Join(args, " "), err, kern.K.Cwd, cwd)
		}
	}
}
