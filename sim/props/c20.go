package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"path"
	"sort"
	"strings"
	"time"

	"a0sim/kern"
	"a0sim/life"
	"a0sim/sched"
	"a0sim/world"
)

// statLine is what stat prints of an object.
type statLine struct {
	Name    string      `json:"name"`
	Size    int64       `json:"size"`
	Mode    os.FileMode `json:"mode"`
	ModTime string      `json:"mod_time"`
	IsDir   bool        `json:"is_dir"`
}

func (l statLine) is(n *kern.Node, name string) string {
	t, err := time.Parse(time.RFC3339Nano, l.ModTime)
	switch {
	case l.Name != name:
		return fmt.Sprintf("name %q, not %q", l.Name, name)
	case l.IsDir != n.IsDir():
		return fmt.Sprintf("directory %v", l.IsDir)
	case l.Mode != goMode(n):
		return fmt.Sprintf("mode %v, not %v", l.Mode, goMode(n))
	case !n.IsDir() && l.Size != int64(len(n.Data)):
		return fmt.Sprintf("size %d, not %d", l.Size, len(n.Data))
	case err != nil || !t.Equal(time.Unix(0, n.MTime)):
		return fmt.Sprintf("modification time %s, not %v", l.ModTime, time.Unix(0, n.MTime).UTC())
	}
	return ""
}

// values splits a stream of JSON values; rest is what follows the last.
func values(b []byte) (out []json.RawMessage, err error) {
	d := json.NewDecoder(bytes.NewReader(b))
	for {
		var m json.RawMessage
		if err := d.Decode(&m); err == io.EOF {
			return out, nil
		} else if err != nil {
			return out, err
		}
		out = append(out, m)
	}
}

// mods gives the directories of all modules.
func mods() map[string]string {
	m := world.A.Deps()
	m[world.A.Mod] = world.A.Dir
	return m
}

// C20: stat, info, path and parse tell the truth or fail.
func init() {
	All["C20"] = func() {
		a := world.A
		var ms []string
		for m := range mods() {
			ms = append(ms, m)
		}
		sort.Strings(ms)
		name := []string{"stat", "stat", "info", "path", "parse", "parse", "unknown"}[sched.W(7)]
		args := []string{name}
		var judge func(out []byte, whole bool)
		wrong := "" // why the command has to fail
		switch name {
		case "stat":
			type want struct {
				arg, mod, name string
				n              *kern.Node
			}
			var ws []want
			if n := kern.Look(a.Dir); sched.W(10) == 9 {
				// the root of the current module
				ws = append(ws, want{".", a.Mod, "/", n})
				if sched.W(2) == 1 {
					args = append(args, ".")
				}
			}
			for i := 0; i <= sched.W(3) && len(ws) == 0; i++ {
				m := ms[sched.W(len(ms))]
				if sched.W(2) == 1 {
					m = a.Mod
				}
				all := world.List(mods()[m], "/")
				p := all[sched.W(len(all))]
				if sched.W(4) == 3 && p != "" {
					// a directory, most often the one with most in it
					p = path.Dir(p)
				}
				if p == "" || strings.HasSuffix(p, "/pkged.go") {
					p = "/"
				}
				if sched.W(12) == 11 {
					p += "/no-such-thing"
				}
				arg := m + ":" + p
				if m == a.Mod && sched.W(2) == 1 {
					arg = p
				}
				if p == "/" && sched.W(2) == 1 {
					arg = m
				}
				args = append(args, arg)
				n := kern.Look(path.Join(mods()[m], p))
				if n == nil && wrong == "" {
					wrong = arg + " does not exist"
				}
				if wrong == "" {
					ws = append(ws, want{arg, m, p, n})
				}
			}
			judge = func(out []byte, whole bool) {
				vs, err := values(out)
				if err != nil {
					fail("output", "pkger %s prints what is not JSON: %v\n%s", strings.Join(args, " "), err, out)
				}
				take := func() (l statLine, ok bool) {
					if len(vs) == 0 {
						return l, false
					}
					var d struct{ Details *statLine }
					d.Details = &l
					if err := json.Unmarshal(vs[0], &d); err != nil {
						fail("output", "pkger %s prints %s: %v", strings.Join(args, " "), vs[0], err)
					}
					vs = vs[1:]
					return l, true
				}
				for _, w := range ws {
					if !w.n.IsDir() {
						b := path.Base(w.name)
						l, ok := take()
						if !ok && whole {
							fail("silent", "pkger %s prints nothing for %s", strings.Join(args, " "), w.arg)
						}
						if !ok {
							return
						}
						if s := l.is(w.n, b); s != "" {
							fail("untrue", "pkger %s says of %s: %s", strings.Join(args, " "), w.arg, s)
						}
						continue
					}
					left := map[string]*kern.Node{}
					for _, e := range w.n.Kids {
						left[e.Name] = e.N
					}
					for len(left) > 0 {
						l, ok := take()
						if !ok && whole {
							fail("silent", "pkger %s prints nothing for %d entries of %s", strings.Join(args, " "), len(left), w.arg)
						}
						if !ok {
							return
						}
						n, ok := left[l.Name]
						if !ok {
							fail("untrue", "pkger %s tells of %q, which is not in %s or was printed before", strings.Join(args, " "), l.Name, w.arg)
						}
						if s := l.is(n, l.Name); s != "" {
							fail("untrue", "pkger %s says of %s in %s: %s", strings.Join(args, " "), l.Name, w.arg, s)
						}
						delete(left, l.Name)
					}
				}
				if len(vs) > 0 {
					fail("untrue", "pkger %s goes on with %s", strings.Join(args, " "), vs[0])
				}
			}
		case "info":
			type want struct{ imp, dir, mod, modDir string }
			var ws []want
			if sched.W(10) == 9 {
				m := a.Mod
				ws = append(ws, want{m, a.Dir, m, a.Dir})
				if sched.W(2) == 1 {
					args = append(args, ".")
				}
			}
			for i := 0; i <= sched.W(3) && len(ws) == 0; i++ {
				m := ms[sched.W(len(ms))]
				w := want{m, mods()[m], m, mods()[m]}
				if s := a.Pkgs[sched.W(len(a.Pkgs))]; m == a.Mod && s != "" {
					w.imp, w.dir = m+s, w.dir+s
				}
				if sched.W(12) == 11 {
					w.imp = []string{"example.com/unknown", a.Mod + "/no-such-package", "-mod=mod"}[sched.W(3)]
					if wrong == "" {
						wrong = w.imp + " is no package"
					}
				}
				args = append(args, w.imp)
				if wrong == "" {
					ws = append(ws, w)
				}
			}
			judge = func(out []byte, whole bool) {
				vs, err := values(out)
				if err != nil {
					fail("output", "pkger %s prints what is not JSON: %v\n%s", strings.Join(args, " "), err, out)
				}
				if len(vs) > len(ws) || len(vs) < len(ws) && whole {
					fail("silent", "pkger %s prints %d values for %d packages", strings.Join(args, " "), len(vs), len(ws))
				}
				for i, v := range vs {
					var in struct {
						Dir, ImportPath string
						Module          struct{ Path, Dir string }
					}
					w := ws[i]
					if err := json.Unmarshal(v, &in); err != nil || in.ImportPath != w.imp || in.Dir != w.dir || in.Module.Path != w.mod || in.Module.Dir != w.modDir {
						fail("untrue", "pkger %s says of %s: %s (%v), it is in %s of module %s in %s", strings.Join(args, " "), w.imp, v, err, w.dir, w.mod, w.modDir)
					}
				}
			}
		case "path":
			want := map[string]string{}
			for i := 0; i <= sched.W(3); i++ {
				m := ms[sched.W(len(ms))]
				all := world.List(mods()[m], "/")
				p := all[sched.W(len(all))]
				if p == "" || sched.W(8) == 7 {
					p = "/"
				}
				arg := m + ":" + p
				switch k := sched.W(6); {
				case m == a.Mod && k == 1:
					arg = p
				case m == a.Mod && k == 2:
					arg = ":" + p
				case p == "/" && k == 3:
					arg = m
				case k == 4:
					arg = m + ":/zz/.." + p
				case k == 5:
					arg = m + ":" + p + "/"
				}
				args = append(args, arg)
				want[arg] = m + ":" + p
			}
			judge = func(out []byte, whole bool) {
				var got map[string]struct{ Pkg, Name string }
				if !whole {
					if len(out) > 0 {
						fail("partial", "pkger %s fails and prints %s", strings.Join(args, " "), out)
					}
					return
				}
				if err := json.Unmarshal(out, &got); err != nil {
					fail("output", "pkger %s prints what is not JSON: %v\n%s", strings.Join(args, " "), err, out)
				}
				for _, g := range args[1:] {
					if p := got[g]; p.Pkg+":"+p.Name != want[g] {
						fail("untrue", "pkger %s says %s is %s:%s, it is %s", strings.Join(args, " "), g, p.Pkg, p.Name, want[g])
					}
				}
				if len(got) != len(want) {
					fail("untrue", "pkger %s tells of %d paths: %s", strings.Join(args, " "), len(got), out)
				}
			}
		case "parse":
			// the sources of the packages asked for, with what they declare
			type ask struct {
				mod  string
				want []string
			}
			asks := map[string]ask{}
			in := func(dir string) (out []string) {
				for _, c := range a.Calls {
					if dir == "" || c.Dir == dir || strings.HasPrefix(c.Dir, dir+"/") {
						out = append(out, c.Fn+" "+c.Arg)
					}
				}
				sort.Strings(out)
				return out
			}
			switch sched.W(3) {
			case 0:
				asks["."] = ask{a.Mod, in("")}
				kern.K.Cwd = a.Dir
			case 1:
				args = append(args, ".")
				kern.K.Cwd = a.Dir
				asks["."] = ask{a.Mod, in("")}
			default:
				args = append(args, a.Mod)
				asks[a.Mod] = ask{a.Mod, in("")}
			}
			if len(args) > 1 && sched.W(3) > 0 {
				// and other packages
				for i := 1 + sched.W(2); i > 0; i-- {
					var arg string
					if s := a.Pkgs[sched.W(len(a.Pkgs))]; a.Dep == "" || sched.W(2) == 1 {
						arg = a.Mod + s
						asks[arg] = ask{a.Mod, in(s)}
					} else {
						arg = a.Dep
						if _, ok := asks[arg]; ok {
							continue
						}
						asks[arg] = ask{a.Dep, depCalls()}
					}
					args = append(args, arg)
					if sched.W(3) == 2 {
						n := len(args) - 1
						args[n], args[1] = args[1], args[n]
					}
				}
			}
			if a.Lost {
				wrong = a.Broken
			}
			judge = func(out []byte, whole bool) {
				if !whole {
					if len(out) > 0 {
						fail("partial", "pkger %s fails and prints %s", strings.Join(args, " "), out)
					}
					return
				}
				var got map[string][]struct {
					Type, Value string
					File        struct {
						Abs  string
						Path struct{ Pkg, Name string }
					}
					Pos struct {
						Filename string
						Line     int
						Offset   int
					}
				}
				if err := json.Unmarshal(out, &got); err != nil || len(got) != len(asks) {
					fail("output", "pkger %s prints %v\n%s", strings.Join(args, " "), err, out)
				}
				var keys []string
				for k := range asks {
					keys = append(keys, k)
				}
				sort.Strings(keys)
				for _, key := range keys {
					var have []string
					for _, d := range got[key] {
						fn := strings.TrimPrefix(d.Type, "pkger.")
						have = append(have, fn+" "+d.Value)
						src := kern.Look(d.Pos.Filename)
						if src == nil || src.IsDir() {
							fail("untrue", "pkger %s says %s(%q) is in %s", strings.Join(args, " "), d.Type, d.Value, d.Pos.Filename)
						}
						ls := strings.Split(string(src.Data), "\n")
						if d.Pos.Line < 1 || d.Pos.Line > len(ls) || !strings.Contains(ls[d.Pos.Line-1], "pkger."+fn+"(") {
							fail("untrue", "pkger %s says %s(%q) is on line %d of %s", strings.Join(args, " "), d.Type, d.Value, d.Pos.Line, d.Pos.Filename)
						}
						if o := d.Pos.Offset; o < 0 || o > len(src.Data) || !bytes.HasSuffix(src.Data[:o], []byte("pkger."+fn+"(")) {
							fail("untrue", "pkger %s says %s(%q) is at offset %d of %s", strings.Join(args, " "), d.Type, d.Value, d.Pos.Offset, d.Pos.Filename)
						}
						m, nm := asks[key].mod, d.Value
						for _, x := range ms {
							if strings.HasPrefix(nm, x+":") {
								m, nm = x, nm[len(x)+1:]
							}
						}
						nm = path.Join("/", strings.TrimPrefix(nm, ":"))
						if d.File.Path.Pkg != m || d.File.Path.Name != nm || d.File.Abs != path.Join(mods()[m], nm) {
							fail("untrue", "pkger %s says %s(%q) is about %s:%s, %s", strings.Join(args, " "), d.Type, d.Value, d.File.Path.Pkg, d.File.Path.Name, d.File.Abs)
						}
					}
					sort.Strings(have)
					if fmt.Sprint(have) != fmt.Sprint(asks[key].want) {
						fail("untrue", "pkger %s tells of %q for %s, the sources say %q", strings.Join(args, " "), have, key, asks[key].want)
					}
				}
			}
		case "unknown":
			args = []string{[]string{"", "pack", "Stat", "lists", "serv", "/public"}[sched.W(6)]}
			if sched.W(2) == 1 {
				args = append(args, "stat")
			}
			wrong = "there is no such command"
			judge = func(out []byte, whole bool) {
				if len(out) > 0 {
					fail("output", "pkger %q prints %s", args, out)
				}
			}
		}
		life.Res.Sample = fmt.Sprintf("%s; pkger %s", sampleApp(), strings.Join(args, " "))
		stat(name, 1)
		before := snapshot()
		kern.K.Out = nil
		sched.T.FaultsOn = true
		err, panicked := tryCli(args...)
		sched.T.FaultsOn = false
		if panicked != "" {
			fail("panic", "pkger %s panics: %s", strings.Join(args, " "), panicked)
		}
		if err != nil && wrong == "" && sched.T.NFired == 0 {
			fail("error", "pkger %s fails although nothing is wrong: %v", strings.Join(args, " "), err)
		}
		if err == nil && wrong != "" {
			fail("silent", "pkger %s succeeds although %s: %s", strings.Join(args, " "), wrong, kern.K.Out)
		}
		if err != nil {
			stat("failed", 1)
		}
		judge(kern.K.Out, err == nil)
		after := snapshot()
		for k, v := range before {
			if after[k] != v {
				fail("changed", "pkger %s changes %s", strings.Join(args, " "), k)
			}
		}
	}
}

// depCalls gives the dependency a source with declarations of its own.
func depCalls() (out []string) {
	a := world.A
	var b strings.Builder
	b.WriteString("package dep\n\nimport \"github.com/markbates/pkger\"\n\nfunc g() {\n")
	all := world.List(a.DepD, "/")
	for i := sched.W(4); i > 0; i-- {
		p := all[sched.W(len(all))]
		if p == "" {
			p = "/"
		}
		arg := []string{p, a.Dep + ":" + p, a.Mod + ":/main.go"}[sched.W(3)]
		fn := []string{"Open", "Stat", "Dir", "Include"}[sched.W(4)]
		fmt.Fprintf(&b, "\tpkger.%s(%q)\n", fn, arg)
		out = append(out, fn+" "+arg)
	}
	b.WriteString("}\n")
	kern.Put(a.DepD+"/uses.go", 0644, world.MTime(), []byte(b.String()))
	sort.Strings(out)
	return out
}
