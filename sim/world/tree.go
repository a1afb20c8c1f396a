// Package world generates the simulated machine's disk: a Go module with
// sources, asset trees and a dependency, and the declarations the sources make.
package world

import (
	"bytes"
	"fmt"
	"path"
	"path/filepath"
	"sort"
	"strings"

	"a0sim/kern"
	"a0sim/sched"
)

// Decl is one declaration made by the module.
type Decl struct {
	Fn   string // Open Stat Dir Walk Include flag
	Mod  string // module path of the target
	Name string // path inside the module
	Arg  string // as written
}

// Call is one call of a declaring function, in a source of the package Dir.
type Call struct{ Fn, Arg, Dir string }

// App describes the generated module.
type App struct {
	Dir   string
	Mod   string
	Cwd   string
	Out   string // -o argument
	Dep   string // dependency module path, "" if none
	DepD  string // its directory
	Dep2  string // another dependency, "" if none
	Dep2D string
	Decls []Decl
	Flags []string // -include arguments
	Calls []Call   // every call in the sources that counts
	Virt  []string // virtual paths
	Pkgs  []string // package directories (module relative)

	Bad    bool     // sources may declare what does not exist
	Broken string   // why packing cannot succeed, "" if it can
	Lost   bool     // a declaration names a module that does not exist, or nothing
	Before []string // every path on the disk before the program started
}

var A *App

const base = 1_500_000_000

var names = []string{"a", "b", "ab", "foo", "foobar", "foo-bar", "foo.txt", "index.html", "a b", "x", "z9", "été", "日本", "%41", "+1", "q#r", "UP", "up", "a.b.c", "data.json", "style.css", "~k", "_priv", ".hid", "deep", "sub", "img.png", "README.md", "{x}", "&amp", "pkged", "main", "testdata", "vendor", "node_modules", "x.go.txt", "<i>", "it's", "p.tmpl", "x~", ".DS_Store", ".gitkeep", "old.bak", "#x#", "x.swp", "Thumbs.db", "Makefile", "CVS", "_test", "x_test.txt", "a,b", "a;b", "a=b", "100%", "$HOME", "$(x)", "-o", "..a", "q\"t", "t`k", "long-" + strings.Repeat("0123456789", 20)}

// Name draws a file name.
func Name() string { return names[sched.W(len(names))] }

// nameIn draws a name for p, at times one that is easily taken for another
// that is there already.
func nameIn(p string) string {
	if sched.W(16) != 15 {
		return Name()
	}
	n := kern.Look(p)
	if n == nil || len(n.Kids) == 0 {
		return Name()
	}
	s := n.Kids[sched.W(len(n.Kids))].Name
	switch sched.W(5) {
	case 0:
		s = strings.ToUpper(s)
	case 1:
		s = strings.Title(s)
	case 2:
		s += "x"
	case 3:
		s = "x" + s
	case 4:
		s = strings.TrimSuffix(s, path.Ext(s)) + ".x"
	}
	if len(s) > 255 || strings.HasSuffix(s, ".go") || strings.HasSuffix(s, ".tmp") {
		return Name()
	}
	return s
}

// quote writes a string literal for s.
func quote(s string) string {
	q := fmt.Sprintf("%q", s)
	rs := []rune(s)
	if sched.W(10) != 9 || len(rs) == 0 || strings.ContainsAny(s, "\"\\") {
		return q
	}
	i := sched.W(len(rs))
	esc := fmt.Sprintf("\\U%08x", rs[i])
	if rs[i] < 128 {
		esc = fmt.Sprintf([]string{"\\x%02x", "\\%03o", "\\u%04x"}[sched.W(3)], rs[i])
	}
	return "\"" + string(rs[:i]) + esc + string(rs[i+1:]) + "\""
}

// MTime draws a modification time.
func MTime() int64 {
	s := int64(base + sched.W(100_000_000))
	switch sched.W(7) {
	case 0:
		return s * 1e9
	case 6:
		return -s*1e9 - int64(sched.W(1_000_000_000))
	case 1:
		return 0
	case 2:
		return int64(sched.W(1_000_000_000))
	case 3:
		return s*1e9 + 999_999_999
	case 4:
		return s*1e9 + 1
	}
	return s*1e9 + int64(sched.W(1_000_000_000))
}

var fmodes = []uint32{0644, 0600, 0755, 0444, 0640, 0666, 0400, 0777, 04755, 0664}
var dmodes = []uint32{0755, 0700, 0775, 0750, 01777, 0555}

// Bytes makes n bytes from a seed.
func Bytes(n int, seed uint64) []byte {
	b := make([]byte, n)
	x := seed
	for i := range b {
		if i%8 == 0 {
			x = sched.Mix(x)
		}
		b[i] = byte(x >> (8 * uint(i%8)))
	}
	return b
}

// Content draws file contents; big allows some beyond one copy buffer.
func Content(big bool) []byte {
	seed := uint64(sched.W(1 << 20))
	n := 12
	if big {
		n = 16
		if sched.W(1500) == 1499 {
			// beyond every buffer there is
			b := bytes.Repeat(Bytes(1021, seed), 1100+sched.W(1100))
			return b[:len(b)-sched.W(1000)]
		}
	}
	switch k := sched.W(n); k {
	case 0:
		return nil
	case 1:
		return []byte("x")
	case 2:
		return []byte("hello\nworld\n")
	case 3:
		return []byte("`)))\n// `\"\\u0000\x00\xff")
	case 4:
		return Bytes(511+sched.W(3), seed)
	case 5:
		return []byte(strings.Repeat("0123456789abcdef", 40))
	case 12:
		return Bytes(4095+sched.W(3), seed)
	case 13:
		return Bytes(32767+sched.W(3), seed)
	case 14:
		return make([]byte, 5000)
	case 15:
		return Bytes(65535+sched.W(5000), seed)
	}
	return Bytes(1+sched.W(200), seed)
}

// Base puts the fixed parts of the machine in place.
func Base() {
	kern.K.UID = 0
	kern.Mkdir("/etc", 0755)
	kern.Put("/etc/passwd", 0644, base*1e9, []byte("root:x:0:0:secret-canary\n"))
	kern.Mkdir("/tmp", 01777)
	kern.Put("/sim/bin/go", 0755, base*1e9, []byte("#!sim\n"))
	kern.Mkdir("/home", 0755)
	kern.K.UID = 1000
	kern.Mkdir("/home/u", 0755)
	kern.Symlink("/home/l", "u")
	kern.Put("/home/u/secret.txt", 0600, base*1e9, []byte("secret-canary\n"))
	kern.K.Cwd = "/home/u"
}

// Opts steer tree generation.
type Opts struct {
	Dirs, Files int
	Big         bool
	Bad         bool // some declarations name nothing
	Nested      bool // some asset directories are modules of their own
	Odd         bool // unusual permission bits
	Links       bool // some assets are links to files
	DiskLinks   bool // so are some in disk mode, or to directories, or to nothing
	GoDirs      bool // some asset directories hold Go packages
}

// tree fills dir with assets.
func tree(dir string, o Opts) {
	dirs := []string{dir}
	nd := sched.W(o.Dirs + 1)
	for i := 0; i < nd; i++ {
		p := dirs[sched.W(len(dirs))]
		if strings.Count(p, "/") > 9 {
			p = dir
		}
		q := p + "/" + nameIn(p)
		if kern.Look(q) != nil {
			continue
		}
		n := kern.Mkdir(q, 0755)
		if o.Odd {
			n.Mode = kern.S_IFDIR | dmodes[sched.W(len(dmodes))]
		}
		n.MTime = MTime()
		dirs = append(dirs, q)
		if o.Nested && sched.W(10) == 9 {
			kern.Put(q+"/go.mod", 0644, MTime(), []byte("module nested.org/m\n\ngo 1.13\n"))
		}
		if o.GoDirs && sched.W(6) == 5 {
			switch sched.W(12) {
			case 9:
				// a mix, for a generator to pick from
				kern.Put(q+"/a.go", 0644, MTime(), []byte("package a\n"))
				kern.Put(q+"/b.go", 0644, MTime(), []byte("package b\n"))
			case 10:
				// not Go, whatever the name says
				kern.Put(kern.Mkpath(q+"/_skel")+"/main.go", 0644, MTime(), []byte([]string{"{{ .Header }}\npackage {{ .Name }}\n", "package {{ .Name }}\n", "package p\n\nimport {{ .Imports }}\n", "/* {{ . }}\n"}[sched.W(4)]))
			case 11:
				kern.Put(kern.Mkpath(q+"/testdata")+"/empty.go", 0644, MTime(), nil)
			case 5:
				kern.Put(q+"/p_test.go", 0644, MTime(), []byte("package p\n\nvar P = 1\n"))
			case 6:
				// tools, say
				kern.Put(q+"/p.go", 0644, MTime(), []byte("// +build tools\n\npackage p\n\nimport _ \"example.com/tool\"\n"))
			case 7:
				kern.Put(q+"/p_windows.go", 0644, MTime(), []byte("package p\n\nvar P = 1\n"))
			default:
				kern.Put(q+"/p.go", 0644, MTime(), []byte("package p\n\nvar P = 1\n"))
			}
		}
	}
	nf := 1 + sched.W(o.Files)
	for i := 0; i < nf; i++ {
		p := dirs[sched.W(len(dirs))]
		p += "/" + nameIn(p)
		if kern.Look(p) != nil {
			continue
		}
		m := uint32(0644)
		if o.Odd {
			m = fmodes[sched.W(len(fmodes))]
		}
		kern.Put(p, m, MTime(), Content(o.Big))
	}
	if o.Links && sched.W(8) == 7 {
		// links to files, here or anywhere
		files := []string{"/home/u/shared/logo.png"}
		kern.Put(files[0], 0644, MTime(), Content(o.Big))
		kern.Each(dir, func(p string, n *kern.Node) {
			if n.IsReg() && !strings.HasSuffix(p, ".go") && path.Base(p) != "go.mod" {
				files = append(files, p)
			}
		})
		for i := 1 + sched.W(3); i > 0; i-- {
			t := files[sched.W(len(files))]
			p := dirs[sched.W(len(dirs))]
			if p += "/" + nameIn(p); kern.Look(p) == nil {
				if sched.W(2) == 1 {
					t, _ = filepath.Rel(path.Dir(p), t)
				}
				kern.Symlink(p, t)
			}
		}
	}
	if k := sched.W(160); k >= 154 {
		// a crowd
		n := 13 + sched.W(40)
		if k == 159 {
			n = 100 + sched.W(200)
		}
		p := dirs[sched.W(len(dirs))] + "/"
		s := uint32(sched.W(1 << 16))
		for i := 0; i < n; i++ {
			s = s*75 + 74
			q := fmt.Sprintf("%s%c%x", p, "aA-._~%e"[s>>3&7], uint16(s))
			switch {
			case kern.Look(q) != nil:
			case i%7 == 6:
				kern.Mkdir(q, 0755).MTime = base * 1e9
				dirs = append(dirs, q)
			default:
				kern.Put(q, 0644, base*1e9+int64(i), []byte(q)[:1+int(s>>5)%len(q)])
			}
		}
	}
	if sched.W(60) == 59 {
		// the path of the tree, again
		if p := dirs[sched.W(len(dirs))] + dir; len(p) < 200 && kern.Look(p) == nil {
			kern.Put(kern.Mkpath(p)+"/again.txt", 0644, MTime(), Content(false))
		}
	}
	if sched.W(40) == 39 {
		// a deep one
		p := dirs[sched.W(len(dirs))]
		for i := 0; i < 30; i++ {
			p += "/" + string("abc.-_"[sched.W(6)]) + "d"
			if kern.Look(p) == nil {
				kern.Mkdir(p, 0755)
				dirs = append(dirs, p)
			}
		}
		kern.Put(p+"/bottom", 0644, MTime(), Content(false))
	}
	for _, d := range dirs {
		kern.Look(d).MTime = MTime()
	}
}

// List returns the paths below dir (module relative to root), sorted.
func List(root, dir string) []string {
	var out []string
	kern.Each(path.Join(root, dir), func(p string, n *kern.Node) {
		out = append(out, strings.TrimPrefix(p, root))
	})
	sort.Strings(out)
	return out
}

// Module generates the module: sources, assets, declarations.
func Module(o Opts) *App {
	dir := "/home/u/app"
	if sched.W(8) == 7 {
		dir = "/home/u/" + []string{".app", "_app", "testdata", "vendor-app", "my app", "ü"}[sched.W(6)]
	}
	a := &App{Dir: dir, Mod: []string{"app", "example.com/team/app", "github.com/u/app"}[sched.W(3)]}
	A = a
	gomod := "module " + a.Mod + "\n\ngo 1.13\n"
	if sched.WP(1, 3) {
		a.Dep = []string{"example.com/dep", "github.com/x/y"}[sched.W(2)]
		if sched.W(2) == 0 {
			a.DepD = "/home/u/go/pkg/mod/" + a.Dep + "@v1.2.0"
			gomod += "\nrequire " + a.Dep + " v1.2.0\n"
		} else {
			a.DepD = []string{"/home/u/dep", strings.Replace(a.Dir, " ", "", 1) + "-dep"}[sched.W(2)]
			gomod += "\nrequire (\n\t" + a.Dep + " v1.2.0\n)\n\nreplace " + a.Dep + " => " + a.linked() + "\n"
		}
		kern.Put(a.DepD+"/go.mod", 0644, MTime(), []byte("module "+a.Dep+"\n\ngo 1.12\n"))
		kern.Put(a.DepD+"/dep.go", 0644, MTime(), []byte("package dep\n\nfunc F() {}\n"))
		kern.Mkdir(a.DepD+"/assets", 0755)
		od := o
		od.Dirs, od.Files, od.Nested = 2, 4, false
		tree(a.DepD+"/assets", od)
		if sched.W(3) == 2 {
			// one that is easily mistaken for the first
			a.Dep2 = a.Dep + []string{"2", "/v2", "-x", "/sub"}[sched.W(4)]
			a.Dep2D = "/home/u/go/pkg/mod/" + a.Dep2 + "@v2.0.1"
			gomod += "\nrequire " + a.Dep2 + " v2.0.1\n"
			kern.Put(a.Dep2D+"/go.mod", 0644, MTime(), []byte("module "+a.Dep2+"\n\ngo 1.12\n"))
			kern.Put(a.Dep2D+"/dep.go", 0644, MTime(), []byte("package other\n\nfunc G() {}\n"))
			kern.Mkdir(a.Dep2D+"/assets", 0755)
			tree(a.Dep2D+"/assets", od)
			if sched.W(2) == 1 {
				kern.Put(a.DepD+"/LICENSE", 0644, MTime(), Content(o.Big))
				kern.Put(a.Dep2D+"/LICENSE", 0644, MTime(), Content(o.Big))
			}
		}
	}
	kern.Symlink("/home/u/lnk", path.Base(a.Dir))
	kern.Put(a.Dir+"/go.mod", 0644, MTime(), []byte(gomod))
	roots := []string{"/public", "/templates", "/public2", "/web/static"}
	nr := 1 + sched.W(len(roots))
	for _, r := range roots[:nr] {
		n := kern.Mkdir(a.Dir+r, 0755)
		tree(a.Dir+r, o)
		n.MTime = MTime()
	}
	if sched.W(3) == 2 {
		kern.Put(a.Dir+"/LICENSE", 0644, MTime(), Content(o.Big))
	}
	if sched.W(4) == 3 {
		if p := a.Dir + "/" + Name(); kern.Look(p) == nil {
			kern.Put(p, 0644, MTime(), Content(o.Big))
		}
	}
	a.Cwd = a.Dir
	return a
}

// linked gives the directory of the dependency, at times through a link.
func (a *App) linked() string {
	d := path.Base(a.DepD)
	kern.Symlink("/home/u/dlnk", d)
	return []string{"../" + d, "../" + d, a.DepD, "/home/l/" + d, "/home/u/dlnk", "../dlnk"}[sched.W(6)]
}

// b3 favours 0.
func b3(k int) int {
	if k > 2 {
		return 0
	}
	return k
}

// targets lists everything that can be declared.
func (a *App) targets() []Decl {
	var out []Decl
	for _, r := range List(a.Dir, "/") {
		if r == "" || r == "/" {
			continue
		}
		out = append(out, Decl{Mod: a.Mod, Name: r})
	}
	return out
}

// Deps gives the directories of the dependencies.
func (a *App) Deps() map[string]string {
	m := map[string]string{}
	if a.Dep != "" {
		m[a.Dep] = a.DepD
	}
	if a.Dep2 != "" {
		m[a.Dep2] = a.Dep2D
	}
	return m
}

// Declare draws declarations and writes the sources that make them. The root
// package gets main.go; more packages may declare too.
func (a *App) Declare(max int) {
	ts := a.targets()
	var dts []Decl
	for m, d := range a.Deps() {
		for _, r := range List(d, "/") {
			if r != "" && r != "/" {
				dts = append(dts, Decl{Mod: m, Name: r})
			}
		}
	}
	sort.SliceStable(dts, func(i, j int) bool { return dts[i].Mod < dts[j].Mod })
	fns := []string{"Open", "Stat", "Dir", "Walk", "Include"}
	type src struct {
		dir, pkg string
		body     []string
		consts   []string
		head     string // before the package clause
		file     string // name of the file
	}
	srcs := []*src{{dir: "", pkg: "main"}}
	a.Pkgs = []string{""}
	extra := []*src{{dir: "/actions", pkg: "actions"}, {dir: "/internal/x", pkg: "x"}, {dir: "/cmd/tool", pkg: "main"}}
	for _, e := range extra {
		if sched.W(3) == 2 {
			srcs = append(srcs, e)
			a.Pkgs = append(a.Pkgs, e.dir)
		}
	}
	two := sched.W(3) == 2
	if two {
		e := &src{dir: "", pkg: "main"}
		switch sched.W(6) {
		case 1:
			e.file = "some_test.go"
		case 2:
			e.file, e.pkg = "x_test.go", "main_test"
		case 3:
			e.file = "sys_windows.go"
		case 4:
			e.head = "// +build ignore\n\n"
		case 5:
			e.head, e.file = "//go:build linux && !race\n// +build linux,!race\n\n", "é.go"
		}
		srcs = append(srcs, e)
	}
	n := 1 + sched.W(max)
	for i := 0; i < n; i++ {
		var d Decl
		switch k := sched.W(12); {
		case k == 11:
			d = Decl{Mod: a.Mod, Name: "/"}
		case k >= 9 && len(dts) > 0:
			d = dts[sched.W(len(dts))]
		default:
			d = ts[sched.W(len(ts))]
		}
		d.Fn = fns[sched.W(len(fns))]
		switch {
		case d.Mod != a.Mod:
			d.Arg = d.Mod + ":" + d.Name
		case sched.W(4) == 3:
			d.Arg = a.Mod + ":" + d.Name
		case sched.W(12) == 11 && d.Name != "/":
			d.Arg = []string{":" + d.Name, d.Name + "/", "/" + d.Name, "/." + d.Name, "/zz/.." + d.Name}[sched.W(5)]
		default:
			d.Arg = d.Name
		}
		if d.Fn == "Walk" && d.Mod == a.Mod && d.Name == "/" && sched.W(2) == 1 {
			d.Arg = "/"
		}
		if sched.W(8) == 7 {
			d.Fn = "flag"
			a.Flags = append(a.Flags, d.Arg)
			a.Decls = append(a.Decls, d)
			continue
		}
		s := srcs[sched.W(len(srcs))]
		arg := quote(d.Arg)
		local := ""
		switch sched.W(8) {
		case 4, 5:
			if !strings.Contains(d.Arg, "`") {
				arg = "`" + d.Arg + "`"
			}
		case 6:
			c := fmt.Sprintf("c%d", i)
			s.consts = append(s.consts, fmt.Sprintf("const %s = %q", c, d.Arg))
			arg = c
		case 7:
			c := fmt.Sprintf("c%d", i)
			if sched.W(2) == 0 {
				s.consts = append(s.consts, fmt.Sprintf("const (\n\tx%s, %s = \"/nowhere\", %q\n\ty%s = 1\n)", c, c, d.Arg, c))
			} else {
				local = fmt.Sprintf("const %s = %q; ", c, d.Arg)
			}
			arg = c
			switch sched.W(6) {
			case 1:
				// the value of another constant
				s.consts = append(s.consts, "const d"+c+", e"+c+" = "+fmt.Sprintf("%q, %q", d.Arg, "/nowhere"), "const (\n\t"+c+"d string = d"+c+"\n)")
				arg = c + "d"
			case 2:
				// a name that means something else elsewhere
				local = fmt.Sprintf("const name = %q; ", d.Arg)
				arg = "name"
			}
		}
		call := "pkger." + d.Fn + "(" + arg
		if d.Fn == "Walk" {
			inner := ""
			if d2 := ts[sched.W(len(ts))]; sched.W(4) == 3 {
				d2.Fn, d2.Arg = "Stat", d2.Name
				inner = fmt.Sprintf("pkger.Stat(%q); ", d2.Arg)
				a.Decls = append(a.Decls, d2)
				a.Calls = append(a.Calls, Call{"Stat", d2.Arg, s.dir})
			}
			call += ", func(string, os.FileInfo, error) error { " + inner + "return nil }"
		}
		call += []string{")", ",\n\t)", " /* ) */ )"}[b3(sched.W(8))]
		two := d.Fn != "Walk" && d.Fn != "Include" && d.Fn != "Dir"
		switch k := sched.W(10); {
		case k == 5:
			s.body = append(s.body, "func() { "+local+call+" }()")
		case k == 6:
			s.body = append(s.body, "go func(a int) { for a < 3 { "+local+"defer func() { "+call+" }() } }(1)")
		case k == 7 && two:
			s.body = append(s.body, local+"if f, err := "+call+"; err == nil { _ = f }")
		case k == 8 && d.Fn == "Dir":
			s.body = append(s.body, local+"http.Handle(\"/\", http.StripPrefix(\"/s\", http.FileServer("+call+")))")
		case k == 9 && local == "":
			if two {
				s.consts = append(s.consts, fmt.Sprintf("var v%d, e%d = %s", i, i, call))
			} else {
				s.consts = append(s.consts, fmt.Sprintf("var v%d = %s", i, call))
			}
		default:
			s.body = append(s.body, local+call)
		}
		a.Decls = append(a.Decls, d)
		a.Calls = append(a.Calls, Call{d.Fn, d.Arg, s.dir})
	}
	if sched.W(3) == 2 {
		v := "/gen" + Name()
		if a.Dep != "" && sched.W(3) == 2 {
			// which a dependency holds a file of the same name as
			v = "/assets" + v
			if kern.Look(a.DepD+v) == nil {
				kern.Put(a.DepD+v+"/new.txt", 0644, MTime(), Content(false))
			}
		}
		if kern.Look(a.Dir+v) == nil {
			a.Virt = append(a.Virt, v)
			srcs[0].body = append(srcs[0].body, fmt.Sprintf("pkger.MkdirAll(%q, 0755)", v), fmt.Sprintf("pkger.Create(%q)", v+"/new.txt"), fmt.Sprintf("pkger.Open(%q)", v+"/new.txt"))
			a.Calls = append(a.Calls, Call{"MkdirAll", v, ""}, Call{"Create", v + "/new.txt", ""}, Call{"Open", v + "/new.txt", ""})
			for i := sched.W(4) - 1; i > 0; i-- {
				c := []Call{{"Stat", v + "/new.txt", ""}, {"Stat", v, ""}, {"Dir", v, ""}, {"Open", v, ""}}[sched.W(4)]
				s := srcs[sched.W(len(srcs))]
				c.Dir = s.dir
				x := fmt.Sprintf("pkger.%s(%q)", c.Fn, c.Arg)
				if sched.W(2) == 1 {
					s.body = append([]string{x}, s.body...) // before it is made
				} else {
					s.body = append(s.body, x)
				}
				a.Calls = append(a.Calls, c)
			}
		}
	}
	// paths that are on disk already, and that the program makes sure of
	for i := sched.W(6) - 3; i > 0; i-- {
		d := ts[sched.W(len(ts))]
		if kern.Look(a.Dir + d.Name).IsDir() {
			srcs[0].body = append(srcs[0].body, fmt.Sprintf("pkger.MkdirAll(%q, 0755)", d.Name))
			a.Calls = append(a.Calls, Call{"MkdirAll", d.Name, ""})
		} else {
			srcs[0].body = append(srcs[0].body, fmt.Sprintf("pkger.Create(%q)", d.Name))
			a.Calls = append(a.Calls, Call{"Create", d.Name, ""})
		}
		if sched.W(4) > 0 {
			d.Fn, d.Arg = []string{"Open", "Stat", "Dir"}[sched.W(3)], d.Name
			srcs[0].body = append(srcs[0].body, fmt.Sprintf("pkger.%s(%q)", d.Fn, d.Arg))
			a.Decls = append(a.Decls, d)
			a.Calls = append(a.Calls, Call{d.Fn, d.Arg, ""})
		}
	}
	// calls that name nothing a pack could know
	if sched.W(4) == 3 {
		s := srcs[sched.W(len(srcs))]
		s.consts = append(s.consts, "var dyn = \"/dyn\"", "const (\n\tka, kb = iota, \"/kb\"\n\tkc, kd\n)")
		s.body = append(s.body, []string{"pkger.Open(dyn)", "pkger.Stat(other)", "pkger.Dir(kd)", "pkger.Dir(kc)", "pkger.Open(strings.ToLower(dyn))", "x := dyn; pkger.Open(x)", "for _, n := range []string{} { pkger.Stat(n) }", "pkger.Open(dyn + kb)", "func(p string) { pkger.Open(p) }(dyn)", "pkger.Parse(\"/dyn\"); pkger.Info(\"/dyn\")", "other.Open(\"/dyn\"); s.pkger.Open(\"/dyn\")"}[sched.W(11)])
	}
	if a.Bad && sched.W(5) == 4 {
		s := srcs[sched.W(len(srcs))]
		nm := []string{"/no/such/thing", "/public/missing.bin", "/publi", "/publicx", "/public/.."[:7] + "/zz"}[sched.W(5)]
		fn := fns[sched.W(len(fns))]
		switch k := sched.W(5); {
		case kern.Look(a.Dir+nm) != nil:
		case k == 4:
			s.body = append(s.body, "pkger."+fn+"()")
			a.Broken = fn + "() names nothing"
			a.Lost = true
		case k == 0:
			a.Flags = append(a.Flags, nm)
			a.Broken = "-include " + nm + " names nothing"
		case k == 1 && a.Dep != "":
			s.body = append(s.body, fmt.Sprintf("pkger.Open(%q)", a.Dep+":"+nm))
			a.Calls = append(a.Calls, Call{"Open", a.Dep + ":" + nm, s.dir})
			a.Broken = "Open(" + a.Dep + ":" + nm + ") names nothing"
		case k == 2:
			s.body = append(s.body, fmt.Sprintf("pkger.Open(%q)", "example.com/unknown:/x"))
			a.Broken = "Open(example.com/unknown:/x) names an unknown module"
			a.Lost = true
		default:
			if v := sched.W(6); v > 2 {
				// something else the program makes does not make it exist
				c := []Call{{"Create", nm + "/x", s.dir}, {"Create", nm + "x", s.dir}, {"MkdirAll", nm + "x", s.dir}}[v-3]
				s.body = append(s.body, map[string]string{"Create": fmt.Sprintf("pkger.Create(%q)", c.Arg), "MkdirAll": fmt.Sprintf("pkger.MkdirAll(%q, 0755)", c.Arg)}[c.Fn])
				a.Calls = append(a.Calls, c)
			}
			call := fmt.Sprintf("pkger.%s(%q", fn, nm)
			if fn == "Walk" {
				call += ", func(string, os.FileInfo, error) error { return nil }"
			}
			s.body = append(s.body, call+")")
			a.Calls = append(a.Calls, Call{fn, nm, s.dir})
			a.Broken = fn + "(" + nm + ") names nothing"
		}
	}
	for i, s := range srcs {
		var b strings.Builder
		fmt.Fprintf(&b, "%spackage %s\n\nimport (\n\t\"net/http\"\n\t\"os\"\n\n\t\"github.com/markbates/pkger\"\n)\n\n", s.head, s.pkg)
		for _, c := range s.consts {
			b.WriteString(c + "\n\n")
		}
		fmt.Fprintf(&b, "func decl%d() {\n", i)
		for _, x := range s.body {
			if strings.HasPrefix(x, "const name") {
				x = "{ " + x + " }"
			}
			b.WriteString("\t" + x + "\n")
		}
		b.WriteString("}\n")
		if s.dir == "" && i == 0 {
			b.WriteString("\nfunc main() {}\n")
		}
		f := a.Dir + s.dir + "/main.go"
		if i > 0 {
			f = fmt.Sprintf("%s%s/more%d.go", a.Dir, s.dir, i)
		}
		if s.file != "" {
			f = a.Dir + s.dir + "/" + s.file
		}
		kern.Put(f, 0644, MTime(), []byte(b.String()))
	}
	// sources whose declarations do not count
	for _, d := range []string{"/.git", "/_old", "/testdata", "/node_modules/m", "/vendor/v"} {
		if sched.W(8) == 7 {
			kern.Put(a.Dir+d+"/ign.go", 0644, MTime(), []byte("package ign\n\nimport \"github.com/markbates/pkger\"\n\nfunc f() { pkger.Open(\"/does/not/exist\") }\n"))
		}
	}
}

// Expect computes what the declarations name: module path -> module relative
// path -> node, directories with everything below them.
func (a *App) Expect() map[string]*kern.Node {
	out := map[string]*kern.Node{}
	for _, d := range a.Decls {
		root := a.Dir
		if d.Mod != a.Mod {
			root = a.Deps()[d.Mod]
		}
		p := root + d.Name
		if d.Name == "/" {
			p = root
		}
		kern.Each(p, func(q string, n *kern.Node) {
			if q == path.Join(a.Dir, a.Out, "pkged.go") {
				return
			}
			r := strings.TrimPrefix(q, root)
			if r == "" {
				r = "/"
			}
			if n.IsLnk() {
				n = kern.Follow(q)
			}
			out[d.Mod+":"+r] = n
		})
	}
	return out
}
