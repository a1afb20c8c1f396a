package props

import (
	"bytes"
	"fmt"
	goparser "go/parser"
	"go/token"
	"os"
	"path"
	"strings"

	"a0sim/goemu"
	"a0sim/kern"
	"a0sim/life"
	"a0sim/sched"
	"a0sim/world"

	"github.com/markbates/pkger"
	"github.com/markbates/pkger/here"
	"github.com/markbates/pkger/parser"
	"github.com/markbates/pkger/pkging/mem"
	"github.com/markbates/pkger/pkging/pkgutil"
)

// faulty runs f with faults on.
func faulty(f func()) bool {
	n := sched.T.NFired
	sched.T.FaultsOn = true
	f()
	sched.T.FaultsOn = false
	return sched.T.NFired != n
}

// truth is what the go command would tell about a directory.
func truth(dir string) (imp, mod, name string) {
	a := world.A
	root, m := a.Dir, a.Mod
	if a.Dep != "" && (dir == a.DepD || strings.HasPrefix(dir, a.DepD+"/")) {
		root, m = a.DepD, a.Dep
	}
	n := kern.Look(dir)
	imp = m + strings.TrimPrefix(dir, root)
	for _, e := range n.Kids {
		if !strings.HasSuffix(e.Name, ".go") || !e.N.IsReg() || e.Name[0] == '.' || e.Name[0] == '_' {
			continue
		}
		if strings.HasSuffix(e.Name, "_windows.go") || strings.HasPrefix(string(e.N.Data), "// +build tools") {
			continue // not for this build
		}
		f, err := goparser.ParseFile(token.NewFileSet(), e.Name, e.N.Data, goparser.ImportsOnly)
		if err != nil {
			return "", m, path.Base(dir) // not Go
		}
		if name != "" && name != f.Name.Name && !strings.HasSuffix(e.Name, "_test.go") {
			return "", m, path.Base(dir) // several packages
		}
		if name == "" {
			name = f.Name.Name
		}
	}
	if name == "" || goemu.BadImport(imp) != "" {
		return "", m, path.Base(dir)
	}
	return imp, m, name
}

// sticky asks package here about packages and directories.
func sticky() {
	a := world.A
	dirs := []string{a.Dir}
	for _, p := range a.Pkgs {
		dirs = append(dirs, a.Dir+p)
	}
	for _, q := range world.List(a.Dir, "/") {
		if n := kern.Look(a.Dir + q); n.IsDir() && n.Mode&0500 == 0500 {
			dirs = append(dirs, path.Clean(a.Dir+q))
		}
	}
	check := func(what, dir string, i here.Info) {
		imp, mod, name := truth(dir)
		if i.Dir != dir || i.ImportPath != imp || i.Module.Path != mod || imp != "" && i.Name != name {
			fail("info", "%s tells directory %q, import path %q, name %q, module %q; it is %q, %q, %q, %q", what, i.Dir, i.ImportPath, i.Name, i.Module.Path, dir, imp, name, mod)
		}
	}
	asked, failed := 0, 0
	ask := func(k int, dir string, must bool) bool {
		var i here.Info
		var err error
		what := ""
		switch k {
		case 0:
			what = "here.Current"
			dir = a.Dir
			i, err = here.Current()
		case 1:
			what = "here.Dir(" + dir + ")"
			i, err = here.Dir(dir)
		default:
			imp, _, _ := truth(dir)
			if imp == "" {
				return true
			}
			what = "here.Package(" + imp + ")"
			i, err = here.Package(imp)
		}
		asked++
		if err != nil {
			failed++
			if must {
				fail("stuck", "%s fails although nothing does any more: %v", what, err)
			}
			return false
		}
		check(what, dir, i)
		return true
	}
	if sched.W(3) == 2 {
		// several at once
		home := kern.K.Cwd
		var fs []func()
		for t := 2 + sched.W(3); t > 0; t-- {
			var ks []int
			var ds []string
			for i := 1 + sched.W(3); i > 0; i-- {
				ks, ds = append(ks, sched.W(3)), append(ds, dirs[sched.W(len(dirs))])
			}
			fs = append(fs, func() {
				for i, k := range ks {
					ask(k, ds[i], false)
				}
			})
		}
		exp := expectPoints()
		faulty(func() { runTasks(exp, fs...) })
		if kern.K.Cwd != home {
			fail("cwd", "the working directory is %s, it was %s", kern.K.Cwd, home)
		}
	}
	for i, n := 0, 1+sched.W(8); i < n; i++ {
		k, dir := sched.W(3), dirs[sched.W(len(dirs))]
		if k == 2 && a.Dep != "" && sched.W(3) == 2 {
			dir = a.DepD
		}
		switch sched.W(3) {
		case 0:
			ask(k, dir, true)
		default:
			fired := faulty(func() { ask(k, dir, false) })
			if sched.W(2) == 1 || !fired {
				ask(k, dir, true)
			}
		}
	}
	life.Res.Sample = fmt.Sprintf("%d questions about %d directories, %d failed", asked, len(dirs), failed)
}

// packAgain packs in one process until it works.
func packAgain() {
	want := wants(world.A.Expect())
	try := func() (*mem.Pkger, error) {
		info, err := here.Current()
		if err != nil {
			return nil, err
		}
		decls, err := parser.Parse(info, world.A.Flags...)
		if err != nil {
			return nil, err
		}
		var bb bytes.Buffer
		if err := pkgutil.Stuff(&bb, info, decls); err != nil {
			return nil, err
		}
		return mem.UnmarshalEmbed(bb.Bytes())
	}
	n := 1 + sched.W(3)
	failed := 0
	for i := 0; i < n; i++ {
		var p *mem.Pkger
		var err error
		faulty(func() { p, err = try() })
		if err != nil {
			failed++
			continue
		}
		if code, msg := holds(p, want, true); code != "" {
			fail(code, "packing while the go command fails: %s", msg)
		}
	}
	p, err := try()
	if err != nil {
		fail("stuck", "packing fails although nothing does any more: %v", err)
	}
	if code, msg := holds(p, want, true); code != "" {
		fail(code, "packing after the go command failed %d times: %s", failed, msg)
	}
	life.Res.Sample = sampleApp() + fmt.Sprintf(", %d packs failed first", failed)
}

// C17: failures of the go command do not stick.
func init() {
	All["C17"] = func() {
		sched.T.FaultsOn = false
		if world.A.Pkgs != nil {
			kern.Del(outPath())
			if sched.W(2) == 1 {
				packAgain()
			} else {
				sticky()
			}
			return
		}
		m := newDisk(true)
		m.paths = []string{"/", "/public", "/public/foo.txt", "/new", "/main.go", "/assets", "/nothing/here"}
		home := kern.K.Cwd
		if sched.W(3) == 2 {
			// many at once
			ops := func() func() {
				type op struct {
					sp   spot
					p    string
					kind int
				}
				var os_ []op
				for i, n := 0, 1+sched.W(4); i < n; i++ {
					sp, p := m.where()
					os_ = append(os_, op{sp, p, sched.W(3)})
				}
				return func() {
					for _, o := range os_ {
						n := kern.Look(path.Join(o.sp.dir, o.p))
						var fi os.FileInfo
						var err error
						switch o.kind {
						case 0:
							fi, err = pkger.Stat(o.sp.pkg + ":" + o.p)
						case 1:
							var f interface {
								Stat() (os.FileInfo, error)
								Close() error
							}
							if f, err = pkger.Open(o.sp.pkg + ":" + o.p); err == nil {
								fi, err = f.Stat()
								f.Close()
							}
						default:
							i, e := pkger.Info(o.sp.pkg)
							if e == nil && i.Dir != o.sp.dir {
								fail("info", "Info(%s) tells directory %q, not %q", o.sp.pkg, i.Dir, o.sp.dir)
							}
							continue
						}
						if err != nil {
							continue
						}
						if n == nil {
							fail("untrue", "%s:%s is found, it does not exist", o.sp.pkg, o.p)
						}
						facts(o.sp.pkg+":"+o.p, fi, n, base(o.sp, o.p))
					}
				}
			}
			exp := expectPoints()
			var fs []func()
			for i, n := 0, 2+sched.W(3); i < n; i++ {
				fs = append(fs, ops())
			}
			faulty(func() { runTasks(exp, fs...) })
			if kern.K.Cwd != home {
				fail("cwd", "the working directory is %s, it was %s", kern.K.Cwd, home)
			}
		}
		located := map[string]bool{}
		for i, n := 0, 2+sched.W(10); i < n; i++ {
			m.faults = sched.W(2) == 1
			before := goemu.Total()
			sp, p := m.where()
			as := sp.spell(p)
			real := path.Join(sp.dir, p)
			nd := kern.Look(real)
			var err error
			var what string
			fired := m.on(func() {
				switch sched.W(4) {
				case 0:
					what = "Stat(" + as + ")"
					var fi os.FileInfo
					if fi, err = pkger.Stat(as); err == nil && nd != nil {
						facts(what, fi, nd, base(sp, p))
					}
				case 1:
					what = "Info(" + sp.pkg + ")"
					var in here.Info
					if in, err = pkger.Info(sp.pkg); err == nil && in.Dir != sp.dir {
						fail("info", "%s tells directory %q, not %q", what, in.Dir, sp.dir)
					}
				case 2:
					what = "Walk(" + as + ")"
					c := 0
					err = pkger.Walk(as, func(q string, fi os.FileInfo, e error) error { c++; return e })
					if err == nil && nd != nil && c != len(world.List(real, "/")) {
						fail("walk", "%s visits %d entries of %d", what, c, len(world.List(real, "/")))
					}
				default:
					what = "Open(" + as + ")"
					f, e := pkger.Open(as)
					if err = e; e == nil {
						f.Close()
					}
				}
			})
			m.nops++
			info := strings.HasPrefix(what, "Info")
			switch {
			case err == nil && nd == nil && !info:
				fail("untrue", "%s succeeds, there is no %s", what, real)
			case err != nil && !fired && (nd != nil || info):
				fail("stuck", "%s fails although nothing does any more: %v", what, err)
			case err != nil && !fired && !os.IsNotExist(err):
				if e := func() error { _, e := os.Lstat(real); return e }(); class(e) != class(err) {
					fail("class", "%s: %v, package os has %v", what, err, e)
				}
			}
			if fired {
				m.fired++
			}
			// what is located stays located
			if located[sp.pkg] && located["app"] {
				if goemu.Total() != before {
					fail("again", "%s runs the go command although %s was located before", what, sp.pkg)
				}
			}
			if !fired {
				located["app"] = true
			}
			if err == nil && located["app"] {
				located[sp.pkg] = true
			}
		}
		if kern.K.Cwd != home {
			fail("cwd", "the working directory is %s, it was %s", kern.K.Cwd, home)
		}
		life.Res.Sample = m.sample()
	}
}
