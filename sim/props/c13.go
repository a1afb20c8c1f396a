package props

import (
	"fmt"
	"net/http"
	"os"
	"path"
	"path/filepath"
	"strings"

	"a0sim/goemu"
	"a0sim/kern"
	"a0sim/life"
	"a0sim/sched"
	"a0sim/world"

	"github.com/markbates/pkger"
	"github.com/markbates/pkger/pkging"
)

// hostile draws a path that may try to lead out.
func (m *dmach) hostile() string {
	up := func() string {
		return []string{"..", "../..", "../../..", "../../../../../..", ".", "", "..\\..", "\\..\\..\\..", "..\\", "\\", "...", "a/../..", "public/../../..", "..%2f..", "\x00..", "actions/..", "//", "\\\\", "~", "~u", "$HOME", "${HOME}/..", "%2e%2e", "..;", "file:/", "．．", "..\u2215.."}[sched.W(27)]
	}
	goal := func() string {
		c := []string{"/etc/passwd", "etc\\passwd", "/home/u/secret.txt", "secret.txt", "../secret.txt", "passwd", "main.go", "public/foo.txt", "public", "foo.txt", "home/u/app/main.go", "", "new", "new/a", ":/etc/passwd", "app:/main.go", "dep.go", "app-dep/dep.go", "nothing"}
		return c[sched.W(len(c))]
	}
	var s string
	for i, n := 0, sched.W(4); i < n; i++ {
		s += []string{"/", "\\", "//", ""}[sched.W(4)] + up()
	}
	s += []string{"/", "\\", "/", ""}[sched.W(4)] + goal()
	heads := []string{"", "", "", ":", "app:", "app:", "app/actions:", "app:/public", "/public", "/home/u/app", "/home/u/app/public", "/home/u/app-dep", "/home/u/dep", "..:", "../app-dep:", "./actions:", ".:", "app/..:", "/etc:", "-C=/etc:", "-overlay=/etc/passwd:", "-modfile=/home/u/x.mod", " app:", "app::", "app:/app:", "App:", "etc:", "app/../../../etc:", "\\home\\u\\app"}
	if world.A.Dep != "" {
		heads = append(heads, world.A.Dep+":", world.A.Dep+":", world.A.Dep+":/public", world.A.DepD)
	}
	return heads[sched.W(len(heads))] + s
}

// rooms lists the directories a path may lead into: that of the package it
// names, as written or after it was cleaned.
func (m *dmach) rooms(s string) []string {
	var out []string
	add := func(s string) {
		s = strings.TrimSpace(strings.Replace(s, "\\", "/", -1))
		i := strings.Index(s, ":")
		pkg := ""
		if i > 0 && !strings.HasPrefix(s, "/") {
			pkg = s[:i]
		}
		if i < 0 && !strings.HasPrefix(s, "/") && s != "" && s != "." {
			pkg = s // a package by itself
		}
		if pkg == "" {
			out = append(out, "/home/u/app")
			return
		}
		for _, sp := range m.spots {
			if sp.pkg == pkg {
				out = append(out, sp.dir)
			}
		}
		if strings.HasPrefix(pkg, ".") {
			// by directory
			d := path.Join(kern.K.Cwd, pkg)
			for _, sp := range m.spots {
				if d == sp.dir {
					out = append(out, d)
				}
			}
		}
	}
	add(s)
	c := filepath.Clean(strings.TrimSpace(s))
	add(c)
	add(strings.TrimPrefix(c, "/home/u/app"))
	add("app:" + s[strings.Index(s, ":")+1:])
	if strings.Contains(c, ":") && !strings.HasPrefix(c, "app:") {
		out = out[:len(out)-1]
	}
	return out
}

func within(p string, dirs []string) bool {
	for _, d := range dirs {
		if p == d || strings.HasPrefix(p, strings.TrimSuffix(d, "/")+"/") {
			return true
		}
	}
	return false
}

// confined runs an operation and checks what it touched.
func (m *dmach) confined(what string, dirs []string, f func() error) error {
	kern.K.Reads, kern.K.LReads, kern.K.Mutations, kern.K.TrackRead = nil, nil, nil, true
	goemu.Injected = nil
	cmds, cwd := goemu.Total(), kern.K.Cwd
	var err error
	m.nops++
	if m.on(func() { err = f() }) {
		m.fired++
	}
	kern.K.TrackRead = false
	// package here may have to look for Go files to tell what the module is
	looked := goemu.Total() != cmds
	for _, p := range kern.K.Mutations {
		if !within(p, dirs) {
			fail("outside", "%s changes %s", what, p)
		}
	}
	for _, p := range kern.K.LReads {
		// links on the way to a package may be resolved
		way := p == "/home/l" || p == "/home/u/lnk" || p == "/home/u/dlnk"
		for _, d := range append([]string{"/home/u/app"}, dirs...) {
			way = way || p == d || strings.HasPrefix(d, strings.TrimSuffix(p, "go.mod")) && strings.HasSuffix(p, "/go.mod") || strings.HasPrefix(d, p+"/")
		}
		if !way {
			kern.K.Reads = append(kern.K.Reads, p)
		}
	}
	for _, p := range kern.K.Reads {
		switch p {
		case "/home/u/app", "/sim/bin/go", "/dev", kern.K.Cwd, cwd, os.Getenv("PWD"):
			continue // to tell where the package is
		}
		if looked && path.Dir(p) == "/home/u/app" {
			continue
		}
		above := false // package os makes sure of a directory's parents
		for _, d := range dirs {
			above = above || p == "/" || strings.HasPrefix(d, p+"/")
		}
		if above && (strings.HasPrefix(what, "MkdirAll") || strings.HasPrefix(what, "RemoveAll")) {
			continue
		}
		if !within(p, dirs) {
			fail("outside", "%s opens or examines %s", what, p)
		}
	}
	if len(goemu.Injected) > 0 {
		fail("flag", "%s gives the go command the flag %q", what, goemu.Injected[0])
	}
	return err
}

// C13: disk mode stays inside the package.
func init() {
	All["C13"] = func() {
		warm()
		lost := kern.K.Cwd == "/home/u" || kern.K.Cwd == "/"
		m := newDisk(true)
		start := world.Save()
		home := kern.K.Cwd
		dirty := false
		for i, n := 0, 2+sched.W(16); i < n; i++ {
			if lost && sched.W(6) == 5 {
				// now the program goes where its module is
				if err := os.Chdir("/home/u/app"); err != nil {
					life.Broken("chdir: %v", err)
				}
				lost = false
				home = kern.K.Cwd
			}
			s := m.hostile()
			dirs := m.rooms(s)
			var cl pkging.File
			var err error
			what := ""
			switch k := sched.W(10); k {
			case 0, 1:
				what = fmt.Sprintf("Open(%q)", s)
				err = m.confined(what, dirs, func() (e error) { cl, e = pkger.Open(s); return })
			case 2:
				what = fmt.Sprintf("Stat(%q)", s)
				err = m.confined(what, dirs, func() error { _, e := pkger.Stat(s); return e })
			case 3:
				what = fmt.Sprintf("Walk(%q)", s)
				err = m.confined(what, dirs, func() error {
					return pkger.Walk(s, func(string, os.FileInfo, error) error { return nil })
				})
			case 4:
				what = fmt.Sprintf("Create(%q)", s)
				err = m.confined(what, dirs, func() (e error) { cl, e = pkger.Create(s); return })
				dirty = true
			case 5:
				what = fmt.Sprintf("MkdirAll(%q)", s)
				err = m.confined(what, dirs, func() error { return pkger.MkdirAll(s, 0755) })
				dirty = true
			case 6:
				what = fmt.Sprintf("Remove(%q)", s)
				err = m.confined(what, dirs, func() error { return pkger.Remove(s) })
				dirty = true
			case 7:
				what = fmt.Sprintf("RemoveAll(%q)", s)
				err = m.confined(what, dirs, func() error { return pkger.RemoveAll(s) })
				dirty = true
			default:
				// a directory and a hostile name below it
				sp := m.spots[sched.W(len(m.spots))]
				d := []string{"/public", "/", "/assets", "/public/a", "/nothing"}[sched.W(5)]
				if l := world.List(sp.dir, "/"); sched.W(2) == 0 && len(l) > 1 {
					d = l[1+sched.W(len(l)-1)]
				}
				if strings.HasPrefix(d, "/home/u/app") {
					d = "/public" // reads as the absolute form
				}
				as := sp.pkg + ":" + d
				dirs = []string{path.Join(sp.dir, d)}
				if k == 8 {
					what = fmt.Sprintf("Dir(%q).Open(%q)", as, s)
					err = m.confined(what, dirs, func() (e error) {
						var f http.File
						if f, e = pkger.Dir(as).Open(s); e == nil {
							cl = f.(pkging.File)
						}
						return
					})
				} else {
					what = fmt.Sprintf("GET %q of %s", s, as)
					err = m.confined(what, dirs, func() error {
						if r := serve(http.FileServer(pkger.Dir(as)), "GET", s, nil, -1); r.Code != 200 {
							return fmt.Errorf("status %d", r.Code)
						}
						return nil
					})
				}
			}
			if lost && err == nil {
				fail("lost", "%s succeeds although there is no module", what)
			}
			if err == nil {
				stat("succeeded", 1)
			}
			if cl != nil {
				cl.Close()
			}
			if dirty && kern.Look("/home/u/app/main.go") == nil || kern.Look(home) == nil || dirty && sched.W(8) == 7 {
				world.Reload(start)
				dirty = false
			}
			kern.K.Cwd = home
		}
		life.Res.Sample = m.sample()
	}
}
