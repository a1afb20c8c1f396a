package world

import (
	"bytes"
	"encoding/json"
	"os"
	"path"
	"path/filepath"
	"strings"
	"time"
	_ "time/tzdata"

	"a0sim/kern"
	"a0sim/life"
	"a0sim/sched"
)

// Faults configures fault injection for the life: rates in 1/10000 per point.
func Faults(rates ...int) {
	if sched.T.Replay {
		return
	}
	// which kinds are in play differs from run to run
	r := sched.NewRand(sched.Mix(life.Req.Seed ^ 0xFA))
	sched.T.FaultNum = int64(rates[r.Int(len(rates))])
	if r.Int(3) > 0 {
		m := map[string]bool{}
		for _, k := range []string{"EIO", "ENOSPC", "EACCES", "EMFILE", "EINTR", "EROFS", "ENOMEM", "EDQUOT", "EBUSY", "ESTALE", "EPERM", "short", "exec-start", "exec-killed", "exec-fail"} {
			m[k] = r.Int(2) == 0
		}
		sched.T.FaultMask = m
	}
	if r.Int(5) < 2 && sched.T.FaultNum > 0 {
		// aim at one operation, wherever in the run it is
		ops := []string{"write", "fsync", "rename", "close", "create", "unlink", "read", "getdents", "fstat", "stat", "lstat", "open", "exec", "mkdir", "ftruncate", "chmod", "stdout"}
		sched.T.FaultOps = map[string]bool{ops[r.Int(len(ops))]: true}
		sched.T.FaultNum = int64([]int{300, 1000, 4000, 10000}[r.Int(4)])
		sched.T.FaultSkip = []int{0, 0, 1, 2, 5, 20, 50}[r.Int(7)]
	}
	sched.T.MaxFaults = []int{1, 1, 2, 4, 50}[r.Int(5)]
}

// Vary draws the plain environment: directory order, clock.
func Vary() {
	kern.K.DirSeed = sched.Env("directory-order", 1<<20)
	kern.K.Chunk = sched.Env("small-getdents", 3) == 2
	kern.K.Clock += int64(sched.Env("clock", 1<<20)) * 1_000_003_000
	// the machine's time zone; some have been seconds off
	if i := sched.Env("time-zone", 2*len(zones)); i > 0 && i < len(zones) {
		l, err := time.LoadLocation(zones[i])
		if err != nil {
			panic("kern: " + err.Error())
		}
		time.Local = l
	}
}

// arrive tells the program what its working directory is called, as a shell
// that got there through a link would.
func arrive() {
	pwd := path.Clean(kern.K.Cwd)
	switch sched.Env("reached-by", 4) {
	case 1:
		if strings.HasPrefix(pwd, "/home/u/") {
			pwd = "/home/l" + strings.TrimPrefix(pwd, "/home/u")
		}
	case 2:
		if A != nil && (pwd == A.Dir || strings.HasPrefix(pwd, A.Dir+"/")) {
			pwd = "/home/u/lnk" + strings.TrimPrefix(pwd, A.Dir)
		}
	case 3:
		pwd = ""
	}
	os.Setenv("PWD", pwd)
}

var zones = []string{"UTC", "Africa/Monrovia", "America/St_Johns", "Asia/Kathmandu", "Europe/Paris", "Asia/Tokyo"}

// AssetsOnly is the setup of the properties about an embedded package: a small
// module whose assets get packed.
func AssetsOnly(o Opts) *App {
	Base()
	a := Module(o)
	a.Declare(4)
	kern.K.Cwd = a.Dir
	Vary()
	return a
}

// PackModule is the setup of the properties about packing: a whole module with
// declarations and a choice of output directory and working directory.
func PackModule(o Opts, decls int) *App {
	Base()
	a := Module(o)
	a.Bad = o.Bad
	a.Declare(decls)
	switch sched.W(4) {
	case 2:
		if len(a.Pkgs) > 1 {
			a.Out = strings.TrimPrefix(a.Pkgs[1+sched.W(len(a.Pkgs)-1)], "/")
		}
	case 3:
		a.Out = []string{"public", "./public", "public/", "gen"}[sched.W(4)]
		if a.Out == "gen" { // nothing there yet
			kern.Mkpath(a.Dir + "/gen")
		}
	}
	if sched.W(4) == 3 {
		a.Cwd = a.Dir + "/public"
	}
	// an earlier result is in the way
	if sched.W(3) == 2 {
		d := path.Join(a.Dir, a.Out)
		name := "main"
		if n := kern.Look(d); n != nil {
			for _, e := range n.Kids {
				if strings.HasSuffix(e.Name, ".go") && !strings.HasSuffix(e.Name, "_test.go") && bytes.HasPrefix(e.N.Data, []byte("package ")) {
					name = strings.Fields(string(e.N.Data))[1]
				}
			}
		}
		kern.Put(d+"/pkged.go", 0644, MTime(), []byte("// Code generated by pkger; DO NOT EDIT.\n\npackage "+name+"\n\nvar old = `stale`\n"))
	}
	// results of other packs, which are not this one's to touch
	for _, d := range a.Pkgs {
		if f := a.Dir + d + "/pkged.go"; sched.W(6) == 5 && path.Join(d) != path.Join("/", a.Out) && kern.Look(f) == nil {
			kern.Put(f, 0644, MTime(), []byte("// Code generated by pkger; DO NOT EDIT.\n\npackage "+[]string{"main", path.Base(d)}[b2i(d != "" && d != "/cmd/tool")]+"\n\nvar other = `pack`\n"))
		}
	}
	// start anew: the tree is as a file system would have it, except for the past
	a.remember()
	Vary()
	kern.K.Cwd = a.Cwd
	return a
}

// bare makes a module with nothing but its source.
func bare() {
	Base()
	kern.Put("/home/u/app/go.mod", 0644, base*1e9, []byte("module app\n\ngo 1.13\n"))
	kern.Put("/home/u/app/main.go", 0644, base*1e9, []byte("package main\n\nfunc main() {}\n"))
	kern.K.Cwd = "/home/u/app"
}

// DiskModule is the setup of the properties about disk mode.
func DiskModule(o Opts) *App {
	Base()
	a := &App{Dir: "/home/u/app", Mod: "app"}
	A = a
	gomod := "module app\n\ngo 1.13\n"
	if sched.W(2) == 1 {
		a.Dep = "example.com/dep"
		a.DepD = []string{"/home/u/dep", "/home/u/app-dep"}[sched.W(2)]
		gomod += "\nrequire example.com/dep v1.2.0\n\nreplace example.com/dep => " + a.linked() + "\n"
		kern.Put(a.DepD+"/go.mod", 0644, MTime(), []byte("module "+a.Dep+"\n\ngo 1.12\n"))
		kern.Put(a.DepD+"/dep.go", 0644, MTime(), []byte("package dep\n\nfunc F() {}\n"))
		tree(kern.Mkpath(a.DepD+"/public"), o)
		tree(kern.Mkpath(a.DepD+"/assets"), o)
	}
	kern.Symlink("/home/u/lnk", path.Base(a.Dir))
	kern.Put(a.Dir+"/go.mod", 0644, MTime(), []byte(gomod))
	kern.Put(a.Dir+"/main.go", 0644, MTime(), []byte("package main\n\nfunc main() {}\n"))
	kern.Put(a.Dir+"/actions/a.go", 0644, MTime(), []byte("package actions\n"))
	if sched.W(2) == 1 {
		tree(kern.Mkpath(a.Dir+"/actions/public"), o)
	}
	tree(kern.Mkpath(a.Dir+"/public"), o)
	kern.Put(a.Dir+"/public/foo.txt", 0644, MTime(), Content(false))
	if o.DiskLinks && sched.W(3) == 2 {
		diskLinks()
	}
	a.Cwd = []string{a.Dir, a.Dir + "/public", a.Dir + "/actions", "/home/u/app/public/."}[sched.W(4)]
	kern.K.Cwd = path.Clean(a.Cwd)
	Vary()
	Faults(0, 20, 100, 300, 1000)
	sched.T.FaultsOn = sched.W(4) == 3 // strike while the program starts
	return a
}

// diskLinks makes some links among the assets, to files, to directories, to
// nothing. They are relative, so that a copy of the module has its own.
func diskLinks() {
	var to, in []string
	kern.Each("/home/u", func(p string, n *kern.Node) {
		switch {
		case n.IsLnk() || !strings.Contains(p, "/public") && !strings.Contains(p, "/assets"):
		case n.IsDir():
			in = append(in, p)
			to = append(to, p)
		default:
			to = append(to, p, p)
		}
	})
	for i := 1 + sched.W(3); i > 0; i-- {
		t, d := to[sched.W(len(to))], in[sched.W(len(in))]
		if sched.W(6) == 5 {
			t = path.Dir(t) + "/nothing"
		}
		t, _ = filepath.Rel(d, t)
		if p := d + "/" + nameIn(d); kern.Look(p) == nil {
			kern.Symlink(p, t)
			if sched.W(2) == 1 {
				to = append(to, p)
			}
		}
	}
}

func (a *App) remember() {
	a.Before = nil
	kern.Each("/", func(p string, n *kern.Node) { a.Before = append(a.Before, p) })
}

// State carries a machine from one life to the next.
type State struct {
	App  App
	Disk []kern.ImgEnt
}

// Save captures the machine.
func Save() State { return State{*A, kern.Image()} }

// Restore makes s the machine. The clock moves on and the environment varies.
func Restore(s State) {
	kern.K.UID = 1000
	a := s.App
	A = &a
	kern.Load(s.Disk)
	Vary()
	kern.K.Cwd = a.Cwd
}

// Reload puts the disk back, within a life.
func Reload(s State) {
	cwd := kern.K.Cwd
	kern.Load(s.Disk)
	kern.K.Cwd = cwd
}

// packLives is the setup of properties whose runs have several lives.
func packLives(o Opts, decls int, state func([]byte) State) {
	if life.Req.State != nil {
		Restore(state(life.Req.State))
		return
	}
	PackModule(o, decls)
}

func nested(b []byte) State {
	var s struct{ World State }
	if err := json.Unmarshal(b, &s); err != nil {
		panic("kern: state: " + err.Error())
	}
	return s.World
}

func init() {
	life.Setups["C06"] = func() { AssetsOnly(Opts{Dirs: 3, Files: 5}) }
	life.Setups["C08"] = func() { Base(); Vary() }
	life.Setups["C09"] = func() {
		if sched.W(5) == 4 {
			AssetsOnly(Opts{Dirs: 4, Files: 6, Big: true, Odd: true})
			return
		}
		Base()
		Vary()
	}
	life.Setups["C10"] = func() { bare(); Vary() }
	life.Setups["C11"] = func() { DiskModule(Opts{Dirs: 3, Files: 5, Odd: true, DiskLinks: true}) }
	life.Setups["C12"] = func() {
		if sched.W(3) == 2 {
			PackModule(Opts{Dirs: 3, Files: 4, GoDirs: true, Bad: true}, 4)
			Faults(5, 20, 60, 300)
			return
		}
		DiskModule(Opts{Dirs: 3, Files: 5, Odd: true, DiskLinks: true})
	}
	life.Setups["C13"] = func() {
		DiskModule(Opts{Dirs: 2, Files: 3})
		if sched.W(6) == 5 {
			kern.K.Cwd = []string{"/home/u", "/"}[sched.W(2)]
		}
	}
	life.Setups["C14"] = func() {
		switch sched.W(4) {
		case 1:
			AssetsOnly(Opts{Dirs: 6, Files: 8})
		case 2:
			DiskModule(Opts{Dirs: 5, Files: 8, Odd: true})
		default:
			Base()
			Vary()
		}
	}
	life.Setups["C15"] = func() {
		if sched.W(3) == 2 {
			AssetsOnly(Opts{Dirs: 6, Files: 10})
			return
		}
		bare()
		Vary()
	}
	life.Setups["C16"] = func() {
		if sched.W(3) == 2 {
			DiskModule(Opts{Dirs: 3, Files: 5, Big: true, DiskLinks: true})
			sched.T.FaultsOn = false
			return
		}
		AssetsOnly(Opts{Dirs: 4, Files: 8, Big: true})
	}
	life.Setups["C17"] = func() {
		if sched.W(3) == 2 {
			PackModule(Opts{Dirs: 3, Files: 3, GoDirs: true}, 4)
		} else {
			DiskModule(Opts{Dirs: 2, Files: 3})
		}
		if !sched.T.Replay {
			// only the go command fails
			r := sched.NewRand(sched.Mix(life.Req.Seed ^ 0x17))
			sched.T.FaultMask = nil
			sched.T.FaultOps = map[string]bool{"exec": true}
			sched.T.FaultNum = int64([]int{500, 2000, 5000, 9000}[r.Int(4)])
			sched.T.FaultSkip = []int{0, 0, 1, 2, 4}[r.Int(5)]
			sched.T.MaxFaults = []int{1, 2, 4, 50}[r.Int(4)]
		}
		sched.T.FaultsOn = sched.W(2) == 1 // from the start
	}
	life.Setups["C18"] = func() {
		if life.Req.State == nil {
			AssetsOnly(Opts{Dirs: 4, Files: 6, Big: true, Odd: true})
			return
		}
		Restore(nested(life.Req.State))
		Faults(0, 300, 3000, 10000)
		switch sched.Env("deployed", 3) {
		case 1:
			// another machine, without sources and go
			kern.Del("/home")
			kern.Del("/sim")
			kern.K.Cwd = "/"
		case 2:
			sched.T.FaultsOn = true // strike while the program starts
		}
	}
	life.Setups["C07"] = func() { AssetsOnly(Opts{Dirs: 4, Files: 6, Big: true, Odd: true}) }
	life.Setups["C01"] = func() {
		PackModule(Opts{Dirs: 5, Files: 8, Big: true, Odd: true, GoDirs: true, Links: true, Nested: true}, 6)
	}
	life.Setups["C02"] = func() {
		PackModule(Opts{Dirs: 4, Files: 5, Big: true, GoDirs: true, Bad: true}, 4)
		Faults(5, 20, 60, 200, 1000)
		if sched.Env("full-disk", 8) == 7 {
			kern.K.Free = int64(sched.Env("bytes-left", 6000))
			sched.T.Fired["full-disk"]++
		}
		sched.T.FaultsOn = sched.W(4) == 3 // strike while the program starts
	}
	life.Setups["C03"] = func() {
		PackModule(Opts{Dirs: 4, Files: 5, GoDirs: true, Bad: true}, 4)
		Faults(0, 0, 5, 60, 300)
	}
	life.Setups["C04"] = func() {
		packLives(Opts{Dirs: 3, Files: 4, Big: true}, 3, nested)
		if life.Req.State == nil && A.Out != "" && path.Clean(A.Out) != "." {
			kern.Del(path.Join(A.Dir, "pkged.go")) // some lives run list, which removes it
		}
	}
	life.Setups["C05"] = func() {
		packLives(Opts{Dirs: 5, Files: 6, GoDirs: true, Links: true, Odd: true}, 6, nested)
		// removing an earlier result would give its directory a new time
		kern.Del(path.Join(A.Dir, A.Out, "pkged.go"))
		kern.K.Cwd = A.Dir + []string{"", "/public", "/templates/..", "/public2"}[sched.Env("working-directory", 4)]
		if kern.Look(kern.K.Cwd) == nil {
			kern.K.Cwd = A.Dir
		}
	}
	life.Setups["C20"] = func() {
		PackModule(Opts{Dirs: 3, Files: 5, GoDirs: true, Bad: true}, 6)
		Faults(0, 0, 20, 100, 500)
		if sched.W(5) == 4 {
			A.Cwd = A.Dir + A.Pkgs[sched.W(len(A.Pkgs))]
			kern.K.Cwd = A.Cwd
		}
		sched.T.FaultsOn = sched.W(4) == 3 // strike while the program starts
	}
	life.Setups["C19"] = func() {
		PackModule(Opts{Dirs: 4, Files: 5, GoDirs: true, Links: true, Bad: true, Nested: true}, 5)
		if A.Out != "" && path.Clean(A.Out) != "." {
			kern.Del(path.Join(A.Dir, A.Out, "pkged.go")) // list knows of no other place
			kern.Del(path.Join(A.Dir, "pkged.go"))        // and removes this one
		}
		Faults(0, 0, 0, 20, 100)
	}

	for k, f := range life.Setups {
		f := f
		life.Setups[k] = func() { f(); arrive() }
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}
