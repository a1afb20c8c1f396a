package props

import (
	"errors"
	"fmt"
	"os"
	"path"
	"sort"
	"strings"
	"syscall"

	"a0sim/kern"
	"a0sim/life"
	"a0sim/sched"

	"github.com/markbates/pkger"
	"github.com/markbates/pkger/here"
	"github.com/markbates/pkger/pkging"
	"github.com/markbates/pkger/pkging/mem"
)

// layer is a package to apply, with what it holds.
type layer struct {
	n    int
	p    pkging.Pkger
	mod  string
	info here.Info
	hold map[string]string // key -> "dir" or contents; keys are mod:/path
}

func (l *layer) key(q string) string {
	if strings.HasPrefix(q, "/") {
		return l.mod + ":" + q
	}
	return q
}

// desc is what a reader sees of an entry.
func (l *layer) desc(k string, full bool) string {
	c, ok := l.hold[k]
	if !ok {
		return "nothing"
	}
	if c == "dir" {
		return "dir"
	}
	if !full {
		return fmt.Sprintf("file of %d", len(c))
	}
	return c
}

// stack is the reference model: the layers applied, topmost first. Nothing
// applied means the disk.
type stack [6]int8

func (s stack) list() []int8 {
	var out []int8
	for _, x := range s {
		if x != 0 {
			out = append(out, x)
		}
	}
	return out
}

type layers struct {
	all   []*layer // 0 is the disk
	ops   []hop[stack]
	clock int64
}

func (ls *layers) now() int64 { ls.clock++; return ls.clock }

func (ls *layers) in(s *stack) []*layer {
	l := s.list()
	if len(l) == 0 {
		return ls.all[:1]
	}
	var out []*layer
	for _, x := range l {
		out = append(out, ls.all[x])
	}
	return out
}

func (ls *layers) lookup(s *stack, q string, full bool) string {
	for _, l := range ls.in(s) {
		if d := l.desc(l.key(q), full); d != "nothing" {
			return d
		}
	}
	return "nothing"
}

func (ls *layers) read(inv, ret int64, what, got string, exp func(s *stack) string) {
	ls.ops = append(ls.ops, hop[stack]{what + " gives " + got, taskName(), inv, ret, true, func(s *stack) bool { return exp(s) == got }})
}

func (ls *layers) apply(n int) {
	t := ls.now()
	if err := pkger.Apply(ls.all[n].p, nil); err != nil {
		fail("apply", "Apply: %v", err)
	}
	ls.ops = append(ls.ops, hop[stack]{fmt.Sprintf("layer %d applied", n), taskName(), t, ls.now(), false, func(s *stack) bool {
		copy(s[1:], s[:])
		s[0] = int8(n)
		return true
	}})
}

func (ls *layers) open(q string) {
	t := ls.now()
	f, err := pkger.Open(q)
	got := "nothing"
	if err == nil {
		fi, err := f.Stat()
		if err != nil {
			fail("stat", "Open(%s).Stat: %v", q, err)
		}
		got = "dir"
		if !fi.IsDir() {
			b, err := readAll(f, 64)
			if err != nil {
				fail("read", "reading %s: %v", q, err)
			}
			got = string(b)
		}
		f.Close()
	}
	ls.read(t, ls.now(), "Open("+q+")", got, func(s *stack) string { return ls.lookup(s, q, true) })
}

func (ls *layers) stat(q string) {
	t := ls.now()
	fi, err := pkger.Stat(q)
	got := "nothing"
	if err == nil {
		got = "dir"
		if !fi.IsDir() {
			got = fmt.Sprintf("file of %d", fi.Size())
		}
	}
	ls.read(t, ls.now(), "Stat("+q+")", got, func(s *stack) string { return ls.lookup(s, q, false) })
}

func (ls *layers) info(q string) {
	t := ls.now()
	i, err := pkger.Info(q)
	got := "nothing"
	if err == nil {
		got = i.Module.GoVersion
	}
	ls.read(t, ls.now(), "Info("+q+")", got, func(s *stack) string {
		for _, l := range ls.in(s) {
			if l.mod == q {
				return l.info.Module.GoVersion
			}
		}
		return "nothing"
	})
}

func (ls *layers) current() {
	t := ls.now()
	i, err := pkger.Current()
	if err != nil {
		fail("current", "Current: %v", err)
	}
	ls.read(t, ls.now(), "Current", i.Module.GoVersion, func(s *stack) string { return ls.in(s)[0].info.Module.GoVersion })
}

func (ls *layers) walk(q string, visit func(string)) { ls.walkUntil(q, visit, -1) }

// walkUntil ends the walk with an error at visit number stop.
func (ls *layers) walkUntil(q string, visit func(string), stop int) {
	t := ls.now()
	var got []string
	enough := errors.New("enough")
	err := pkger.Walk(q, func(k string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		d := "dir"
		if !fi.IsDir() {
			d = fmt.Sprintf("file of %d", fi.Size())
		}
		got = append(got, k+"="+d)
		if len(got)-1 == stop {
			return enough
		}
		if visit != nil {
			visit(k)
		}
		return nil
	})
	g := strings.Join(got, " ")
	if err == enough {
		g += " enough"
	} else if err != nil {
		g += " error"
	}
	ls.read(t, ls.now(), fmt.Sprintf("Walk(%s) up to %d", q, stop), g, func(s *stack) string {
		var w []string
		for _, l := range ls.in(s) {
			root := l.key(q)
			var ks []string
			for k := range l.hold {
				if k == root || strings.HasPrefix(k, root+"/") {
					ks = append(ks, k)
				}
			}
			if l.n == 0 {
				if _, ok := l.hold[root]; !ok {
					return " error" // from the first visit, which has no number
				}
			}
			walkOrder(ks)
			for _, k := range ks {
				w = append(w, k+"="+l.desc(k, false))
				if len(w)-1 == stop {
					return strings.Join(w, " ") + " enough"
				}
			}
		}
		return strings.Join(w, " ")
	})
}

// foreign is a layer that says in its own words that it does not hold a path.
// A sealed one lets nothing be removed.
type foreign struct {
	pkging.Pkger
	sealed *bool
}

func (f foreign) RemoveAll(p string) error {
	if _, err := f.Pkger.Stat(p); err == nil && *f.sealed {
		return &os.PathError{Op: "removeall", Path: p, Err: syscall.EROFS}
	}
	return f.Pkger.RemoveAll(p)
}

func (f foreign) Remove(p string) error {
	if _, err := f.Pkger.Stat(p); err == nil && *f.sealed {
		return &os.PathError{Op: "remove", Path: p, Err: syscall.EROFS}
	}
	return f.Pkger.Remove(p)
}

func (f foreign) no(err *error) {
	if *err != nil {
		*err = fmt.Errorf("not in this layer (%s)", *err)
	}
}

func (f foreign) Open(p string) (_ pkging.File, err error) { defer f.no(&err); return f.Pkger.Open(p) }
func (f foreign) Stat(p string) (_ os.FileInfo, err error) { defer f.no(&err); return f.Pkger.Stat(p) }
func (f foreign) Info(p string) (_ here.Info, err error)   { defer f.no(&err); return f.Pkger.Info(p) }
func (f foreign) Current() (_ here.Info, err error)        { defer f.no(&err); return f.Pkger.Current() }
func (f foreign) Parse(p string) (_ here.Path, err error)  { defer f.no(&err); return f.Pkger.Parse(p) }

// see tells what readers find.
func see(q string) string {
	f, err := pkger.Open(q)
	if err != nil {
		if _, err := pkger.Stat(q); err == nil {
			fail("stat", "%s cannot be opened, but Stat finds it", q)
		}
		return "nothing"
	}
	defer f.Close()
	fi, err := f.Stat()
	if err != nil {
		fail("stat", "Open(%s).Stat: %v", q, err)
	}
	if fi.IsDir() {
		return "dir"
	}
	b, err := readAll(f, 64)
	if err != nil || int64(len(b)) != fi.Size() {
		fail("read", "reading %s, of %d bytes: %d bytes, %v", q, fi.Size(), len(b), err)
	}
	return "file " + string(b)
}

// sealed tells whether a layer may refuse to remove q.
func (ls *layers) sealed(q string, on bool) bool {
	for _, l := range ls.all[1:] {
		if f, ok := l.p.(foreign); ok && on {
			if _, err := f.Stat(q); err == nil {
				return true
			}
		}
	}
	return false
}

// changes creates and removes things through all layers.
func (ls *layers) changes(mods, paths []string, isDir map[string]bool, sealed bool) {
	paths = append(paths[:len(paths):len(paths)], "/d/new", "/d-/new", "/d/e/new", "/f", "/f/g")
	dir := func(p string) bool { return isDir[p] || p == "/f" || p == "/f/g" }
	var qs []string
	for _, m := range mods[1:] {
		for _, p := range paths {
			qs = append(qs, m+":"+p)
		}
	}
	look := func() map[string]string {
		m := map[string]string{}
		for _, q := range qs {
			m[q] = see(q)
		}
		return m
	}
	before := look()
	for i, n := 0, 1+sched.W(6); i < n; i++ {
		q := qs[sched.W(len(qs))]
		if sched.W(3) > 0 {
			q = qs[sched.W(len(paths))]
		}
		c := strings.Index(q, ":")
		mod, p := q[:c], q[c+1:]
		mine := map[string]bool{q: true} // what may change
		var what string
		var err error
		must, want := true, ""
		switch k := sched.W(6); {
		case dir(p) && k < 3:
			what, want = "MkdirAll("+q+")", "dir"
			for d := p; d != "/"; d = path.Dir(d) {
				if before[mod+":"+d] == "nothing" {
					mine[mod+":"+d] = true
				}
			}
			err = pkger.MkdirAll(q, 0755)
		case k < 3:
			what = "Create(" + q + ")"
			must = false
			for _, l := range ls.all[1:] {
				must = must || l.mod == mod && before[mod+":"+path.Dir(p)] == "dir"
			}
			s := fmt.Sprintf("change %d of %s", i, q)
			want = "file " + s
			var f pkging.File
			if f, err = pkger.Create(q); err == nil {
				if w, err := f.Write([]byte(s)); w != len(s) || err != nil {
					fail("change", "writing %d bytes to %s: %d, %v", len(s), q, w, err)
				}
				if err := f.Close(); err != nil {
					fail("change", "closing %s: %v", q, err)
				}
			}
		default:
			want = "nothing"
			below := false
			for _, o := range qs {
				if strings.HasPrefix(o, q+"/") {
					below = below || before[o] != "nothing"
					mine[o] = k == 5
				}
			}
			if k == 5 {
				what = "RemoveAll(" + q + ")"
				err = pkger.RemoveAll(q)
				must = !ls.sealed(q, sealed)
				break
			}
			what = "Remove(" + q + ")"
			must = before[q] != "nothing" && !below
			err = pkger.Remove(q)
			if must && err != nil && ls.sealed(q, sealed) {
				must = false
				break
			}
			if err == nil && !must {
				fail("change", "%s succeeds, there is %s and something below: %v", what, before[q], below)
			}
		}
		after := look()
		if must && err != nil {
			fail("change", "%s fails: %v", what, err)
		}
		for _, o := range qs {
			b, a := before[o], after[o]
			switch {
			case err != nil && !must && want == "nothing" && mine[o] && a != b && ls.sealed(q, sealed):
				// what could be removed is
			case err != nil && a != b:
				fail("change", "%s fails (%v) and %s was %s and is %s", what, err, o, b, a)
			case err == nil && o == q && a != want || err == nil && mine[o] && o != q && (want == "nothing" && a != "nothing" || want == "dir" && a != "dir"):
				fail("change", "after %s %s is %s", what, o, a)
			case !mine[o] && a != b:
				fail("change", "%s makes %s %s, it was %s", what, o, a, b)
			}
		}
		before = after
	}
	stat("changes", 1)
}

// C10: layers applied at run time.
func init() {
	All["C10"] = func() {
		paths := []string{"/d", "/d/a", "/d/b", "/d/e", "/d/e/c", "/d-", "/d-/a"}
		isDir := map[string]bool{"/d": true, "/d/e": true, "/d-": true}
		ls := &layers{}
		disk := &layer{n: 0, mod: "app", hold: map[string]string{}, info: freshInfo()}
		for _, p := range paths {
			if sched.W(2) == 0 && !(p == "/d/e/c" && disk.hold["app:/d/e"] == "") && !(p != "/d" && strings.HasPrefix(p, "/d/") && disk.hold["app:/d"] == "") && !(p == "/d-/a" && disk.hold["app:/d-"] == "") {
				if isDir[p] {
					kern.Mkdir("/home/u/app"+p, 0755)
					disk.hold["app:"+p] = "dir"
				} else {
					c := "disk" + p
					kern.Put("/home/u/app"+p, 0644, kern.K.Clock, []byte(c))
					disk.hold["app:"+p] = c
				}
			}
		}
		ls.all = append(ls.all, disk)
		nl := 1 + sched.W(4)
		mods := []string{"app", "app", "example.com/l", "app/x"}
		sealed := sched.W(4) == 3
		for i := 1; i <= nl; i++ {
			l := &layer{n: i, mod: mods[sched.W(len(mods))], hold: map[string]string{}}
			l.info = freshInfo()
			l.info.ImportPath, l.info.Module.Path = l.mod, l.mod
			l.info.Module.GoVersion = fmt.Sprintf("1.%d", 20+i)
			p, err := mem.New(l.info)
			if err != nil {
				fail("new", "%v", err)
			}
			for _, q := range paths {
				if sched.W(2) == 0 {
					continue
				}
				if isDir[q] {
					if err := p.MkdirAll(q, 0755); err != nil {
						fail("mkdir", "MkdirAll(%s): %v", q, err)
					}
				} else {
					d := q[:strings.LastIndex(q, "/")]
					if err := p.MkdirAll(d, 0755); err != nil {
						fail("mkdir", "MkdirAll(%s): %v", d, err)
					}
					f, err := p.Create(q)
					if err != nil {
						fail("create", "Create(%s): %v", q, err)
					}
					c := fmt.Sprintf("layer %d %s%s", i, q, strings.Repeat(".", i))
					f.Write([]byte(c))
					f.Close()
					l.hold[l.mod+":"+q] = c
				}
				for d := q; d != ""; d = d[:strings.LastIndex(d, "/")] {
					if isDir[d] {
						l.hold[l.mod+":"+d] = "dir"
					}
				}
			}
			if sched.W(2) == 1 {
				b, err := p.MarshalJSON()
				if err != nil {
					fail("marshal", "%v", err)
				}
				p = reload(b)
			}
			l.p = p
			if sched.W(4) == 3 {
				l.p = foreign{p, &sealed}
			}
			ls.all = append(ls.all, l)
		}
		query := func() string {
			q := paths[sched.W(len(paths))]
			switch sched.W(5) {
			case 0:
				return q
			case 4:
				return mods[sched.W(len(mods))] + ":" + q
			}
			return "app:" + q
		}
		next := 1
		step := func() func() {
			switch sched.W(10) {
			case 0, 1, 2:
				q := query()
				return func() { ls.open(q) }
			case 3, 4:
				q := query()
				return func() { ls.stat(q) }
			case 5:
				// only packages that the layers know; below them is the go command
				q := mods[sched.W(len(mods))]
				return func() { ls.info(q) }
			case 6:
				return func() { ls.current() }
			}
			q := "app:" + []string{"/d", "/d/e", "/d-", "/d/a"}[sched.W(4)]
			switch sched.W(4) {
			case 3:
				return func() { ls.walk(q, func(k string) { ls.open(k) }) }
			case 2:
				if next <= nl {
					n := next
					next++
					done := false
					return func() {
						ls.walk(q, func(string) {
							if !done {
								done = true
								ls.apply(n)
							}
						})
						if !done {
							ls.apply(n)
						}
					}
				}
			}
			if sched.W(3) == 2 {
				n := sched.W(6)
				return func() { ls.walkUntil(q, nil, n) }
			}
			return func() { ls.walk(q, nil) }
		}
		for next <= nl && sched.W(4) == 3 {
			ls.apply(next)
			next++
		}
		var fs []func()
		nt := 1 + sched.W(3)
		for i := 0; i < nt; i++ {
			var ops []func()
			for j, n := 0, 1+sched.W(6); j < n; j++ {
				ops = append(ops, step())
			}
			fs = append(fs, func() {
				for _, o := range ops {
					o()
				}
			})
		}
		exp := expectPoints()
		for next <= nl {
			var mine []int
			for k := 1 + sched.W(2); k > 0 && next <= nl; k-- {
				mine = append(mine, next)
				next++
			}
			fs = append(fs, func() {
				for _, n := range mine {
					ls.apply(n)
				}
			})
		}
		var ns []string
		for _, l := range ls.all {
			ns = append(ns, fmt.Sprintf("%s (%d entries)", l.mod, len(l.hold)))
		}
		life.Res.Sample = fmt.Sprintf("disk and layers %s; %d tasks", strings.Join(ns, ", "), len(fs))
		runTasks(exp, fs...)
		for _, p := range paths {
			ls.open("app:" + p)
		}
		ls.walk("app:/d", nil)
		sort.SliceStable(ls.ops, func(a, b int) bool { return ls.ops[a].inv < ls.ops[b].inv })
		ok, stuck, trace := linearize(ls.ops, stack{}, func(s stack) string { return fmt.Sprint(s.list()) })
		if !ok {
			fail("history", "no order of the calls explains the answers; stuck at %s%s", stuck, trace)
		}
		if sched.W(2) == 1 {
			ls.changes(mods, paths, isDir, sealed)
		}
	}
}
