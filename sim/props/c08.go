package props

import (
	"a0sim/kern"
	"encoding/json"
	"fmt"
	"os"
	"path"
	"strings"
	"time"

	"a0sim/life"
	"a0sim/sched"
	"a0sim/world"

	"github.com/markbates/pkger/here"
	"github.com/markbates/pkger/pkging/mem"
)

// universe draws the paths of a small package.
func universe() []string {
	d := []string{"/d", "/foo", "/a.b"}[sched.W(3)]
	sib := []string{d + "x", d + "-", d + ".txt"}[sched.W(3)]
	ps := []string{"/", d, d + "/e", d + "/e/g", d + "/f", sib, sib + "/f", d + "/e/g/h", "/f"}
	return ps[:6+sched.W(len(ps)-5)]
}

func freshInfo() here.Info {
	return here.Info{Dir: "/home/u/app", ImportPath: "app", Name: "main", Module: here.Module{Path: "app", Main: true, Dir: "/home/u/app", GoMod: "/home/u/app/go.mod", GoVersion: "1.13"}}
}

// store is an in-memory package together with its model.
type store struct {
	p *mem.Pkger
	m *model
	n int // writes so far, to make contents distinct

	hot  string // the path most operations are about, if any
	duel bool   // all of them are
}

// newStore makes a package with some files in it.
func newStore() *store {
	p, err := mem.New(freshInfo())
	if err != nil {
		fail("new", "New: %v", err)
	}
	pkg := "app"
	if sched.W(6) == 5 {
		// files that belong to another package, which the application knows
		pkg = otherInfo().ImportPath
		p = knowing(p, otherInfo())
	}
	s := &store{p: p, m: newModel(pkg, universe())}
	for i, n := 0, sched.W(5); i < n; i++ {
		switch q := s.path(); sched.W(2) {
		case 0:
			s.mkdir(q)
		default:
			s.write(q)()
		}
	}
	if sched.W(2) == 1 {
		// as a program gets it
		b, err := s.p.MarshalJSON()
		if err != nil {
			fail("marshal", "serialising an idle package: %v", err)
		}
		s.p = &mem.Pkger{}
		if err := s.p.UnmarshalJSON(b); err != nil {
			fail("unmarshal", "loading a serialised package: %v", err)
		}
	}
	return s
}

func otherInfo() here.Info {
	return here.Info{Dir: "/home/u/dep/sub", ImportPath: "example.org/dep/sub", Name: "sub", Module: here.Module{Path: "example.org/dep", Dir: "/home/u/dep", GoMod: "/home/u/dep/go.mod", GoVersion: "1.13"}}
}

// knowing is p, a new package, after it was asked for the other one.
func knowing(p *mem.Pkger, other here.Info) *mem.Pkger {
	b, err := p.MarshalJSON()
	if err != nil {
		fail("marshal", "serialising a new package: %v", err)
	}
	var d map[string]json.RawMessage
	if err := json.Unmarshal(b, &d); err != nil {
		fail("marshal", "serialised: %v", err)
	}
	infos := map[string]json.RawMessage{}
	if err := json.Unmarshal(d["infos"], &infos); err != nil {
		fail("marshal", "serialised: %v", err)
	}
	infos[other.ImportPath], _ = json.Marshal(other)
	d["infos"], _ = json.Marshal(infos)
	b, _ = json.Marshal(d)
	q := &mem.Pkger{}
	if err := q.UnmarshalJSON(b); err != nil {
		fail("unmarshal", "loading a serialised package: %v", err)
	}
	return q
}

func (s *store) path() string {
	if s.hot != "" && (s.duel || sched.W(4) > 0) {
		return s.hot
	}
	return s.m.paths[sched.W(len(s.m.paths))]
}

// focus draws the path that most operations will be about.
func (s *store) focus() {
	if sched.W(3) == 0 {
		return
	}
	s.hot = s.path()
	if s.hot == "/" {
		s.hot = s.path()
	}
	if d := path.Dir(s.hot); sched.W(4) > 0 {
		if _, ok := s.m.idx[d]; ok {
			s.mkdir(d)
			s.duel = s.hot != "/" && sched.W(2) == 1
		}
	}
}

// spell is one of the ways to write a path of the package.
func (s *store) spell(p string) string {
	if s.m.pkg != freshInfo().ImportPath {
		return s.m.pkg + ":" + p
	}
	switch sched.W(8) {
	case 5:
		return s.m.pkg + ":" + p
	case 6:
		return ":" + p
	}
	return p
}

func (s *store) mkdir(p string) {
	perm := []os.FileMode{0755, 0700, 0775}[sched.W(3)]
	s.mkdirPerm(p, s.spell(p), perm)
}

func (s *store) mkdirPerm(p, as string, perm os.FileMode) {
	t := s.m.now()
	err := s.p.MkdirAll(as, perm)
	s.m.mkdirAll(t, s.m.now(), p, perm, err)
}

// write draws a creation of p and returns it.
func (s *store) write(p string) func() {
	s.n++
	var data []string
	for i, n := 0, sched.W(4); i < n; i++ {
		data = append(data, fmt.Sprintf("<%d.%d:%s>", s.n, i, strings.Repeat("x", sched.W(40))))
	}
	as := s.spell(p)
	all := strings.Join(data, "")
	s.m.content(all)
	s.m.ids++
	id := s.m.ids
	leave := sched.W(6) == 5 // the writer goes away without closing
	return func() {
		t := s.m.now()
		f, err := s.p.Create(as)
		s.m.created(t, s.m.now(), p, id, err)
		if err != nil {
			return
		}
		for _, d := range data {
			n, err := f.Write([]byte(d))
			if n != len(d) || err != nil {
				fail("write", "writing %d bytes to the new %s gives %d, %v", len(d), p, n, err)
			}
		}
		if leave {
			return
		}
		t = s.m.now()
		if err := f.Close(); err != nil {
			fail("close", "closing the new %s: %v", p, err)
		}
		s.m.closed(t, s.m.now(), p, id, all)
	}
}

// open observes p through Open.
func (s *store) open(p, as string, how int, between func()) {
	t := s.m.now()
	f, err := s.p.Open(as)
	r := s.m.now()
	if err != nil {
		if !os.IsNotExist(err) {
			fail("open", "Open(%s): %v", p, err)
		}
		s.m.saw(t, r, "Open", p, nil, nil)
		return
	}
	fi, err := f.Stat()
	if err != nil {
		fail("open", "Open(%s).Stat: %v", p, err)
	}
	if fi.IsDir() {
		s.m.saw(t, r, "Open", p, fi, nil)
	} else {
		if how == 1 {
			// it may refuse, but it must not change what others read
			f.Write([]byte("scribbled over what was there"))
		}
		if how == 2 {
			between()
		}
		b, err := readAll(f, 16)
		if err != nil {
			fail("open", "reading %s: %v", p, err)
		}
		d := string(b)
		s.m.saw(t, r, "Open", p, fi, &d)
		fi2, err := f.Stat()
		if err != nil || fi2.Size() != fi.Size() {
			fail("open", "the size of the open %s changes from %d to %d (%v)", p, fi.Size(), fi2.Size(), err)
		}
	}
	if err := f.Close(); err != nil {
		fail("open", "closing %s: %v", p, err)
	}
}

func (s *store) stat(p, as string) {
	t := s.m.now()
	fi, err := s.p.Stat(as)
	if err != nil {
		if !os.IsNotExist(err) {
			fail("stat", "Stat(%s): %v", p, err)
		}
		fi = nil
	}
	s.m.saw(t, s.m.now(), "Stat", p, fi, nil)
}

func (s *store) walk(p, as string) {
	t := s.m.now()
	seen := map[string]os.FileInfo{}
	var order []string
	err := s.p.Walk(as, func(q string, fi os.FileInfo, err error) error {
		if err != nil {
			fail("walk", "Walk(%s) at %s: %v", p, q, err)
		}
		q = strings.TrimPrefix(q, s.m.pkg+":")
		if _, dup := seen[q]; dup {
			fail("walk", "Walk(%s) visits %s twice", p, q)
		}
		seen[q] = fi
		order = append(order, q)
		return nil
	})
	if err != nil {
		fail("walk", "Walk(%s): %v", p, err)
	}
	r := s.m.now()
	for _, q := range order {
		if q != p && !strings.HasPrefix(q, strings.TrimSuffix(p, "/")+"/") {
			fail("walk", "Walk(%s) visits %s", p, q)
		}
		s.m.saw(t, r, "Walk", q, seen[q], nil)
	}
	sorted := append([]string(nil), order...)
	walkOrder(sorted)
	if strings.Join(sorted, "\n") != strings.Join(order, "\n") {
		fail("walk", "Walk(%s) visits %v", p, order)
	}
	i := s.m.idx[p]
	for _, k := range append([]int{i}, s.m.kids[i]...) {
		if _, ok := seen[s.m.paths[k]]; !ok {
			s.m.saw(t, r, "Walk", s.m.paths[k], nil, nil)
		}
	}
}

// op draws one operation.
func (s *store) op(walks bool) func() {
	p := s.path()
	k := sched.W(16)
	if s.duel {
		// creations and looks, of one path
		k = []int{0, 0, 0, 0, 9, 9, 9, 9, 9, 15, 15, 15, 6, 12, 4, 8}[k]
	}
	switch {
	case k < 4:
		return s.write(p)
	case k < 6:
		perm := []os.FileMode{0755, 0700, 0775}[sched.W(3)]
		as := s.spell(p)
		return func() { s.mkdirPerm(p, as, perm) }
	case k < 8:
		as := s.spell(p)
		return func() {
			t := s.m.now()
			err := s.p.Remove(as)
			s.m.removed(t, s.m.now(), p, err)
		}
	case k < 9:
		as := s.spell(p)
		return func() {
			t := s.m.now()
			if err := s.p.RemoveAll(as); err != nil {
				fail("removeall", "RemoveAll(%s): %v", p, err)
			}
			s.m.removedAll(t, s.m.now(), p)
		}
	case k < 12:
		as := s.spell(p)
		how := sched.W(6)
		between := func() {}
		if how == 2 {
			// something else happens while the file is open
			between = s.op(walks)
		}
		return func() { s.open(p, as, how, between) }
	case k == 12 && walks:
		as := s.spell(p)
		return func() { s.walk(p, as) }
	}
	as := s.spell(p)
	return func() { s.stat(p, as) }
}

// final looks at everything when all is quiet.
func (s *store) final() {
	for _, p := range s.m.paths {
		s.open(p, s.m.pkg+":"+p, 0, nil)
		s.stat(p, s.m.pkg+":"+p)
	}
	s.walk("/", s.m.pkg+":/")
}

// C08: an in-memory package is a consistent store.
func init() {
	All["C08"] = func() {
		s := newStore()
		s.focus()
		exp := expectPoints()
		var fs []func()
		nt := 2 + sched.W(3)
		var names []string
		for i := 0; i < nt; i++ {
			var ops []func()
			n := 1 + sched.W(5)
			if s.duel {
				n = 1 + sched.W(2)
			}
			for j := 0; j < n; j++ {
				ops = append(ops, s.op(true))
			}
			names = append(names, fmt.Sprint(len(ops)))
			fs = append(fs, func() {
				for _, o := range ops {
					o()
				}
			})
		}
		life.Res.Sample = fmt.Sprintf("package with the paths %v; tasks with %s operations", s.m.paths, strings.Join(names, ", "))
		runTasks(exp, fs...)
		s.final()
		s.m.check()
		s.dated()
	}
}

// dated writes a file slowly and asks when it was changed.
func (s *store) dated() {
	p := s.m.paths[sched.W(len(s.m.paths))]
	f, err := s.p.Create(s.m.pkg + ":" + p)
	if err != nil {
		return
	}
	var at int64
	for i, n := 0, sched.W(3); i <= n; i++ {
		kern.K.Clock += []int64{1e6, 1e9, 3600e9}[sched.W(3)]
		at = kern.K.Clock
		if n, err := f.Write([]byte("x")); n != 1 || err != nil {
			fail("write", "writing to %s: %d, %v", p, n, err)
		}
	}
	kern.K.Clock += 1e9
	if err := f.Close(); err != nil {
		fail("close", "closing %s: %v", p, err)
	}
	fi, err := s.p.Stat(s.m.pkg + ":" + p)
	if err != nil {
		fail("stat", "Stat(%s) after it was written: %v", p, err)
	}
	if t := fi.ModTime().UnixNano(); t < at || t > kern.K.Clock {
		fail("modtime", "%s was last written at %v, Stat tells %v", p, time.Unix(0, at).UTC(), fi.ModTime().UTC())
	}
}

var _ = world.A
