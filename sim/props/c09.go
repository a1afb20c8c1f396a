package props

import (
	"bytes"
	"fmt"
	"os"
	"strings"

	"a0sim/life"
	"a0sim/sched"
	"a0sim/world"

	"github.com/markbates/pkger/pkging/mem"
)

// reload loads what MarshalJSON gave.
func reload(b []byte) *mem.Pkger {
	q := &mem.Pkger{}
	if err := q.UnmarshalJSON(b); err != nil {
		fail("load", "the serialised package does not load: %v", err)
	}
	return q
}

// same compares two idle packages path by path.
func same(p, q *mem.Pkger, paths []string) {
	for _, k := range paths {
		fa, ea := p.Stat(k)
		fb, eb := q.Stat(k)
		if (ea == nil) != (eb == nil) {
			fail("copy", "Stat(%s): %v in the original, %v in the copy", k, ea, eb)
		}
		if ea != nil {
			continue
		}
		if fa.Name() != fb.Name() || fa.Size() != fb.Size() || fa.Mode() != fb.Mode() || fa.IsDir() != fb.IsDir() || !fa.ModTime().Equal(fb.ModTime()) {
			fail("copy", "Stat(%s): %v in the original, %v in the copy", k, info5(fa), info5(fb))
		}
		a, err := p.Open(k)
		if err != nil {
			fail("copy", "Open(%s) of the original: %v", k, err)
		}
		b, err := q.Open(k)
		if err != nil {
			fail("copy", "Open(%s) of the copy: %v", k, err)
		}
		if a.Name() != b.Name() || a.Path() != b.Path() || fmt.Sprint(a.Info()) != fmt.Sprint(b.Info()) {
			fail("copy", "Open(%s): %s of %v in the original, %s of %v in the copy", k, a.Name(), a.Info(), b.Name(), b.Info())
		}
		if fa.IsDir() {
			continue
		}
		da, e1 := readAll(a, 300)
		db, e2 := readAll(b, 300)
		if e1 != nil || e2 != nil || !bytes.Equal(da, db) {
			fail("copy", "%s holds %s (%v) in the original, %s (%v) in the copy", k, sum(da), e1, sum(db), e2)
		}
	}
	ca, _ := p.Current()
	cb, _ := q.Current()
	if fmt.Sprint(ca) != fmt.Sprint(cb) {
		fail("copy", "Current: %v in the original, %v in the copy", ca, cb)
	}
	ia, e1 := p.Info(ca.ImportPath)
	ib, e2 := q.Info(ca.ImportPath)
	if (e1 == nil) != (e2 == nil) || fmt.Sprint(ia) != fmt.Sprint(ib) {
		fail("copy", "Info(%s): %v (%v) in the original, %v (%v) in the copy", ca.ImportPath, ia, e1, ib, e2)
	}
}

func info5(fi os.FileInfo) string {
	return fmt.Sprintf("{%s %d %v %v}", fi.Name(), fi.Size(), fi.Mode(), fi.ModTime().UTC())
}

// marshalled observes the package through a serialised copy.
func (s *store) marshalled() {
	t := s.m.now()
	b, err := s.p.MarshalJSON()
	r := s.m.now()
	if err != nil {
		fail("marshal", "serialising fails: %v", err)
	}
	q := reload(b)
	ks, err := jsonFiles(b)
	if err != nil {
		fail("marshal", "serialised: %v", err)
	}
	for _, k := range ks {
		if _, ok := s.m.idx[strings.TrimPrefix(k, s.m.pkg+":")]; !ok {
			fail("stray", "the copy holds %s, which nobody ever made", k)
		}
	}
	for _, p := range s.m.paths {
		f, err := q.Open(s.m.pkg + ":" + p)
		if err != nil {
			s.m.saw(t, r, "Copy", p, nil, nil)
			continue
		}
		fi, err := f.Stat()
		if err != nil {
			fail("copy", "Stat of %s in the copy: %v", p, err)
		}
		if fi.IsDir() {
			s.m.saw(t, r, "Copy", p, fi, nil)
			continue
		}
		d, err := readAll(f, 300)
		if err != nil {
			fail("copy", "reading %s in the copy: %v", p, err)
		}
		ds := string(d)
		s.m.saw(t, r, "Copy", p, fi, &ds)
	}
	stat("copies", 1)
}

// C09: serialising a live package.
func init() {
	All["C09"] = func() {
		if world.A != nil {
			life.Res.Sample = sampleApp()
			p, want := loaded()
			b, err := p.MarshalJSON()
			if err != nil {
				fail("marshal", "serialising fails: %v", err)
			}
			q := reload(b)
			same(p, q, sortedKeys(want))
			if code, msg := holds(q, want, true); code != "" {
				fail(code, "the copy: %s", msg)
			}
			b2, err := q.MarshalJSON()
			if err != nil || !bytes.Equal(b, b2) {
				at := diffAt(b, b2)
				fail("copy", "the copy serialises differently (%v) at byte %d: %q and %q", err, at, near(b, at), near(b2, at))
			}
			return
		}
		s := newStore()
		s.focus()
		exp := expectPoints()
		var fs []func()
		nt := 1 + sched.W(3)
		var n []string
		for i := 0; i < nt; i++ {
			var ops []func()
			for j, n := 0, 1+sched.W(5); j < n; j++ {
				if o := sched.W(3); o < 2 {
					ops = append(ops, s.write(s.path()))
				} else {
					ops = append(ops, s.op(false))
				}
			}
			n = append(n, fmt.Sprint(len(ops)))
			fs = append(fs, func() {
				for _, o := range ops {
					o()
				}
			})
		}
		for i, n := 0, 1+sched.W(2); i < n; i++ {
			fs = append(fs, func() { s.marshalled() })
		}
		life.Res.Sample = fmt.Sprintf("package with the paths %v; writers with %s operations, serialised %d times", s.m.paths, strings.Join(n, ", "), len(fs)-nt)
		runTasks(exp, fs...)
		s.final()
		s.marshalled()
		s.m.check()
		b, err := s.p.MarshalJSON()
		if err != nil {
			fail("marshal", "serialising an idle package fails: %v", err)
		}
		var all []string
		for _, p := range s.m.paths {
			all = append(all, s.m.pkg+":"+p)
		}
		same(s.p, reload(b), all)
	}
}
