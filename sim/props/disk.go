package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net/http"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"syscall"

	"a0sim/kern"
	"a0sim/life"
	"a0sim/sched"
	"a0sim/world"

	"github.com/markbates/pkger"
	"github.com/markbates/pkger/pkging"
)

// A machine in disk mode: the module under /home/u/app is used through pkger,
// its mirror under /mirror through package os, without faults.

// spot is a place reachable through pkger: a package and its directory.
type spot struct {
	pkg, dir, mirror string
}

type dmach struct {
	spots  []spot
	paths  []string // below every spot
	open   []*pair
	faults bool
	fired  int
	nops   int
	n      int

	// a path that many operations are about
	chosen bool
	hotSp  spot
	hot    string
}

// pair is a file opened both ways.
type pair struct {
	a      pkging.File
	b      *os.File
	sp     spot
	p      string
	node   *kern.Node
	dir    bool
	listed map[string]bool
	begun  bool
	wr     bool
}

const mirrorRoot = "/mirror"

// diskModule is the setup: a module, a package inside it, a required module.
func newDisk(faults bool) *dmach {
	m := &dmach{faults: faults}
	m.spots = []spot{{"app", "/home/u/app", ""}, {"app/actions", "/home/u/app/actions", ""}}
	if world.A.Dep != "" {
		m.spots = append(m.spots, spot{world.A.Dep, world.A.DepD, ""})
	}
	for i := range m.spots {
		m.spots[i].mirror = mirrorRoot + m.spots[i].dir
	}
	m.sync()
	return m
}

// copyTree copies a tree inside the machine.
func copyTree(from, to string) {
	n := kern.Look(from)
	if n == nil {
		return
	}
	kern.Each(from, func(p string, n *kern.Node) {
		q := to + strings.TrimPrefix(p, from)
		var c *kern.Node
		if n.IsLnk() {
			c = kern.Symlink(q, n.Link)
		} else if n.IsDir() {
			c = kern.Mkdir(q, 0755)
		} else {
			c = kern.Put(q, 0, n.MTime, append([]byte(nil), n.Data...))
		}
		c.Mode, c.MTime, c.UID = n.Mode, n.MTime, n.UID
	})
}

// sync makes the mirror equal to the original.
func (m *dmach) sync() {
	kern.Del(mirrorRoot)
	kern.Mkdir(mirrorRoot, 0755)
	copyTree("/home/u", mirrorRoot+"/home/u")
}

// differs compares the original with the mirror.
func (m *dmach) differs() string {
	a, b := map[string]string{}, map[string]string{}
	take := func(root string, out map[string]string) {
		kern.Each(root, func(p string, n *kern.Node) {
			out[strings.TrimPrefix(p, root)] = fmt.Sprintf("%o %s%s", n.Mode, n.Link, sum(n.Data))
		})
	}
	take("/home/u", a)
	take(mirrorRoot+"/home/u", b)
	var ks []string
	for k := range a {
		ks = append(ks, k)
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		if a[k] != b[k] {
			return fmt.Sprintf("/home/u%s is %q, with package os it is %q", k, a[k], b[k])
		}
	}
	return ""
}

// on runs f, an operation of pkger, with faults as the run has them. It tells
// whether a fault struck.
func (m *dmach) on(f func()) bool {
	n := sched.T.NFired
	sched.T.FaultsOn = m.faults
	f()
	sched.T.FaultsOn = false
	return sched.T.NFired != n
}

// closeAll closes all handles, with faults.
func (m *dmach) closeAll() {
	for _, h := range m.open {
		m.on(func() { h.a.Close() })
		h.b.Close()
	}
	m.open = nil
}

// class is what an error tells.
func class(err error) string {
	if err != nil {
		_ = err.Error()
	}
	switch {
	case err == nil:
		return "ok"
	case err == io.EOF:
		return "EOF"
	case os.IsNotExist(err):
		return "does not exist"
	case os.IsExist(err):
		return "exists"
	case os.IsPermission(err):
		return "permission"
	}
	return "error"
}

func (m *dmach) where() (spot, string) {
	if !m.chosen {
		m.chosen = true
		if sched.W(2) == 1 {
			m.hotSp, m.hot = m.where()
		}
	}
	if m.hot != "" && sched.W(4) > 0 {
		return m.hotSp, []string{m.hot, m.hot, m.hot, path.Dir(m.hot), path.Join(m.hot, "a")}[sched.W(5)]
	}
	sp := m.spots[sched.W(len(m.spots))]
	p := m.paths[sched.W(len(m.paths))]
	if sched.W(2) == 0 {
		// something that is there
		if l := world.List(sp.dir, "/"); len(l) > 1 {
			p = l[1+sched.W(len(l)-1)]
		}
	}
	return sp, p
}

// spell writes a path in one of its forms.
func (sp spot) spell(p string) string {
	switch k := sched.W(8); {
	case sp.pkg == "app" && k < 3:
		return p
	case sp.pkg == "app" && k == 3:
		return ":" + p
	case k == 4:
		return sp.pkg + ":" + "/zz/.." + p
	case k == 5 && p != "/":
		return sp.pkg + ":" + p + "/"
	}
	return sp.pkg + ":" + p
}

// outcome judges the answer of an operation: got by pkger, want by os.
func (m *dmach) outcome(what string, fired bool, got, want error) {
	m.nops++
	if fired {
		m.fired++
		if got == nil && want != nil {
			fail("untrue", "%s succeeds under faults, package os refuses: %v", what, want)
		}
		return
	}
	if class(got) != class(want) {
		fail("class", "%s, with nothing failing, gives %v; package os gives %v", what, got, want)
	}
}

// after compares the disks when the operation is through.
func (m *dmach) after(what string, fired bool, got error) {
	if fired && got != nil {
		m.closeAll()
		m.sync()
		return
	}
	if d := m.differs(); d != "" {
		fail("effect", "after %s (%v): %s", what, got, d)
	}
}

// factsOf checks a FileInfo against the object itself.
func facts(what string, fi os.FileInfo, n *kern.Node, name string) {
	if fi == nil {
		fail("info", "%s gives no FileInfo", what)
	}
	if n == nil {
		fail("untrue", "%s succeeds, but there is no such thing", what)
	}
	w := Want{Name: name, Dir: n.IsDir(), Mode: goMode(n), MTime: n.MTime, Data: n.Data}
	if n.IsLnk() {
		w.Data = []byte(n.Link)
	}
	if s := checkInfo(fi, w, true); s != "" {
		fail("info", "%s: %s", what, s)
	}
}

func base(sp spot, p string) string {
	if p == "/" {
		return path.Base(sp.dir)
	}
	return path.Base(p)
}

// step performs one drawn operation. kinds limits which.
func (m *dmach) step(kinds string) {
	k := kinds[sched.W(len(kinds))]
	sp, p := m.where()
	as := sp.spell(p)
	b := path.Join(sp.mirror, p)
	real := path.Join(sp.dir, p)
	var err error
	if strings.HasSuffix(p, ".go") || p == "/go.mod" {
		if k == 'c' {
			k = 'o' // the module itself stays as it is
		}
		if k == 'r' || k == 'R' {
			k = 's'
		}
	}
	switch k {
	case 'o', 'd', 'c': // Open, Dir.Open, Create
		var f pkging.File
		var refused error
		what := "Open(" + as + ")"
		var fired bool
		switch k {
		case 'o':
			fired = m.on(func() { f, err = pkger.Open(as) })
		case 'd':
			what = "Dir(" + as + ")"
			rel := "/"
			if l := world.List(sp.dir, p); len(l) > 0 && p != "/" {
				rel = strings.TrimPrefix(l[sched.W(len(l))], p)
			}
			if rel == "" || sched.W(6) == 5 {
				rel = []string{"/", "/nothing", "/.", "", "//"}[sched.W(5)]
			}
			what += ".Open(" + rel + ")"
			var hf http.File
			fired = m.on(func() { hf, err = pkger.Dir(as).Open(rel) })
			if err == nil {
				f = hf.(pkging.File)
			}
			// the directory itself must be there, too
			if _, e := os.Stat(b); e != nil && err == nil {
				fail("untrue", "%s succeeds, %v", what, e)
			}
			top := b
			b = path.Join(b, rel)
			real = path.Join(real, rel)
			p = path.Join(p, rel)
			if hf, e := http.Dir(top).Open(rel); e == nil {
				hf.Close()
			} else if _, te := os.Stat(top); te == nil && os.IsNotExist(e) {
				refused = e
			}
		default:
			what = "Create(" + as + ")"
			fired = m.on(func() { f, err = pkger.Create(as) })
		}
		var g *os.File
		var e error
		if refused != nil {
			e = refused
		} else if k == 'c' {
			if !fired || err == nil {
				g, e = os.Create(b)
			}
		} else {
			g, e = os.Open(b)
		}
		m.outcome(what, fired, err, e)
		if err != nil {
			if g != nil {
				g.Close()
			}
			m.after(what, fired, err)
			return
		}
		n := kern.Follow(real)
		if n == nil {
			fail("untrue", "%s succeeds, but %s does not exist", what, real)
		}
		if f.Name() != sp.pkg+":"+p {
			fail("name", "%s gives a file named %s", what, f.Name())
		}
		h := &pair{a: f, b: g, sp: sp, p: p, node: n, dir: n.IsDir(), wr: k == 'c', listed: map[string]bool{}}
		m.open = append(m.open, h)
		m.after(what, fired, err)
	case 's':
		var fi os.FileInfo
		fired := m.on(func() { fi, err = pkger.Stat(as) })
		_, e := os.Stat(b)
		what := "Stat(" + as + ")"
		m.outcome(what, fired, err, e)
		if err == nil {
			facts(what, fi, kern.Follow(real), base(sp, p))
		}
	case 'm':
		perm := []os.FileMode{0755, 0700, 0777, 0500, 0750, 0}[sched.W(6)]
		for i := sched.W(3); i > 0; i-- {
			x := "a"
			if m.hot == "" || sched.W(2) == 0 {
				x = world.Name()
			}
			p, as, b = path.Join(p, x), as+"/"+x, b+"/"+x
		}
		fired := m.on(func() { err = pkger.MkdirAll(as, perm) })
		what := "MkdirAll(" + as + ")"
		if !fired || err == nil {
			m.outcome(what, fired, err, os.MkdirAll(b, perm))
		}
		m.after(what, fired, err)
	case 'r', 'R':
		op, osop, what := pkger.Remove, os.Remove, "Remove("+as+")"
		if k == 'R' {
			op, osop, what = pkger.RemoveAll, os.RemoveAll, "RemoveAll("+as+")"
		}
		if p == "/" || p == "/actions" {
			return
		}
		fired := m.on(func() { err = op(as) })
		if !fired || err == nil {
			m.outcome(what, fired, err, osop(b))
		}
		m.after(what, fired, err)
	case 'w':
		m.walk(sp, p, as)
	default:
		m.handle(k)
	}
}

// lstat finds what p is, without following it.
func lstat(p string) *kern.Node {
	if d := kern.Follow(path.Dir(p)); d != nil && d.IsDir() {
		return d.Get(path.Base(p))
	}
	return nil
}

// visit is one call of a walk's callback.
type visit struct {
	p   string
	fi  os.FileInfo
	err error
}

// walk compares a walk with filepath.Walk, callback decisions included.
func (m *dmach) walk(sp spot, p, as string) {
	seed := uint64(sched.W(1 << 16))
	stopErr := fmt.Errorf("stop")
	decide := func(rel string, err error) error {
		h := sched.NewRand(seed)
		for i := 0; i < len(rel); i++ {
			h = sched.NewRand(h.U64() ^ uint64(rel[i]))
		}
		switch h.Int(16) {
		case 0, 1:
			return filepath.SkipDir
		case 2:
			return stopErr
		case 3, 4:
			return err
		}
		return nil
	}
	var va, vb []visit
	var ea error
	seen := 0
	fired := m.on(func() {
		ea = pkger.Walk(as, func(q string, fi os.FileInfo, err error) error {
			if !strings.HasPrefix(q, sp.pkg+":/") {
				fail("walk", "Walk(%s) visits %q", as, q)
			}
			rel := path.Clean(strings.TrimPrefix(q, sp.pkg+":"))
			va = append(va, visit{rel, fi, err})
			if err != nil {
				seen++
			}
			return decide(rel, err)
		})
	})
	eb := filepath.Walk(path.Join(sp.mirror, p), func(q string, fi os.FileInfo, err error) error {
		rel := path.Clean("/" + strings.TrimPrefix(q, sp.mirror))
		vb = append(vb, visit{rel, fi, err})
		return decide(rel, err)
	})
	what := "Walk(" + as + ")"
	m.nops++
	if fired {
		m.fired++
		if ea != nil || seen > 0 {
			// what was visited is there
			for _, v := range va {
				n := lstat(path.Join(sp.dir, v.p))
				if v.err == nil && n == nil {
					fail("walk", "%s visits %s, which does not exist", what, v.p)
				}
			}
			return
		}
	}
	show := func(vs []visit) string {
		var b strings.Builder
		for _, v := range vs {
			b.WriteString(" " + v.p)
			if v.err != nil {
				b.WriteString("(" + class(v.err) + ")")
			}
		}
		return b.String()
	}
	if show(va) != show(vb) {
		fail("walk", "%s, faults: %v, visits%s; filepath.Walk visits%s", what, fired, show(va), show(vb))
	}
	if (ea == stopErr) != (eb == stopErr) || class(ea) != class(eb) {
		fail("walk", "%s returns %v, filepath.Walk %v", what, ea, eb)
	}
	for i, v := range va {
		if (v.fi == nil) != (vb[i].fi == nil) {
			fail("walk", "%s at %s: FileInfo %v, filepath.Walk has %v", what, v.p, v.fi, vb[i].fi)
		}
		if v.fi != nil {
			facts(what+" at "+v.p, v.fi, lstat(path.Join(sp.dir, v.p)), base(sp, v.p))
		}
	}
}

// handle uses an open file.
func (m *dmach) handle(k byte) {
	if len(m.open) == 0 {
		return
	}
	i := sched.W(len(m.open))
	h := m.open[i]
	name := h.sp.pkg + ":" + h.p
	var err error
	switch k {
	case 'x':
		fired := m.on(func() { err = h.a.Close() })
		e := h.b.Close()
		m.open = append(m.open[:i], m.open[i+1:]...)
		m.outcome("closing "+name, fired, err, e)
		m.after("closing "+name, fired, err)
	case 't':
		var fi os.FileInfo
		fired := m.on(func() { fi, err = h.a.Stat() })
		_, e := h.b.Stat()
		m.outcome("Stat of the open "+name, fired, err, e)
		if err == nil {
			facts("Stat of the open "+name, fi, h.node, base(h.sp, h.p))
		}
	case 'D':
		n := []int{-1, 0, 1, 2, 5}[sched.W(5)]
		var got []os.FileInfo
		fired := m.on(func() { got, err = h.a.Readdir(n) })
		want, e := h.b.Readdir(n)
		what := fmt.Sprintf("Readdir(%d) of %s", n, name)
		m.outcome(what, fired, err, e)
		if err == nil && len(got) != len(want) && (n <= 0 || len(got) > n || len(got) == 0) {
			fail("readdir", "%s gives %d entries, package os %d", what, len(got), len(want))
		}
		for _, fi := range got {
			c := h.node.Get(fi.Name())
			if c == nil {
				if _, e := os.Lstat(path.Join(h.sp.mirror, h.p, fi.Name())); e == nil {
					fail("readdir", "%s lists %s", what, fi.Name())
				}
				continue // it was removed since the directory was read
			}
			facts(what+" at "+fi.Name(), fi, c, fi.Name())
			if h.listed[fi.Name()] {
				fail("readdir", "%s lists %s again", what, fi.Name())
			}
			h.listed[fi.Name()] = true
		}
		if fired {
			m.drop(i)
		}
	case 'O':
		// below the open file
		rel := "/"
		if l := world.List(h.sp.dir, h.p); h.dir && len(l) > 1 {
			rel = strings.TrimPrefix(l[1+sched.W(len(l)-1)], strings.TrimSuffix(h.p, "/"))
		}
		switch sched.W(6) {
		case 4:
			rel = strings.TrimPrefix(rel, "/")
		case 5:
			rel = []string{"", "/nothing", ".", "//", "/x/y"}[sched.W(5)]
		}
		b := path.Join(h.sp.mirror, h.p, rel)
		var f pkging.File
		fired := m.on(func() {
			var hf http.File
			if hf, err = h.a.Open(rel); err == nil {
				f = hf.(pkging.File)
			}
		})
		g, e := os.Open(b)
		if errors.Is(e, syscall.ENOTDIR) && os.IsNotExist(err) {
			e = os.ErrNotExist // nothing is below a file, as http.Dir has it
		}
		what := fmt.Sprintf("Open(%q) of the open %s", rel, name)
		m.outcome(what, fired, err, e)
		if err != nil {
			if g != nil {
				g.Close()
			}
			return
		}
		p := path.Join(h.p, rel)
		n := kern.Follow(path.Join(h.sp.dir, p))
		if n == nil {
			fail("untrue", "%s succeeds, but there is no such file", what)
		}
		if f.Name() != h.sp.pkg+":"+p {
			fail("name", "%s gives a file named %s", what, f.Name())
		}
		m.open = append(m.open, &pair{a: f, b: g, sp: h.sp, p: p, node: n, dir: n.IsDir(), listed: map[string]bool{}})
	case 'e':
		off, wh := int64(sched.W(60)-20), sched.W(3)
		if h.dir {
			off, wh = 0, 0
			h.listed = map[string]bool{}
		}
		var got int64
		fired := m.on(func() { got, err = h.a.Seek(off, wh) })
		want, e := h.b.Seek(off, wh)
		what := fmt.Sprintf("Seek(%d, %d) of %s", off, wh, name)
		m.outcome(what, fired, err, e)
		if err == nil && got != want {
			fail("seek", "%s gives %d, package os %d", what, got, want)
		}
		if fired {
			m.drop(i)
		}
	case 'W':
		m.n++
		data := []byte(strings.Repeat(fmt.Sprintf("<%d>", m.n), 1+sched.W(30)))
		var got int
		fired := m.on(func() { got, err = h.a.Write(data) })
		what := fmt.Sprintf("writing %d bytes to %s", len(data), name)
		if !fired || err == nil {
			want, e := h.b.Write(data)
			m.outcome(what, fired, err, e)
			if got != want {
				fail("write", "%s writes %d, package os %d (%v)", what, got, want, err)
			}
		}
		m.after(what, fired, err)
	case 'q':
		n := []int{1, 3, 50, 600, 5000}[sched.W(5)]
		buf, buf2 := make([]byte, n), make([]byte, n)
		pos := int64(0)
		if !h.dir {
			pos, _ = h.b.Seek(0, io.SeekCurrent)
		}
		var got int
		fired := m.on(func() { got, err = h.a.Read(buf) })
		want, e := h.b.Read(buf2)
		what := fmt.Sprintf("reading %d bytes of %s at %d", n, name, pos)
		m.outcome(what, fired, err, e)
		if got < 0 || got > want && err == nil || err == nil && got == 0 || !bytes.Equal(buf[:max(0, got)], buf2[:max(0, got)]) {
			fail("read", "%s gives %s, package os %s", what, sum(buf[:max(0, got)]), sum(buf2[:want]))
		}
		if err == nil && got < want {
			h.b.Seek(pos+int64(got), io.SeekStart)
		}
		if fired && err != nil {
			m.drop(i)
		}
	}
}

// drop closes a pair whose positions may have come apart.
func (m *dmach) drop(i int) {
	h := m.open[i]
	m.on(func() { h.a.Close() })
	h.b.Close()
	m.open = append(m.open[:i], m.open[i+1:]...)
	if d := m.differs(); d != "" {
		m.closeAll()
		m.sync()
	}
}

// diskSample describes the run.
func (m *dmach) sample() string {
	return fmt.Sprintf("module of %d entries in disk mode, %d operations, %d of them struck by faults", len(world.List("/home/u/app", "/")), m.nops, m.fired)
}

// start makes the program find its module even if its first try failed.
func (m *dmach) locate() {
	m.faultsOff(func() {
		if _, err := pkger.Current(); err != nil {
			fail("locate", "the current module is not found although nothing fails: %v", err)
		}
	})
}

func (m *dmach) faultsOff(f func()) {
	f2 := m.faults
	m.faults = false
	f()
	m.faults = f2
}

// C11: in disk mode a result is either true or an error.
func init() {
	All["C11"] = func() {
		m := newDisk(true)
		m.paths = []string{"/", "/public", "/public/a", "/public/foo.txt", "/new", "/new/a", "/new/a/b", "/main.go", "/public/new.bin", "/assets", "/nothing/here"}
		for i, n := 0, 2+sched.W(14); i < n; i++ {
			m.step("oooodccsssmrRwwqqqqWWWDDDtxeO")
		}
		life.Res.Sample = m.sample()
		m.closeAll()
	}
}
