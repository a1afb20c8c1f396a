package props

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"

	"a0sim/kern"
	"a0sim/life"
	"a0sim/sched"
	"a0sim/world"

	"github.com/markbates/pkger"
	"github.com/markbates/pkger/pkging"
	"github.com/markbates/pkger/pkging/mem"
	"github.com/markbates/pkger/pkging/pkgutil"
)

var errStop = errors.New("stop here")

// decisions is what a callback answers, by path.
type decisions struct {
	seed uint64
	skip int // in 16
	stop int
}

func drawDecisions() decisions {
	return decisions{uint64(sched.W(1 << 16)), []int{0, 1, 3, 8}[sched.W(4)], []int{0, 0, 1}[sched.W(3)]}
}

func (d decisions) on(k string) error {
	h := d.seed
	for i := 0; i < len(k); i++ {
		h = sched.Mix(h ^ uint64(k[i]))
	}
	switch n := int(h % 16); {
	case n < d.skip:
		return filepath.SkipDir
	case n < d.skip+d.stop:
		return errStop
	}
	return nil
}

// refWalk is filepath.Walk over a set of keys (value: whether it is a
// directory). Directories that are not in the set are passed through.
func refWalk(ents map[string]bool, root string, decide func(string) error) (visits []string, err error) {
	var walk func(k string) error
	walk = func(k string) error {
		dir, ok := ents[k]
		if ok {
			visits = append(visits, k)
			if err := decide(k); err != nil {
				return err
			}
		} else {
			dir = true
		}
		if !dir {
			return nil
		}
		pre := strings.TrimSuffix(k, "/") + "/"
		kids := map[string]bool{}
		for e := range ents {
			if strings.HasPrefix(e, pre) && e != k {
				kids[strings.SplitN(e[len(pre):], "/", 2)[0]] = true
			}
		}
		var names []string
		for n := range kids {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			if err := walk(pre + n); err != nil {
				if d, ok := ents[pre+n]; ok && !d || err != filepath.SkipDir {
					return err
				}
			}
		}
		return nil
	}
	if err = walk(root); err == filepath.SkipDir {
		err = nil
	}
	return
}

// walked compares one walk with the reference. Entries that are not in ents
// may come and go: they must be in maybe.
func walked(what string, walk func(filepath.WalkFunc) error, ents map[string]bool, maybe map[string]bool, root string, d decisions, look func(k string, fi os.FileInfo)) {
	want, wantErr := refWalk(ents, root, d.on)
	var got []string
	last, seen := "", map[string]bool{}
	order := func(k string) string { return strings.ReplaceAll(k, "/", "\x00") }
	err := walk(func(k string, fi os.FileInfo, err error) error {
		sched.NoteS(k)
		if seen[k] {
			fail("walk", "%s visits %s again", what, k)
		}
		seen[k] = true
		if last != "" && order(k) < order(last) {
			fail("walk", "%s visits %s after %s", what, k, last)
		}
		last = k
		if _, ok := ents[k]; !ok {
			if !maybe[k] {
				fail("walk", "%s visits %s, which was never there", what, k)
			}
			if err == nil && fi.Name() != path.Base(k[strings.Index(k, ":")+1:]) {
				fail("walk", "%s at %s hands out the FileInfo of %q", what, k, fi.Name())
			}
			return nil
		}
		if err != nil {
			fail("walk", "%s reports an error at %s, which is there: %v", what, k, err)
		}
		got = append(got, k)
		look(k, fi)
		return d.on(k)
	})
	for i := range got {
		if i >= len(want) || got[i] != want[i] {
			fail("walk", "%s visits %s, filepath.Walk would visit %s", what, strings.Join(got, " "), strings.Join(want, " "))
		}
	}
	if len(got) != len(want) {
		fail("walk", "%s ends before %s (visited %s)", what, want[len(got)], strings.Join(got, " "))
	}
	if err != wantErr {
		fail("walk", "%s returns %v, not %v", what, err, wantErr)
	}
}

// grown makes an in-memory package with a tree of its own.
func grown(n int) (*mem.Pkger, map[string]bool) {
	p, err := mem.New(freshInfo())
	if err != nil {
		fail("new", "New: %v", err)
	}
	ents := map[string]bool{"app:/": true}
	if err := p.MkdirAll("/", 0755); err != nil {
		fail("mkdir", "MkdirAll(/): %v", err)
	}
	dirs := []string{"/"}
	for i := 0; i < n; i++ {
		d := dirs[sched.W(len(dirs))]
		if len(dirs) > 1 && sched.W(3) > 0 {
			d = dirs[len(dirs)-1]
		}
		q := path.Join(d, []string{"a", "ab", "a b", "a-b", "a.b", "b", "A", "z", "a~", "été", "+", "a0"}[sched.W(12)])
		if _, ok := ents["app:"+q]; ok || len(q) > 24 {
			continue
		}
		if sched.W(2) == 0 {
			if err := p.MkdirAll(q, 0755); err != nil {
				fail("mkdir", "MkdirAll(%s): %v", q, err)
			}
			ents["app:"+q] = true
			dirs = append(dirs, q)
			continue
		}
		putMem(p, q, fmt.Sprintf("file %d", i))
		ents["app:"+q] = false
	}
	return p, ents
}

func putMem(p pkging.Pkger, q, data string) {
	f, err := p.Create(q)
	if err != nil {
		fail("create", "Create(%s): %v", q, err)
	}
	f.Write([]byte(data))
	if err := f.Close(); err != nil {
		fail("close", "closing %s: %v", q, err)
	}
}

func entKeys(m map[string]bool) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// dumped compares what pkgutil.Dump writes with the entries of the package.
func dumped(p pkging.Pkger, ents, maybe map[string]bool, look func(k string, fi os.FileInfo)) {
	var out bytes.Buffer
	if err := pkgutil.Dump(&out, p); err != nil {
		fail("dump", "Dump: %v", err)
	}
	var d struct {
		Info  struct{ Module struct{ Path string } }
		Paths map[string]*pkging.FileInfo
	}
	if err := json.Unmarshal(out.Bytes(), &d); err != nil {
		fail("dump", "Dump writes no JSON: %v", err)
	}
	mod := "app"
	if world.A != nil {
		mod = world.A.Mod
	}
	if d.Info.Module.Path != mod {
		fail("dump", "Dump writes module %q", d.Info.Module.Path)
	}
	for k := range d.Paths {
		if _, ok := ents[k]; !ok && !maybe[k] {
			fail("dump", "Dump lists %s, which was never there", k)
		}
	}
	for _, k := range entKeys(ents) {
		if !strings.HasPrefix(k, mod+":") {
			continue
		}
		fi := d.Paths[k]
		if fi == nil {
			fail("dump", "Dump does not list %s", k)
		}
		look(k, fi)
	}
}

// busyWalk walks an in-memory package while it changes.
func busyWalk() {
	p, ents := grown(2 + sched.W(24))
	if sched.W(2) == 1 {
		b, err := p.MarshalJSON()
		if err != nil {
			fail("marshal", "serialising an idle package: %v", err)
		}
		p = &mem.Pkger{}
		if err := p.UnmarshalJSON(b); err != nil {
			fail("unmarshal", "loading a serialised package: %v", err)
		}
	}
	info := map[string]os.FileInfo{}
	for k := range ents {
		fi, err := p.Stat(k)
		if err != nil {
			fail("stat", "Stat(%s): %v", k, err)
		}
		info[k] = fi
	}
	ks := entKeys(ents)
	var dirs []string
	for _, k := range ks {
		if ents[k] {
			dirs = append(dirs, k)
		}
	}
	// what comes and goes
	maybe := map[string]bool{}
	var come []string
	for i, n := 0, sched.W(8); i < n; i++ {
		k := strings.TrimSuffix(dirs[sched.W(len(dirs))], "/") + "/" + []string{"a0x", "aa", "a!", "zz", "B", "ab-", "a.b.c"}[sched.W(7)]
		if _, ok := ents[k]; ok || maybe[k] {
			continue
		}
		come = append(come, k)
		maybe[k] = true
		for _, x := range []string{"/t", "/t/u", "/s"} {
			maybe[k+x] = true
		}
	}
	var fs []func()
	nw := 1 + sched.W(3)
	for i := 0; i < nw; i++ {
		root := ks[sched.W(len(ks))]
		if sched.W(2) == 0 {
			root = dirs[sched.W(len(dirs))]
		}
		d := drawDecisions()
		rounds := 1 + sched.W(2)
		nested := sched.W(4) == 3
		as := root
		if sched.W(2) == 1 {
			as = strings.TrimPrefix(root, "app:")
		}
		fs = append(fs, func() {
			for r := 0; r < rounds; r++ {
				walked("Walk("+as+")", func(f filepath.WalkFunc) error { return p.Walk(as, f) }, ents, maybe, root, d, func(k string, fi os.FileInfo) {
					if o := info[k]; fi == nil || fi.Name() != o.Name() || fi.IsDir() != o.IsDir() || fi.Size() != o.Size() || fi.Mode() != o.Mode() || !fi.ModTime().Equal(o.ModTime()) {
						fail("walk", "Walk(%s) at %s hands out %v, not %v", as, k, fi, o)
					}
					if nested {
						// a callback may use the package
						if _, err := p.Stat(k); err != nil {
							fail("walk", "Stat(%s) in the callback of Walk(%s): %v", k, as, err)
						}
						n := 0
						p.Walk(k, func(string, os.FileInfo, error) error { n++; return filepath.SkipDir })
						if n != 1 {
							fail("walk", "Walk(%s) in a callback visits %d entries before SkipDir", k, n)
						}
						if len(come) > 0 {
							p.RemoveAll(come[0])
						}
					}
				})
			}
		})
	}
	if sched.W(4) == 3 {
		fs = append(fs, func() {
			dumped(p, ents, maybe, func(k string, fi os.FileInfo) {
				if o := info[k]; fi.Name() != o.Name() || fi.IsDir() != o.IsDir() || fi.Size() != o.Size() || fi.Mode() != o.Mode() || !fi.ModTime().Equal(o.ModTime()) {
					fail("dump", "Dump says %v at %s, not %v", fi, k, o)
				}
			})
		})
	}
	for i, n := 0, sched.W(3); i < n && len(come) > 0; i++ {
		type op struct {
			kind int
			k    string
		}
		var ops []op
		for j, c := 0, 1+sched.W(8); j < c; j++ {
			ops = append(ops, op{sched.W(5), come[sched.W(len(come))]})
		}
		fs = append(fs, func() {
			for _, o := range ops {
				switch o.kind {
				case 0:
					if f, err := p.Create(o.k); err == nil {
						f.Write([]byte("passing"))
						f.Close()
					}
				case 1:
					p.MkdirAll(o.k+"/t/u", 0755)
				case 2:
					p.Remove(o.k)
				case 3:
					p.RemoveAll(o.k)
				case 4:
					if f, err := p.Create(o.k + "/s"); err == nil {
						f.Close()
					}
				}
			}
		})
	}
	exp := expectPoints()
	runTasks(exp, fs...)
	life.Res.Sample = fmt.Sprintf("in-memory package of %d entries, %d walkers, %d entries coming and going", len(ents), nw, len(come))
}

// packedWalk walks a packed module.
func packedWalk() {
	p, want := loaded()
	ents := map[string]bool{}
	for k, w := range want {
		ents[k] = w.Dir
	}
	ks := entKeys(ents)
	n := 1 + sched.W(8)
	for i := 0; i < n; i++ {
		root := ks[sched.W(len(ks))]
		switch sched.W(4) {
		case 2:
			root = parentKey(root)
		case 3:
			root = root[:strings.Index(root, ":")+1] + "/"
		}
		walked("Walk("+root+")", func(f filepath.WalkFunc) error { return p.Walk(root, f) }, ents, nil, root, drawDecisions(), func(k string, fi os.FileInfo) {
			if s := checkInfo(fi, want[k], true); s != "" {
				fail("walk", "Walk(%s) at %s: %s", root, k, s)
			}
		})
	}
	if sched.W(4) == 3 {
		dumped(p, ents, nil, func(k string, fi os.FileInfo) {
			if s := checkInfo(fi, want[k], true); s != "" {
				fail("dump", "Dump at %s: %s", k, s)
			}
		})
	}
	stat("walks", int64(n))
	life.Res.Sample = sampleApp() + fmt.Sprintf(", %d walks", n)
}

// diskWalk walks directories while other goroutines change them.
func diskWalk() {
	warm()
	if _, err := pkger.Stat("/public"); err != nil {
		fail("stat", "Stat(/public): %v", err)
	}
	dir := "/home/u/app/public"
	ents := map[string]bool{}
	nodes := map[string]*kern.Node{}
	var dirs []string
	kern.Each(dir, func(p string, n *kern.Node) {
		k := "app:" + strings.TrimPrefix(p, "/home/u/app")
		ents[k] = n.IsDir()
		nodes[k] = n
		if n.IsDir() && n.Mode&0200 != 0 {
			dirs = append(dirs, k)
		}
	})
	maybe := map[string]bool{}
	var come []string
	for i, n := 0, 1+sched.W(6); i < n && len(dirs) > 0; i++ {
		k := dirs[sched.W(len(dirs))] + "/" + []string{"a0x", "aa", "a!", "zz", "Q", "ab-", "a.b.d"}[sched.W(7)]
		if _, ok := ents[k]; ok || maybe[k] {
			continue
		}
		come = append(come, k)
		maybe[k], maybe[k+"/t"] = true, true
	}
	onDisk := func(k string) string { return "/home/u/app" + strings.TrimPrefix(k, "app:") }
	var fs []func()
	for i, n := 0, 1+sched.W(2); i < n; i++ {
		d := drawDecisions()
		as := []string{"/public", "app:/public", "/public/"}[sched.W(3)]
		fs = append(fs, func() {
			walked("Walk("+as+")", func(f filepath.WalkFunc) error { return pkger.Walk(as, f) }, ents, maybe, "app:/public", d, func(k string, fi os.FileInfo) {
				n := nodes[k]
				w := Want{Name: path.Base(onDisk(k)), Dir: n.IsDir(), Mode: goMode(n), MTime: n.MTime, Data: n.Data}
				if s := checkInfo(fi, w, false); s != "" {
					fail("walk", "Walk(%s) at %s: %s", as, k, s)
				}
			})
		})
	}
	for i, n := 0, 1+sched.W(2); i < n && len(come) > 0; i++ {
		type op struct {
			kind int
			k    string
		}
		var ops []op
		for j, c := 0, 1+sched.W(8); j < c; j++ {
			ops = append(ops, op{sched.W(4), come[sched.W(len(come))]})
		}
		fs = append(fs, func() {
			for _, o := range ops {
				switch o.kind {
				case 0:
					if f, err := os.Create(onDisk(o.k)); err == nil {
						f.Close()
					}
				case 1:
					os.MkdirAll(onDisk(o.k)+"/t", 0755)
				case 2:
					os.Remove(onDisk(o.k))
				case 3:
					os.RemoveAll(onDisk(o.k))
				}
			}
		})
	}
	exp := expectPoints()
	runTasks(exp, fs...)
	life.Res.Sample = fmt.Sprintf("directory of %d entries on disk, %d entries coming and going", len(ents), len(come))
}

// C14: Walk is filepath.Walk.
func init() {
	All["C14"] = func() {
		switch {
		case world.A == nil:
			busyWalk()
		case world.A.Pkgs != nil:
			packedWalk()
		case !sched.T.FaultsOn && sched.W(4) == 3:
			diskWalk()
		default:
			m := newDisk(true)
			m.paths = []string{"/", "/public", "/assets", "/public/foo.txt", "/nothing", "/actions"}
			for i, n := 0, 1+sched.W(8); i < n; i++ {
				m.step("wwwwwwcmR")
			}
			m.closeAll()
			life.Res.Sample = m.sample()
		}
	}
}
