package props

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"

	"a0sim/life"
	"a0sim/sched"
	"a0sim/world"

	"github.com/markbates/pkger/pkging"
	"github.com/markbates/pkger/pkging/mem"
)

// walkOrder sorts keys the way filepath.Walk visits them.
func walkOrder(ks []string) {
	sort.Slice(ks, func(a, b int) bool {
		return strings.ReplaceAll(ks[a], "/", "\x00") < strings.ReplaceAll(ks[b], "/", "\x00")
	})
}

// under lists the wanted keys at and below root in walk order.
func under(want map[string]Want, root string) []string {
	var ks []string
	for k := range want {
		if k == root || strings.HasPrefix(k, strings.TrimSuffix(root, "/")+"/") {
			ks = append(ks, k)
		}
	}
	walkOrder(ks)
	return ks
}

// direct lists the wanted direct entries of a directory, in name order.
func direct(want map[string]Want, dir string) []string {
	var ks []string
	for k := range want {
		if k != dir && parentKey(k) == dir {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	return ks
}

func parentKey(k string) string {
	i := strings.Index(k, ":")
	return k[:i+1] + path.Dir(k[i+1:])
}

// missing draws a key that is not in the package.
func missingKey(want map[string]Want, ks []string) string {
	k := ks[sched.W(len(ks))]
	cands := []string{k + "x", k + "/nothing", k[:len(k)-1], strings.ToUpper(k), world.A.Mod + ":/nothing"}
	k = cands[sched.W(len(cands))]
	if i := strings.Index(k, ":"); i < 0 || !strings.HasPrefix(k[i+1:], "/") || path.Clean(k[i+1:]) != k[i+1:] {
		k = world.A.Mod + ":/nothing"
	}
	if _, ok := want[strings.TrimSpace(k)]; ok {
		return world.A.Mod + ":/no/such"
	}
	return k
}

// rdr is one open file of a reader with what it must do next.
type rdr struct {
	f    pkging.File
	k    string
	w    Want
	off  int64
	dir  []os.FileInfo
	left []string // entries still to come
	any  bool     // the directory listing has begun
}

// reader performs n random reads of the package, checking every answer against
// a private copy.
func reader(p pkging.Pkger, want map[string]Want, n int) func() {
	ks := sortedKeys(want)
	type op struct{ kind, a, b, c int }
	// the workload is drawn beforehand: what is read does not depend on the schedule
	ops := make([]op, n)
	for i := range ops {
		ops[i] = op{sched.W(16), sched.W(1 << 16), sched.W(1 << 16), sched.W(1 << 16)}
	}
	miss := missingKey(want, ks)
	return func() {
		var hs []*rdr
		var closed []pkging.File // to be closed once more
		open := func(k string, via *rdr) {
			w := want[k]
			var f pkging.File
			var err error
			if via == nil {
				f, err = p.Open(k)
			} else {
				hf, e := via.f.Open("/" + strings.TrimPrefix(strings.TrimPrefix(k, via.k), "/"))
				err = e
				if e == nil {
					f = hf.(pkging.File)
				}
			}
			if err != nil {
				fail("open", "Open(%s): %v", k, err)
			}
			if f.Name() != k {
				fail("open", "Open(%s) gives a file named %s", k, f.Name())
			}
			hs = append(hs, &rdr{f: f, k: k, w: w, left: direct(want, k)})
		}
		for _, o := range ops {
			k := ks[o.a%len(ks)]
			w := want[k]
			var h *rdr
			if len(hs) > 0 {
				h = hs[o.b%len(hs)]
			}
			switch {
			case o.kind < 3 || h == nil:
				open(k, nil)
			case o.kind == 3: // through another file
				if h.w.Dir {
					u := under(want, h.k)
					open(u[o.a%len(u)], h)
				}
			case o.kind == 4:
				fi, err := p.Stat(k)
				if err != nil {
					fail("stat", "Stat(%s): %v", k, err)
				}
				if s := checkInfo(fi, w, true); s != "" {
					fail("stat", "Stat(%s): %s", k, s)
				}
			case o.kind == 5:
				fi, err := h.f.Stat()
				if err != nil {
					fail("stat", "Open(%s).Stat: %v", h.k, err)
				}
				if s := checkInfo(fi, h.w, true); s != "" {
					fail("stat", "Open(%s).Stat: %s", h.k, s)
				}
			case o.kind == 6:
				if _, err := p.Open(miss); !os.IsNotExist(err) {
					fail("missing", "Open(%s), which does not exist: %v", miss, err)
				}
				if _, err := p.Stat(miss); !os.IsNotExist(err) {
					fail("missing", "Stat(%s), which does not exist: %v", miss, err)
				}
			case o.kind == 7 && len(closed) > 0 && o.c%2 == 0:
				closed[0].Close()
				closed = closed[1:]
			case o.kind == 7:
				if w.Dir {
					checkWalk(p, want, k, o.b%4 == 3)
				}
			case o.kind == 8 && o.c%3 == 0:
				if err := h.f.Close(); err != nil {
					fail("close", "closing %s: %v", h.k, err)
				}
				if o.c%2 == 0 {
					// a deferred Close after an explicit one
					if o.a%2 == 0 {
						h.f.Close()
					} else {
						closed = append(closed, h.f)
					}
				}
				hs = append(hs[:o.b%len(hs)], hs[o.b%len(hs)+1:]...)
			case h.w.Dir && o.kind == 9 && o.c%3 == 0:
				if n, err := h.f.Read(make([]byte, 8)); n != 0 || err == nil || err == io.EOF {
					fail("read", "reading the directory %s gives %d bytes, %v", h.k, n, err)
				}
			case !h.w.Dir && o.kind == 9 && o.c%5 == 0:
				if l, err := h.f.Readdir(o.c%3 - 1); len(l) != 0 || err == nil || err == io.EOF {
					fail("readdir", "Readdir of the file %s gives %d entries, %v", h.k, len(l), err)
				}
			case h.w.Dir:
				h.list([]int{-1, 0, 1, 2, 3, 100}[o.c%6])
			case o.kind < 12:
				h.seek(o.c)
			default:
				h.read([]int{1, 2, 7, 100, 512, 5000, 70000}[o.c%7])
			}
		}
		for _, h := range hs {
			if h.w.Dir {
				h.list(0)
			} else {
				h.read(70000)
			}
			h.f.Close()
		}
		for _, f := range closed {
			f.Close()
		}
	}
}

func (h *rdr) read(n int) {
	b := make([]byte, n)
	got, err := h.f.Read(b)
	if got < 0 || got > n {
		fail("read", "reading %d bytes of %s returns %d", n, h.k, got)
	}
	left := int64(len(h.w.Data)) - h.off
	if left < 0 {
		left = 0
	}
	if int64(got) > left || !bytes.Equal(b[:got], h.w.Data[min64(h.off, int64(len(h.w.Data))):min64(h.off, int64(len(h.w.Data)))+int64(got)]) {
		fail("read", "reading %d bytes of %s (%d bytes) at %d gives %s: not what is there", n, h.k, len(h.w.Data), h.off, sum(b[:got]))
	}
	h.off += int64(got)
	switch {
	case err == io.EOF:
		if h.off < int64(len(h.w.Data)) {
			fail("read", "reading %s reports its end at %d, it has %d bytes", h.k, h.off, len(h.w.Data))
		}
	case err != nil:
		fail("read", "reading %s: %v", h.k, err)
	case got == 0:
		fail("read", "reading %d bytes of %s at %d returns nothing and no error", n, h.k, h.off)
	}
}

func min64(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}

func (h *rdr) seek(c int) {
	size := int64(len(h.w.Data))
	var off int64
	var to int64
	whence := c % 3
	switch whence {
	case io.SeekStart:
		to = int64(c/3) % (size + 4)
		off = to
	case io.SeekCurrent:
		to = int64(c/3) % (size + 2)
		off = to - h.off
	default:
		to = int64(c/3) % (size + 3)
		off = to - size
	}
	if c%11 == 0 { // before the start
		off = -1 - size*4 - h.off
		if whence == io.SeekStart {
			off = -1
		}
		if _, err := h.f.Seek(off, whence); err == nil {
			fail("seek", "seeking %s before its start succeeds", h.k)
		}
		return
	}
	got, err := h.f.Seek(off, whence)
	if err != nil || got != to {
		fail("seek", "Seek(%d, %d) of %s (%d bytes) at %d gives %d, %v, not %d", off, whence, h.k, size, h.off, got, err, to)
	}
	h.off = to
}

func (h *rdr) list(n int) {
	got, err := h.f.Readdir(n)
	want := h.w
	_ = want
	if n > 0 {
		if len(h.left) == 0 {
			if len(got) != 0 || err != io.EOF {
				fail("readdir", "Readdir(%d) at the end of %s gives %d entries, %v, not io.EOF", n, h.k, len(got), err)
			}
			return
		}
		if err != nil {
			fail("readdir", "Readdir(%d) of %s: %v", n, h.k, err)
		}
		if len(got) == 0 || len(got) > n {
			fail("readdir", "Readdir(%d) of %s gives %d entries", n, h.k, len(got))
		}
	} else {
		if err != nil {
			fail("readdir", "Readdir(%d) of %s: %v", n, h.k, err)
		}
		if len(got) != len(h.left) {
			fail("readdir", "Readdir(%d) of %s gives %d entries, %d are left", n, h.k, len(got), len(h.left))
		}
	}
	for _, fi := range got {
		k := strings.TrimSuffix(h.k, "/") + "/" + fi.Name()
		at := -1
		for i, l := range h.left {
			if l == k {
				at = i
			}
		}
		if at < 0 {
			fail("readdir", "Readdir(%d) of %s lists %q, which is not there or was listed before", n, h.k, fi.Name())
		}
		h.left = append(append([]string(nil), h.left[:at]...), h.left[at+1:]...)
		if s := checkInfo(fi, cur7[k], true); s != "" {
			fail("readdir", "Readdir of %s lists %q with %s", h.k, fi.Name(), s)
		}
	}
}

// cur7 is what the package under test holds.
var cur7 map[string]Want

// checkWalk compares a walk with the wanted entries; it may stop on the way.
func checkWalk(p pkging.Pkger, want map[string]Want, root string, stop bool) {
	exp := under(want, root)
	at := 0
	halt := fmt.Errorf("enough")
	err := p.Walk(root, func(q string, fi os.FileInfo, err error) error {
		if err != nil {
			fail("walk", "Walk(%s) reports %v at %s", root, err, q)
		}
		if at >= len(exp) || exp[at] != q {
			w := "nothing more"
			if at < len(exp) {
				w = exp[at]
			}
			fail("walk", "Walk(%s) visits %s, where %s comes next", root, q, w)
		}
		if s := checkInfo(fi, want[q], true); s != "" {
			fail("walk", "Walk(%s) at %s: %s", root, q, s)
		}
		at++
		if stop && at > len(exp)/2 {
			return halt
		}
		return nil
	})
	if stop {
		if err != halt {
			fail("walk", "Walk(%s) returns %v, not its callback's error", root, err)
		}
		return
	}
	if err != nil {
		fail("walk", "Walk(%s): %v", root, err)
	}
	if at != len(exp) {
		fail("walk", "Walk(%s) ends after %d entries, before %s", root, at, exp[at])
	}
}

var _ = filepath.SkipDir

// loaded packs the module and loads the result as the application would.
func loaded() (*mem.Pkger, map[string]Want) {
	want := wants(world.A.Expect())
	cur7 = want
	if sched.W(5) == 4 {
		return packLive(), want
	}
	p, err := mem.UnmarshalEmbed(packPayload())
	if err != nil {
		unpackable("unmarshal: %v", err)
	}
	return p, want
}

// C07: concurrent readers.
func init() {
	All["C07"] = func() {
		life.Res.Sample = sampleApp()
		p, want := loaded()
		exp := expectPoints()
		n := 2 + sched.W(3)
		var fs []func()
		for i := 0; i < n; i++ {
			fs = append(fs, reader(p, want, 3+sched.W(12)))
		}
		runTasks(exp, fs...)
		stat("readers", int64(n))
		if code, msg := holds(p, want, true); code != "" {
			fail(code, "afterwards: %s", msg)
		}
	}
}
