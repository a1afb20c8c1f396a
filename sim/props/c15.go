package props

import (
	"fmt"
	"io"
	"net/http"
	"os"
	"path"
	"strings"

	"a0sim/life"
	"a0sim/sched"
	"a0sim/world"

	"github.com/markbates/pkger"
	"github.com/markbates/pkger/pkging"
	"github.com/markbates/pkger/pkging/mem"
)

type readdirer interface {
	Readdir(int) ([]os.FileInfo, error)
	Close() error
}

// listing is a directory handle being read.
type kept struct {
	k  string
	fi os.FileInfo
}

type listing struct {
	kept []kept
	k    string
	f    readdirer
	left map[string]bool // entries still to come
	seen map[string]bool // passing entries that came
	end  bool            // nothing came in the last call
}

// C15: directories are read in pages.
func init() {
	All["C15"] = func() {
		var p pkging.Pkger
		ents := map[string]bool{}
		check := func(k string, fi os.FileInfo) string { return "" }
		if world.A != nil {
			q, want := loaded()
			for k, w := range want {
				ents[k] = w.Dir
			}
			check = func(k string, fi os.FileInfo) string { return checkInfo(fi, want[k], true) }
			p = q
			life.Res.Sample = sampleApp()
		} else {
			var q *mem.Pkger
			q, ents = grown(2 + sched.W(30))
			if sched.W(2) == 1 {
				b, err := q.MarshalJSON()
				if err != nil {
					fail("marshal", "serialising an idle package: %v", err)
				}
				q = &mem.Pkger{}
				if err := q.UnmarshalJSON(b); err != nil {
					fail("unmarshal", "loading a serialised package: %v", err)
				}
			}
			p = q
			info := map[string]os.FileInfo{}
			for k := range ents {
				fi, err := p.Stat(k)
				if err != nil {
					fail("stat", "Stat(%s): %v", k, err)
				}
				info[k] = fi
			}
			check = func(k string, fi os.FileInfo) string {
				if o := info[k]; fi.Name() != o.Name() || fi.IsDir() != o.IsDir() || fi.Size() != o.Size() || fi.Mode() != o.Mode() || !fi.ModTime().Equal(o.ModTime()) {
					return fmt.Sprintf("%v, not %v", fi, o)
				}
				return ""
			}
			life.Res.Sample = fmt.Sprintf("in-memory package of %d entries", len(ents))
		}
		applied := sched.W(3) == 2
		if applied {
			pkger.Apply(p, nil)
		}
		ks := entKeys(ents)
		var dirs, files []string
		kids := map[string][]string{}
		for _, k := range ks {
			if ents[k] {
				dirs = append(dirs, k)
			} else {
				files = append(files, k)
			}
			if d := parentKey(k); d != k {
				kids[d] = append(kids[d], k)
			}
		}
		if len(dirs) == 0 {
			life.Res.Trivial = true
			return
		}
		// what comes and goes while directories are read
		maybe := map[string]bool{}
		var come []string
		if q, ok := p.(*mem.Pkger); ok && sched.W(2) == 1 {
			for i, n := 0, sched.W(5); i < n; i++ {
				d := dirs[sched.W(len(dirs))]
				if _, err := q.Info(d[:strings.Index(d, ":")]); err != nil {
					continue
				}
				k := strings.TrimSuffix(d, "/") + "/" + []string{"0new", "newer", "zzz", "Mid", "!a"}[sched.W(5)]
				if _, ok := ents[k]; !ok && !maybe[k] {
					come, maybe[k] = append(come, k), true
				}
			}
		}
		listed := 0
		reader := func() func() {
			type op struct{ kind, a, b, c int }
			ops := make([]op, 4+sched.W(24))
			for i := range ops {
				ops[i] = op{sched.W(12), sched.W(1 << 16), sched.W(1 << 16), sched.W(1 << 16)}
			}
			// a reader with a fixed page size
			fixed := []int{0, 0, 1, 2, 3, 7}[sched.W(6)]
			return func() {
				var hs []*listing
				fresh := func(h *listing) {
					h.left, h.seen, h.end = map[string]bool{}, map[string]bool{}, false
					for _, k := range kids[h.k] {
						h.left[k] = true
					}
				}
				open := func(k string, how int, via *listing) *listing {
					var f readdirer
					var err error
					switch {
					case via != nil:
						f, err = via.f.(pkging.File).Open(strings.TrimPrefix(k, strings.TrimSuffix(via.k, "/")))
					case applied && how%3 == 1:
						f, err = pkger.Open(k)
					case applied && how%3 == 2:
						// below a directory above
						d := parentKey(k)
						if !ents[d] {
							d = k
						}
						var hf http.File
						hf, err = pkger.Dir(d).Open("/" + strings.TrimPrefix(strings.TrimPrefix(k, d), "/"))
						if err == nil {
							f = hf.(pkging.File)
						}
					default:
						f, err = p.Open(k)
					}
					if err != nil {
						fail("open", "opening %s: %v", k, err)
					}
					h := &listing{k: k, f: f}
					fresh(h)
					return h
				}
				read := func(h *listing, n int) {
					got, err := h.f.Readdir(n)
					what := fmt.Sprintf("Readdir(%d) of %s", n, h.k)
					listed++
					if n <= 0 && err != nil {
						fail("readdir", "%s: %v", what, err)
					}
					if n > 0 {
						switch {
						case len(got) > n:
							fail("readdir", "%s gives %d entries", what, len(got))
						case len(got) == 0 && err != io.EOF:
							fail("readdir", "%s gives nothing and %v, not io.EOF", what, err)
						case len(got) > 0 && err != nil:
							fail("readdir", "%s gives %d entries and %v", what, len(got), err)
						case len(got) > 0 && h.end:
							fail("readdir", "%s gives %d entries after the end", what, len(got))
						case len(got) == 0:
							h.end = true
						}
					}
					for _, fi := range got {
						k := strings.TrimSuffix(h.k, "/") + "/" + fi.Name()
						if maybe[k] {
							if h.seen[k] {
								fail("readdir", "%s lists %s again", what, fi.Name())
							}
							h.seen[k] = true
							continue
						}
						if !h.left[k] {
							fail("readdir", "%s lists %q, which is not there or was listed before", what, fi.Name())
						}
						delete(h.left, k)
						if s := check(k, fi); s != "" {
							fail("readdir", "%s lists %s with %s", what, fi.Name(), s)
						}
						h.kept = append(h.kept, kept{k, fi})
					}
					// the page is the caller's to do with as it likes
					for i := range got {
						got[i] = nil
					}
					got = append(got, nil, nil)
					if n <= 0 {
						h.end = true
					}
					if h.end && len(h.left) > 0 {
						fail("readdir", "%s ends without %s", what, strings.Join(entKeys(h.left), " "))
					}
				}
				for _, o := range ops {
					var h *listing
					if len(hs) > 0 {
						h = hs[o.b%len(hs)]
					}
					switch {
					case h == nil || o.kind < 2:
						hs = append(hs, open(dirs[o.a%len(dirs)], o.c, nil))
					case o.kind == 2:
						// a directory below an open one
						var below []string
						for _, d := range dirs {
							if strings.HasPrefix(d, strings.TrimSuffix(h.k, "/")+"/") || d == h.k {
								below = append(below, d)
							}
						}
						hs = append(hs, open(below[o.a%len(below)], 0, h))
					case o.kind == 3 && len(files) > 0:
						k := files[o.a%len(files)]
						f, err := p.Open(k)
						if err != nil {
							fail("open", "opening %s: %v", k, err)
						}
						if got, err := f.Readdir(o.c%3 - 1); err == nil || err == io.EOF || len(got) > 0 {
							fail("readdir", "Readdir of the file %s gives %d entries, %v", k, len(got), err)
						}
						f.Close()
					case o.kind == 4:
						if err := h.f.Close(); err != nil {
							fail("close", "closing %s: %v", h.k, err)
						}
						i := o.b % len(hs)
						hs = append(hs[:i], hs[i+1:]...)
					case o.kind == 5:
						fi, err := h.f.(pkging.File).Stat()
						if err != nil || !fi.IsDir() {
							fail("stat", "Stat of the open %s: %v, %v", h.k, fi, err)
						}
					case o.kind == 6 && o.a%3 == 0:
						// once more from the start
						if n, err := h.f.(pkging.File).Seek(0, io.SeekStart); n != 0 || err != nil {
							fail("rewind", "rewinding %s: %d, %v", h.k, n, err)
						}
						fresh(h)
					default:
						n := fixed
						if n == 0 {
							n = []int{-1, 0, 1, 1, 2, 3, 5, 100, 1 << 30}[o.c%9]
						}
						read(h, n)
					}
				}
				for i, h := range hs {
					for !h.end {
						read(h, []int{1, 2, 0}[i%3])
					}
					read(h, 1)
					read(h, -1)
					h.f.Close()
					for _, x := range h.kept {
						if s := check(x.k, x.fi); s != "" {
							fail("readdir", "what Readdir of %s gave for %s has become %s", h.k, x.k, s)
						}
					}
				}
			}
		}
		exp := expectPoints()
		var fs []func()
		nr := 1 + sched.W(3)
		for i := 0; i < nr; i++ {
			fs = append(fs, reader())
		}
		if len(come) > 0 {
			type op struct {
				kind int
				k    string
			}
			var ops []op
			for j, c := 0, 1+sched.W(8); j < c; j++ {
				ops = append(ops, op{sched.W(4), come[sched.W(len(come))]})
			}
			fs = append(fs, func() {
				for _, o := range ops {
					switch o.kind {
					case 0:
						if f, err := p.Create(o.k); err == nil {
							f.Close()
						}
					case 1:
						p.MkdirAll(o.k+"/below", 0755)
					case 2:
						p.Remove(o.k)
					case 3:
						p.RemoveAll(o.k)
					}
				}
			})
		}
		runTasks(exp, fs...)
		stat("readdir", int64(listed))
		life.Res.Sample += fmt.Sprintf(", %d readers, %d pages, %d entries coming and going", nr, listed, len(come))
	}
}

var _ = path.Join
