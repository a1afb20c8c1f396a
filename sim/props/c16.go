package props

import (
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"path"
	"sort"
	"strings"
	"time"

	"a0sim/kern"
	"a0sim/life"
	"a0sim/sched"
	"a0sim/world"

	"github.com/markbates/pkger"
	"github.com/markbates/pkger/pkging"
)

// request is one HTTP request with the answer it must get.
type request struct {
	method, p string
	hdr       map[string]string
	left      int // an aborting client takes this much
	want      *httptest.ResponseRecorder
}

func (r request) String() string {
	s := fmt.Sprintf("%s %q", r.method, r.p)
	var hs []string
	for k, v := range r.hdr {
		hs = append(hs, k+": "+v)
	}
	sort.Strings(hs)
	for _, h := range hs {
		s += ", " + h
	}
	if r.left >= 0 {
		s += fmt.Sprintf(", aborted after %d bytes", r.left)
	}
	return s
}

func answer(r *httptest.ResponseRecorder) string {
	s := fmt.Sprintf("status %d", r.Code)
	var hs []string
	for k, v := range r.HeaderMap {
		hs = append(hs, k+": "+strings.Join(v, "|"))
	}
	sort.Strings(hs)
	for _, h := range hs {
		s += ", " + h
	}
	b := r.Body.Bytes()
	s += ", body " + sum(b)
	if len(b) < 200 {
		s += fmt.Sprintf(" %q", b)
	}
	return s
}

// judge compares an answer with the one due.
func (r request) judge(what string, got *httptest.ResponseRecorder) {
	g, w := answer(got), answer(r.want)
	if r.left >= 0 {
		// what the client took
		b := r.want.Body.Bytes()
		if len(b) > r.left {
			b = b[:r.left]
		}
		if string(b) != got.Body.String() {
			fail("http", "%s, %s: the client got %s of the body, %s is due", what, r, sum(got.Body.Bytes()), sum(b))
		}
		return
	}
	if g != w {
		fail("http", "%s, %s: answered with %s; http.Dir gives %s", what, r, g, w)
	}
}

// requests draws requests for a directory with the given entries (relative,
// with a leading slash), served from the mirror.
func drawRequest(rel []string, mirror string) request {
	p := "/"
	if len(rel) > 0 && sched.W(8) < 7 {
		p = rel[sched.W(len(rel))]
	}
	n := kern.Look(path.Join(mirror, p))
	if n != nil && n.IsDir() && sched.W(4) > 0 && p != "/" {
		p += "/"
	}
	switch sched.W(16) {
	case 8:
		p += "/"
	case 9:
		p = strings.TrimSuffix(p, "/") + "/index.html"
	case 10:
		p = "/" + p
	case 11:
		p = strings.TrimSuffix(p, "/") + "/../" + path.Base(p)
	case 12:
		p += []string{"x", "/x", "/..", "/.", "\\..\\", "%20", " ", ".html", "?", "/nothing/at/all"}[sched.W(10)]
	case 13:
		p = []string{"", "..", "/../..", "/..\\secret.txt", "/..\\..\\main.go", "/nothing", "/index.html", "/./", "//", "/\\", "/app:/public", "/:", "/public/foo.txt", "/etc/passwd"}[sched.W(14)]
	}
	r := request{method: []string{"GET", "GET", "GET", "HEAD"}[sched.W(4)], p: p, hdr: map[string]string{}, left: -1}
	mt := time.Unix(1_550_000_000, 0)
	size := 10
	if n != nil {
		mt = time.Unix(0, n.MTime)
		size = len(n.Data)
	}
	date := func() string {
		return mt.Add(time.Duration([]int{0, -1, 1, -86400, 86400}[sched.W(5)]) * time.Second).UTC().Format(http.TimeFormat)
	}
	ranges := func() string {
		switch sched.W(8) {
		case 0:
			return "bytes=0-"
		case 1:
			return "bytes=0-0"
		case 2:
			return fmt.Sprintf("bytes=%d-%d", sched.W(size+3), sched.W(size+5))
		case 3:
			return fmt.Sprintf("bytes=-%d", sched.W(size+3))
		case 4:
			return fmt.Sprintf("bytes=%d-", size-1+sched.W(3))
		case 5:
			return []string{"bytes=x-y", "bytes=5", "rows=1-2", "bytes=", "bytes=-", "bytes=--1"}[sched.W(6)]
		}
		return "bytes=2-9"
	}
	switch sched.W(12) {
	case 4, 5, 6:
		r.hdr["Range"] = ranges()
	case 7:
		r.hdr["If-Modified-Since"] = date()
	case 8:
		r.hdr["If-Unmodified-Since"] = date()
	case 9:
		r.hdr["Range"], r.hdr["If-Range"] = ranges(), date()
	case 10:
		r.hdr[[]string{"If-None-Match", "If-Match"}[sched.W(2)]] = []string{"*", `"tag"`}[sched.W(2)]
	case 11:
		r.hdr["Range"], r.hdr["If-Modified-Since"] = ranges(), date()
	}
	if sched.W(6) == 5 {
		r.left = sched.W(2*size + 20)
	}
	return r
}

// C16: serving over HTTP.
func init() {
	All["C16"] = func() {
		warm()
		type site struct {
			what string
			h    http.Handler
			fs   http.FileSystem
			rel  []string
			dir  string
		}
		var sites []site
		var cmd []string // the command that serves, if any
		packed := world.A.Pkgs != nil
		if packed {
			p, want := loaded()
			kern.Del("/mirror")
			var dirs []string
			for _, k := range sortedKeys(want) {
				w := want[k]
				q := "/mirror/" + strings.Replace(k, ":", "", 1)
				if w.Dir {
					kern.Mkdir(q, 0755)
					dirs = append(dirs, k)
				} else {
					kern.Put(q, 0644, w.MTime, w.Data)
				}
			}
			for _, k := range dirs {
				kern.Look("/mirror/" + strings.Replace(k, ":", "", 1)).MTime = want[k].MTime
			}
			if len(dirs) == 0 {
				life.Res.Trivial = true
				return
			}
			applied := sched.W(2) == 1
			if applied {
				pkger.Apply(p, nil)
			}
			for i, n := 0, 1+sched.W(2); i < n; i++ {
				d := dirs[sched.W(len(dirs))]
				s := site{dir: "/mirror/" + strings.Replace(d, ":", "", 1)}
				for _, k := range under(want, d) {
					s.rel = append(s.rel, "/"+strings.TrimPrefix(strings.TrimPrefix(k, d), "/"))
				}
				as := d
				if strings.HasPrefix(d, world.A.Mod+":") && sched.W(2) == 1 {
					as = strings.TrimPrefix(d, world.A.Mod+":")
				}
				if applied && sched.W(2) == 1 {
					s.what = fmt.Sprintf("Dir(%s)", as)
					s.fs = pkger.Dir(as)
				} else {
					var op func(string) (pkging.File, error) = p.Open
					if applied {
						op = pkger.Open
					}
					f, err := op(as)
					if err != nil {
						fail("open", "Open(%s): %v", as, err)
					}
					s.what = fmt.Sprintf("the opened %s", as)
					s.fs = f
				}
				s.h = http.FileServer(s.fs)
				sites = append(sites, s)
			}
		} else {
			m := newDisk(false)
			for i, n := 0, 1+sched.W(2); i < n; i++ {
				sp := m.spots[sched.W(len(m.spots))]
				var dirs []string
				for _, q := range world.List(sp.dir, "/") {
					if nd := kern.Look(sp.dir + q); nd.IsDir() {
						dirs = append(dirs, path.Clean("/"+q))
					}
				}
				d := dirs[sched.W(len(dirs))]
				s := site{dir: path.Join(sp.mirror, d)}
				for _, q := range world.List(path.Join(sp.dir, d), "/") {
					s.rel = append(s.rel, path.Clean("/"+q))
				}
				as := sp.spell(d)
				if i == 0 && n == 1 && sched.W(4) == 3 {
					cmd = []string{"serve", as}
					if sp.dir == world.A.Dir && d == "/" && sched.W(2) == 1 {
						cmd = [][]string{{"serve"}, {"serve", "."}}[sched.W(2)]
					}
					s.what = "pkger " + strings.Join(cmd, " ")
				} else if sched.W(2) == 1 {
					f, err := pkger.Open(as)
					if err != nil {
						fail("open", "Open(%s): %v", as, err)
					}
					s.what, s.fs = fmt.Sprintf("the directory %s opened on disk", as), f
				} else {
					s.what, s.fs = fmt.Sprintf("Dir(%s) on disk", as), pkger.Dir(as)
				}
				if s.fs != nil {
					s.h = http.FileServer(s.fs)
				}
				sites = append(sites, s)
			}
		}
		// names opened directly lead where http.Dir leads
		look := func(f http.File, err error) string {
			if err != nil {
				return class(err)
			}
			defer f.Close()
			fi, err := f.Stat()
			if err != nil {
				return "Stat: " + class(err)
			}
			if fi.IsDir() {
				return "a directory"
			}
			b, err := io.ReadAll(f)
			return fmt.Sprintf("%s of %d bytes, %s, %v", fi.Name(), fi.Size(), sum(b), err)
		}
		for i, n := 0, sched.W(4); i < n && cmd == nil; i++ {
			s := sites[sched.W(len(sites))]
			q := []string{"", "/", "..", "../", "/..", "a/..", ".", "./"}[sched.W(8)]
			for j := sched.W(3); j > 0; j-- {
				q += []string{"/..", "/.", "/", "/x/..", "/../.."}[sched.W(5)]
			}
			t := "/" + []string{"main.go", "go.mod", "public", "public/foo.txt", "web", "etc/passwd", "index.html"}[sched.W(7)]
			if len(s.rel) > 0 && sched.W(2) == 1 {
				t = s.rel[sched.W(len(s.rel))]
			}
			if d := path.Base(path.Clean(s.dir)); sched.W(4) == 3 {
				t = "/../" + d + t // as if from above
			}
			q += t
			got, want := look(s.fs.Open(q)), look(http.Dir(s.dir).Open(q))
			if got != want {
				fail("open", "%s: Open(%q) is %s, http.Dir has %s", s.what, q, got, want)
			}
		}
		nt, all := 1+sched.W(4), 0
		work := func() {
			exp := expectPoints()
			var fs []func()
			for t := 0; t < nt; t++ {
				var rs []request
				var ss []site
				for i, n := 0, 1+sched.W(6); i < n; i++ {
					s := sites[sched.W(len(sites))]
					r := drawRequest(s.rel, s.dir)
					if nd := kern.Look(path.Join(s.dir, r.p)); packed && nd != nil && nd.IsDir() && len(r.p) > 250 {
						continue
					}
					r.want = serve(http.FileServer(http.Dir(s.dir)), r.method, r.p, r.hdr, -1)
					rs, ss = append(rs, r), append(ss, s)
					all++
				}
				fs = append(fs, func() {
					for i, r := range rs {
						got := serve(ss[i].h, r.method, r.p, r.hdr, r.left)
						sched.NoteS(answer(got))
						r.judge(ss[i].what, got)
					}
				})
			}
			runTasks(exp, fs...)
		}
		if cmd == nil {
			work()
		} else {
			up := false
			clients = func(h http.Handler) {
				up = true
				sites[0].h = h
				work()
			}
			err, panicked := tryCli(cmd...)
			clients = nil
			if !up || panicked != "" {
				fail("serve", "%s does not serve: %v %s", sites[0].what, err, panicked)
			}
			stat("served", 1)
		}
		stat("requests", int64(all))
		where := "in disk mode"
		if packed {
			where = "packed"
		}
		life.Res.Sample = fmt.Sprintf("%s %s: %d requests by %d clients of %d directories", world.A.Mod, where, all, nt, len(sites))
	}
}
