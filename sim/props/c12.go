package props

import (
	"errors"
	"fmt"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"path"
	"sort"
	"strings"

	"a0sim/kern"
	"a0sim/life"
	"a0sim/sched"
	"a0sim/world"

	"github.com/markbates/pkger"
)

// client is the far end of an HTTP response; it may go away in the middle.
type client struct {
	*httptest.ResponseRecorder
	left int // bytes it still takes, -1: all
}

func (c *client) Write(b []byte) (int, error) {
	if c.left < 0 {
		return c.ResponseRecorder.Write(b)
	}
	n := min(len(b), c.left)
	c.left -= n
	m, _ := c.ResponseRecorder.Write(b[:n])
	if n < len(b) {
		return m, errors.New("write: broken pipe")
	}
	return m, nil
}

// serve sends a request to a handler.
func serve(h http.Handler, method, p string, hdr map[string]string, left int) *httptest.ResponseRecorder {
	r := &http.Request{Method: method, URL: &url.URL{Path: p}, Header: http.Header{}, Host: "h", Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1}
	for k, v := range hdr {
		r.Header.Set(k, v)
	}
	c := &client{httptest.NewRecorder(), left}
	h.ServeHTTP(c, r)
	return c.ResponseRecorder
}

// leaks lists the descriptors that are still open.
func leaks() []string {
	var out []string
	for _, fd := range kern.K.FDs {
		s := fd.Path
		if fd.Tag != "" {
			s += " (opened by " + fd.Tag + ")"
		}
		out = append(out, s)
	}
	sort.Strings(out)
	return out
}

func noLeaks(when string) {
	if l := leaks(); len(l) > 0 {
		fail("leak", "%s these files are still open: %s", when, strings.Join(l, ", "))
	}
}

// C12: no descriptor is left open.
func init() {
	All["C12"] = func() {
		if world.A.Pkgs != nil {
			noLeaks("when the program has started")
			// the commands, as a program that embeds them might run them
			var did []string
			for i, n := 0, 1+sched.W(3); i < n; i++ {
				name, args := command()
				kern.K.Tag = "pkger " + strings.Join(args, " ")
				clients = nil
				if sched.W(2) == 1 {
					all := append(world.List(world.A.Dir, "/"), "/nothing")
					clients = func(h http.Handler) {
						for i := sched.W(4); i > 0; i-- {
							p := "/" + strings.TrimPrefix(all[sched.W(len(all))], "/")
							left := -1
							if sched.W(3) == 2 {
								left = sched.W(300)
							}
							held := len(kern.K.FDs)
							serve(h, "GET", p, nil, left)
							if len(kern.K.FDs) != held {
								fail("leak", "pkger %s: after GET %s these files are open: %s", strings.Join(args, " "), p, strings.Join(leaks(), ", "))
							}
						}
					}
				}
				sched.T.FaultsOn = true
				err, _ := tryCli(args...)
				clients = nil
				sched.T.FaultsOn = false
				did = append(did, name)
				noLeaks(fmt.Sprintf("after pkger %s (%v)", strings.Join(args, " "), err))
				if kern.Look(kern.K.Cwd) == nil {
					break
				}
			}
			life.Res.Sample = sampleApp() + ", " + strings.Join(did, ", ")
			return
		}
		noLeaks("when the program has started")
		m := newDisk(true)
		m.paths = []string{"/", "/public", "/public/a", "/public/foo.txt", "/new", "/new/a", "/main.go", "/assets", "/nothing/here"}
		reqs := 0
		for i, n := 0, 1+sched.W(10); i < n; i++ {
			if sched.W(4) == 3 {
				sp, p := m.where()
				as := sp.spell(p)
				rel := "/"
				if l := world.List(sp.dir, p); len(l) > 0 {
					rel = path.Clean("/" + strings.TrimPrefix(l[sched.W(len(l))], p))
				}
				if n := kern.Look(path.Join(sp.dir, p, rel)); n != nil && n.IsDir() && sched.W(4) > 0 {
					rel = strings.TrimSuffix(rel, "/") + "/"
				}
				kern.K.Tag = "GET " + rel + " of " + as
				meth := []string{"GET", "HEAD"}[sched.W(2)]
				left := -1
				if sched.W(4) == 3 {
					left = sched.W(300)
				}
				hdr := map[string]string{}
				if sched.W(3) == 2 {
					hdr["Range"] = "bytes=2-9"
				}
				held := len(kern.K.FDs)
				m.on(func() { serve(http.FileServer(pkger.Dir(as)), meth, rel, hdr, left) })
				if len(kern.K.FDs) != held {
					fail("leak", "after %s these files are open: %s", kern.K.Tag, strings.Join(leaks(), ", "))
				}
				reqs++
				continue
			}
			kern.K.Tag = fmt.Sprintf("operation %d", i+1)
			held, hs := len(kern.K.FDs), len(m.open)
			m.step("oooodddccsmrRwwwwDDDqWtxO")
			if len(m.open) == hs && len(kern.K.FDs) != held {
				fail("leak", "operation %d has ended, and these files are open: %s", i+1, strings.Join(leaks(), ", "))
			}
		}
		kern.K.Tag = ""
		life.Res.Sample = m.sample() + fmt.Sprintf(", %d requests", reqs)
		m.closeAll()
		noLeaks("after all files were closed")
	}
}

var _ = os.Open
