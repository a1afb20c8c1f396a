package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"os"
	"path"
	"path/filepath"
	"strings"

	"a0sim/goemu"
	"a0sim/kern"
	"a0sim/life"
	"a0sim/sched"
	"a0sim/world"

	"github.com/markbates/pkger"
	"github.com/markbates/pkger/here"
	"github.com/markbates/pkger/pkging"
	"github.com/markbates/pkger/pkging/mem"
)

// Shipped is a program on its way to the machine it will run on.
type Shipped struct {
	World   world.State
	Wants   map[string]Want
	Payload []byte
}

// ruin changes the machine the program runs on.
func ruin() string {
	a := world.A
	roots := []string{a.Dir}
	for _, m := range []string{a.Dep, a.Dep2} {
		if m != "" {
			roots = append(roots, a.Deps()[m])
		}
	}
	switch sched.Env("ruin", 6) {
	case 0:
		return "nothing changed"
	case 1:
		for _, r := range roots {
			kern.Del(r)
		}
		if kern.Look(kern.K.Cwd) == nil {
			kern.K.Cwd = "/"
		}
		return "the sources were removed"
	case 2:
		for _, r := range roots {
			kern.Each(r, func(p string, n *kern.Node) {
				if n.IsReg() && !strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "go.mod") {
					n.Data = []byte("other contents of " + p)
					n.MTime = 77e9
					n.Mode ^= 0111
				}
			})
		}
		return "the sources were changed"
	case 3:
		for _, r := range roots {
			kern.Each(r, func(p string, n *kern.Node) { n.Mode &^= 0777 })
		}
		return "the sources became unreadable"
	case 4:
		kern.Del("/sim/bin/go")
		return "the go command is missing"
	}
	kern.Del("/home")
	kern.Del("/sim")
	kern.K.Cwd = "/"
	return "the program runs on another machine"
}

// C18: an embedded package needs nothing but itself.
func init() {
	All["C18"] = func() {
		if life.Req.State == nil {
			s := Shipped{Wants: wants(world.A.Expect())}
			s.Payload = packPayload()
			s.World = world.Save()
			b, err := json.Marshal(s)
			if err != nil {
				life.Broken("%v", err)
			}
			life.Res.Sample = sampleApp()
			life.Res.Next = b
			return
		}
		var s Shipped
		if err := json.Unmarshal(life.Req.State, &s); err != nil {
			life.Broken("%v", err)
		}
		warm()
		sched.T.FaultsOn = true // every call into the system may fail
		loadedFrom := append([]byte(nil), s.Payload...)
		calls, cmds := kern.K.Calls, goemu.Total()
		m, err := mem.UnmarshalEmbed(loadedFrom)
		if err != nil {
			fail("load", "the payload is refused: %v", err)
		}
		for i := range loadedFrom {
			loadedFrom[i] = 'z' // the buffer is used for other things
		}
		applied := sched.W(2) == 1
		var p pkging.Pkger = m
		if applied {
			if err := pkger.Apply(m, nil); err != nil {
				fail("apply", "Apply: %v", err)
			}
			p = facade{}
		}
		// what the package holds now; changed entries have no known time
		now := map[string]Want{}
		for k, w := range s.Wants {
			now[k] = w
		}
		quiet := func(what string) {
			if kern.K.Calls != calls || goemu.Total() != cmds {
				fail("system", "%s calls into the system: %d system calls, %d commands", what, kern.K.Calls-calls, goemu.Total()-cmds)
			}
		}
		quiet("loading the package")
		info := func(what string, fi os.FileInfo, w Want) {
			if w.MTime == changed {
				if fi.Name() != w.Name || fi.IsDir() != w.Dir || !w.Dir && fi.Size() != int64(len(w.Data)) {
					fail("info", "%s gives %s, dir %v, %d bytes; it is %s, dir %v, %d bytes", what, fi.Name(), fi.IsDir(), fi.Size(), w.Name, w.Dir, len(w.Data))
				}
				return
			}
			if e := checkInfo(fi, w, true); e != "" {
				fail("info", "%s: %s", what, e)
			}
		}
		type handle struct {
			f   pkging.File
			k   string
			w   Want
			off int
		}
		var hs []*handle
		ruined := []string{life.Res.Sample}
		ks0 := sortedKeys(s.Wants)
		writes := 0
		for i, n := 0, 4+sched.W(30); i < n; i++ {
			ks := sortedKeys(now)
			if len(ks) == 0 {
				break
			}
			k := ks[sched.W(len(ks))]
			w := now[k]
			what := ""
			switch op := sched.W(20); op {
			case 0, 1, 2, 3:
				what = "Open(" + k + ")"
				f, err := p.Open(k)
				if err != nil {
					fail("open", "%s: %v", what, err)
				}
				fi, err := f.Stat()
				if err != nil {
					fail("open", "%s.Stat: %v", what, err)
				}
				info(what+".Stat", fi, w)
				hs = append(hs, &handle{f: f, k: k, w: w})
			case 4:
				what = "Stat(" + k + ")"
				fi, err := p.Stat(k)
				if err != nil {
					fail("stat", "%s: %v", what, err)
				}
				info(what, fi, w)
			case 5, 6, 7, 8:
				if len(hs) == 0 {
					continue
				}
				h := hs[sched.W(len(hs))]
				if h.w.Dir {
					what = "Readdir of " + h.k
					fis, err := h.f.Readdir([]int{-1, 0, 1, 3}[sched.W(4)])
					if err != nil && err != io.EOF {
						fail("readdir", "%s: %v", what, err)
					}
					for i := range fis {
						fis[i] = nil // the caller's slice
					}
					break
				}
				what = "reading " + h.k
				buf := make([]byte, []int{1, 10, 600, 70000}[sched.W(4)])
				got, err := h.f.Read(buf)
				if err != nil && err != io.EOF {
					fail("read", "%s: %v", what, err)
				}
				if !bytes.Equal(buf[:got], h.w.Data[h.off:h.off+got]) || err == io.EOF && h.off+got < len(h.w.Data) {
					fail("read", "%s at %d gives %s, %v", what, h.off, sum(buf[:got]), err)
				}
				h.off += got
				for i := range buf {
					buf[i] = 0xEE // the caller's buffer
				}
			case 9:
				what = "Walk(" + k + ")"
				exp := under(now, k)
				at := 0
				err := p.Walk(k, func(q string, fi os.FileInfo, err error) error {
					if err != nil || at >= len(exp) || exp[at] != q {
						fail("walk", "%s visits %s (%v), entry %d of %s", what, q, err, at, strings.Join(exp, " "))
					}
					info(what+" at "+q, fi, now[q])
					at++
					return nil
				})
				if err != nil || at != len(exp) {
					fail("walk", "%s visits %d entries of %d, %v", what, at, len(exp), err)
				}
			case 10:
				if !applied || !w.Dir {
					continue
				}
				what = "serving " + k
				rel := under(now, k)
				q := rel[sched.W(len(rel))]
				if now[q].Dir || path.Base(q) == "index.html" {
					continue
				}
				r := serve(http.FileServer(pkger.Dir(k)), "GET", "/"+strings.TrimPrefix(strings.TrimPrefix(q, k), "/"), nil, -1)
				if r.Code != 200 || !bytes.Equal(r.Body.Bytes(), now[q].Data) {
					fail("serve", "serving %s answers %d with %s", q, r.Code, sum(r.Body.Bytes()))
				}
			case 11:
				what = "a name that is not there"
				mk := missingKey(now, ks)
				if _, err := p.Open(mk); !os.IsNotExist(err) {
					fail("missing", "Open(%s), which does not exist: %v", mk, err)
				}
				if _, err := p.Stat(mk); !os.IsNotExist(err) {
					fail("missing", "Stat(%s), which does not exist: %v", mk, err)
				}
			case 12:
				if sched.W(2) == 1 {
					what = "asking about a package it knows nothing of"
					u := []string{"example.com/other", "net/http", "example.com/dep/x", "unknown"}[sched.W(4)]
					at := u + ":/" + []string{"", "go.mod", "doc.go", "a/b.txt"}[sched.W(4)]
					switch sched.W(7) {
					case 0, 1:
						if in, err := p.Info(u); err == nil {
							fail("info", "Info(%s), which is not in the package, gives %+v", u, in)
						}
					case 2:
						if _, err := p.Open(at); !os.IsNotExist(err) {
							fail("missing", "Open(%s): %v", at, err)
						}
					case 3:
						if _, err := p.Stat(at); !os.IsNotExist(err) {
							fail("missing", "Stat(%s): %v", at, err)
						}
					case 4:
						p.Walk(at, func(q string, fi os.FileInfo, err error) error {
							if fi != nil {
								fail("missing", "Walk(%s) visits %s", at, q)
							}
							return err
						})
					case 5:
						if _, err := p.Create(at); err == nil {
							fail("create", "Create(%s), in a package that is not there, succeeds", at)
						}
					case 6:
						p.Remove(at)
						p.RemoveAll(at)
					}
					break
				}
				what = "Current, Info and Parse"
				if c, err := p.Current(); err != nil || c.Module.Path != world.A.Mod {
					fail("current", "Current: %q, %v", c.Module.Path, err)
				}
				mod := world.A.Mod
				if in, err := p.Info(mod); err != nil || in.ImportPath != mod {
					fail("info", "Info(%s): %q, %v", mod, in.ImportPath, err)
				}
				if pt, err := p.Parse(k); err != nil || pt.String() != k {
					fail("parse", "Parse(%s): %s, %v", k, pt, err)
				}
			case 13:
				what = "ruin"
				r := ruin()
				ruined = append(ruined, r)
				life.Log("%s", r)
			case 14: // writing to a handle opened for reading
				if len(hs) == 0 {
					continue
				}
				j := sched.W(len(hs))
				h := hs[j]
				what = "writing to the opened " + h.k
				writes++
				h.f.Write([]byte("scribble"))
				h.f.Close()
				hs = append(hs[:j], hs[j+1:]...)
			case 15, 16: // replacing a file
				if d := parentKey(k); w.Dir || !strings.HasPrefix(k, world.A.Mod+":") || !has(now, d) && !strings.HasSuffix(d, ":/") {
					continue
				}
				what = "creating " + k
				f, err := p.Create(k)
				if err != nil {
					fail("create", "%s: %v", what, err)
				}
				writes++
				data := []byte(strings.Repeat(fmt.Sprintf("new %d ", i), 1+sched.W(20)))
				if _, err := f.Write(data); err != nil {
					fail("create", "writing to the new %s: %v", k, err)
				}
				if err := f.Close(); err != nil {
					fail("create", "closing the new %s: %v", k, err)
				}
				now[k] = Want{Name: w.Name, Data: append([]byte(nil), data...), MTime: changed}
				for i := range data {
					data[i] = 'Q' // the caller's buffer
				}
				if root := k[:strings.Index(k, ":")] + ":/"; !has(now, root) {
					now[root] = Want{Name: nameOf(p, root), Dir: true, MTime: changed}
				}
			case 17:
				if w.Dir {
					continue
				}
				what = "Remove(" + k + ")"
				if err := p.Remove(k); err != nil {
					fail("remove", "%s: %v", what, err)
				}
				writes++
				delete(now, k)
			case 18:
				if sched.W(3) > 0 {
					continue
				}
				what = "RemoveAll(" + k + ")"
				if err := p.RemoveAll(k); err != nil {
					fail("remove", "%s: %v", what, err)
				}
				writes++
				for _, q := range under(now, k) {
					delete(now, q)
				}
			case 19:
				// the same data again
				what = "loading the payload again"
				m2, err := mem.UnmarshalEmbed(append([]byte(nil), s.Payload...))
				if err != nil {
					fail("load", "%s: %v", what, err)
				}
				k := ks0[sched.W(len(ks0))]
				fi, err := m2.Stat(k)
				if err != nil {
					fail("load", "Stat(%s) after %s: %v", k, what, err)
				}
				if e := checkInfo(fi, s.Wants[k], true); e != "" {
					fail("load", "Stat(%s) after %s: %s", k, what, e)
				}
			}
			if what != "ruin" && what != "" {
				quiet(what)
			}
			calls, cmds = kern.K.Calls, goemu.Total()
		}
		// what handles read is what was there when they were opened
		for _, h := range hs {
			if !h.w.Dir {
				b, err := readAll(h.f, 700)
				if err != nil || !bytes.Equal(b, h.w.Data[h.off:]) {
					fail("read", "the rest of %s from %d is %s, %v, not %s", h.k, h.off, sum(b), err, sum(h.w.Data[h.off:]))
				}
			}
			h.f.Close()
		}
		for _, k := range sortedKeys(now) {
			w := now[k]
			f, err := p.Open(k)
			if err != nil {
				fail("open", "at the end, Open(%s): %v", k, err)
			}
			if !w.Dir {
				b, err := readAll(f, 700)
				if err != nil || !bytes.Equal(b, w.Data) {
					fail("read", "at the end, %s holds %s, %v, not %s", k, sum(b), err, sum(w.Data))
				}
			}
			f.Close()
		}
		quiet("reading everything")
		stat("writes", int64(writes))
		life.Res.Sample = fmt.Sprintf("%d packed entries, %d changes, %s", len(s.Wants), writes, strings.Join(ruined[1:], ", "))
	}
}

const changed = -2

func has(m map[string]Want, k string) bool { _, ok := m[k]; return ok }

// facade is what package pkger offers.
type facade struct{}

func (facade) Parse(p string) (here.Path, error)         { return pkger.Parse(p) }
func (facade) Current() (here.Info, error)               { return pkger.Current() }
func (facade) Info(p string) (here.Info, error)          { return pkger.Info(p) }
func (facade) Create(p string) (pkging.File, error)      { return pkger.Create(p) }
func (facade) MkdirAll(p string, perm os.FileMode) error { return pkger.MkdirAll(p, perm) }
func (facade) Open(p string) (pkging.File, error)        { return pkger.Open(p) }
func (facade) Stat(p string) (os.FileInfo, error)        { return pkger.Stat(p) }
func (facade) Walk(p string, f filepath.WalkFunc) error  { return pkger.Walk(p, f) }
func (facade) Remove(p string) error                     { return pkger.Remove(p) }
func (facade) RemoveAll(p string) error                  { return pkger.RemoveAll(p) }

func nameOf(p pkging.Pkger, k string) string {
	fi, err := p.Stat(k)
	if err != nil {
		fail("stat", "Stat(%s): %v", k, err)
	}
	return fi.Name()
}
