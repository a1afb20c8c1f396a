package props

import (
	"fmt"
	"path"
	"sort"
	"strings"

	"a0sim/kern"
	"a0sim/life"
	"a0sim/sched"
	"a0sim/world"

	"github.com/markbates/pkger/pkging/mem"
)

// others are the programs that change the declared files while pkger packs
// them: editors and generators that replace files as a whole, create, remove
// and rename them.
type others struct {
	exp      map[string]Want    // what is declared when the pack begins
	versions map[string][]*Want // what else a path has been; nil: nothing
	abs      map[string]string  // key to path
	gone     bool               // something is not there any more
	acts     []act
	calls    int
	seen     map[string]int // calls about a path
	did      []string
	n        int
}

type act struct {
	kind   int
	key    string
	touch  int // after that many calls about the path
	at     int // or the call before which it happens
	closed bool
}

// disturb plans the changes.
func disturb(exp map[string]Want) *others {
	o := &others{exp: exp, versions: map[string][]*Want{}, abs: map[string]string{}, seen: map[string]int{}}
	deps := world.A.Deps()
	var files []string
	for k, w := range exp {
		i := strings.Index(k, ":")
		root := world.A.Dir
		if k[:i] != world.A.Mod {
			root = deps[k[:i]]
		}
		o.abs[k] = path.Join(root, k[i+1:])
		if !w.Dir && !strings.HasSuffix(k, ".go") && !strings.HasSuffix(k, "go.mod") {
			files = append(files, k)
		}
	}
	sort.Strings(files)
	if len(files) == 0 {
		return o
	}
	for n := 1 + sched.Env("others", 3); n > 0; n-- {
		a := act{kind: sched.Env("others do", 6), key: files[sched.Env("others to", len(files))], touch: -1, at: -1}
		if sched.Env("others when", 4) > 0 {
			a.touch = 1 + sched.Env("others after", 8)
		} else {
			a.at = sched.Env("others at", 500)
		}
		o.acts = append(o.acts, a)
	}
	return o
}

func (o *others) step() {
	o.calls++
	o.seen[kern.K.Last]++
	kern.K.Last = ""
	for i := range o.acts {
		a := &o.acts[i]
		if !a.closed && (a.touch > 0 && o.seen[o.abs[a.key]] >= a.touch || a.at >= 0 && o.calls > a.at) {
			a.closed = true
			o.do(*a)
		}
	}
}

func (o *others) do(a act) {
	p := o.abs[a.key]
	old := kern.Look(p)
	if old == nil {
		return
	}
	o.n++
	mtime := kern.K.Clock + int64(o.n)
	say := func(f string, x ...interface{}) {
		o.did = append(o.did, fmt.Sprintf(f, x...))
		life.Log("OTHERS: %s", o.did[len(o.did)-1])
		sched.T.Fired["others"]++
	}
	// the directory has another time
	touch := func(k string) {
		i := strings.LastIndex(k, "/")
		if i == strings.Index(k, ":")+1 {
			i++
		}
		if w, ok := o.exp[k[:i]]; ok {
			w.MTime = -1
			o.exp[k[:i]] = w
		}
	}
	fresh := func(k string, data []byte) {
		q := path.Join(path.Dir(p), path.Base(k))
		n := kern.Put(q, 0644, mtime, data)
		o.versions[k] = append(o.versions[k], nil, &Want{Name: path.Base(k), Mode: goMode(n), MTime: mtime, Data: data})
		o.abs[k] = q
		touch(k)
	}
	// what lies beside a file is embedded if its directory is
	whole := func() bool {
		i := strings.LastIndex(a.key, "/")
		if i == strings.Index(a.key, ":")+1 {
			i++
		}
		_, ok := o.exp[a.key[:i]]
		return ok
	}
	switch a.kind {
	case 0, 1, 2:
		data := append([]byte(fmt.Sprintf("version %d ", o.n)), old.Data...)
		if a.kind == 1 && len(old.Data) > 1 {
			data = append([]byte(nil), old.Data[:len(old.Data)/2]...)
		}
		m := old.Mode & 07777
		if a.kind == 2 {
			m ^= 0011
		}
		dir := kern.Look(path.Dir(p))
		kern.Del(p)
		n := kern.Put(p, m, mtime, data)
		dir.MTime = mtime
		o.versions[a.key] = append(o.versions[a.key], &Want{Name: path.Base(a.key), Mode: goMode(n), MTime: mtime, Data: data})
		touch(a.key)
		say("%s is replaced by %d bytes", p, len(data))
	case 3:
		kern.Del(p)
		o.versions[a.key] = append(o.versions[a.key], nil)
		o.gone = true
		touch(a.key)
		say("%s is removed", p)
	case 4:
		k := path.Dir(a.key) + fmt.Sprintf("/new-%d", o.n)
		if strings.HasSuffix(path.Dir(a.key), ":/") || strings.HasSuffix(path.Dir(a.key), ":") {
			k = a.key[:strings.Index(a.key, ":")] + fmt.Sprintf(":/new-%d", o.n)
		}
		fresh(k, []byte("new"))
		if !whole() {
			o.versions[k] = []*Want{nil}
		}
		say("%s is created", o.abs[k])
	case 5:
		k := a.key + "-old"
		fresh(k, old.Data)
		if !whole() {
			o.versions[k] = []*Want{nil}
		}
		kern.Del(p)
		o.versions[a.key] = append(o.versions[a.key], nil)
		o.gone = true
		say("%s is renamed to %s", p, o.abs[k])
	}
}

// resolve settles, for each path that changed, on the version the package
// holds; it is one that was there.
func (o *others) resolve(p *mem.Pkger) {
	direct := map[string]bool{}
	for _, d := range world.A.Decls {
		direct[d.Mod+":"+d.Name] = true
	}
	for _, c := range world.A.Calls {
		if c.Fn == "Create" {
			delete(direct, world.A.Mod+":"+c.Arg) // the program makes it
		}
	}
	var keys []string
	for k := range o.versions {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		vs := o.versions[k]
		if w, ok := o.exp[k]; ok {
			vs = append(vs, &w)
		}
		fi, err := p.Stat(k)
		found := false
		for _, v := range vs {
			switch {
			case err != nil && v == nil && !direct[k]:
				delete(o.exp, k)
				found = true
			case err == nil && v != nil && fi.ModTime().UnixNano() == v.MTime:
				o.exp[k] = *v
				found = true
			}
		}
		if !found {
			if err != nil {
				fail("missing", "%s is not in the embedded package (%v); while it was made, %s", k, err, strings.Join(o.did, ", "))
			}
			fail("info", "%s in the embedded package is of %v, which it never was; while it was made, %s", k, fi.ModTime().UTC(), strings.Join(o.did, ", "))
		}
	}
}
