package kern

import (
	"sort"

	"a0sim/sched"
)

// The journal models a file system with ordered metadata journalling and
// delayed data: what survives a power loss is everything that was synced, a
// prefix of the later metadata operations, and an arbitrary part of the data
// written since.

type jop struct {
	kind      string // create unlink rename mode | write trunc
	dir, dir2 uint64
	name      string
	name2     string
	n         *Node
	mode      uint32
	off       int64
	data      []byte
	size      int64
	durable   bool
}

type dnode struct {
	mode  uint32
	uid   uint32
	mtime int64
	data  []byte
	link  string
	kids  map[string]*dnode
	src   *Node
}

type journal struct {
	on   bool
	base *dnode
	byN  map[*Node]*dnode
	ops  []jop
	meta int // ops before this index have durable metadata
	data map[*Node]int
}

// JournalStart makes the present tree the durable one.
func JournalStart() {
	j := &K.jr
	j.on = true
	j.byN = map[*Node]*dnode{}
	j.ops = nil
	j.meta = 0
	j.base = j.snap(K.Root)
}

func (j *journal) snap(n *Node) *dnode {
	if d, ok := j.byN[n]; ok {
		return d
	}
	d := &dnode{mode: n.Mode, uid: n.UID, mtime: n.MTime, link: n.Link, src: n}
	d.data = append([]byte(nil), n.Data...)
	j.byN[n] = d
	if n.IsDir() {
		d.kids = map[string]*dnode{}
		for _, e := range n.Kids {
			d.kids[e.Name] = j.snap(e.N)
		}
	}
	return d
}

func jadd(o jop) {
	if K.jr.on {
		K.jr.ops = append(K.jr.ops, o)
	}
}

func jcreate(dir *Node, name string, n *Node) {
	jadd(jop{kind: "create", n: n, dir: dir.Ino, name: name})
	K.jr.reg(dir, n)
}
func junlink(dir *Node, name string) { jadd(jop{kind: "unlink", dir: dir.Ino, name: name}) }
func jrename(d1 *Node, n1 string, d2 *Node, n2 string, n *Node) {
	jadd(jop{kind: "rename", dir: d1.Ino, name: n1, dir2: d2.Ino, name2: n2, n: n})
}
func jmode(n *Node) { jadd(jop{kind: "mode", n: n, mode: n.Mode}) }
func jwrite(n *Node, off int64, b []byte) {
	if K.jr.on {
		jadd(jop{kind: "write", n: n, off: off, data: append([]byte(nil), b...)})
	}
}
func jtrunc(n *Node, size int64) { jadd(jop{kind: "trunc", n: n, size: size}) }

func (j *journal) reg(dir, n *Node) {}

func jclean(n *Node) bool {
	if !K.jr.on {
		return K.synced[n] == len(n.Data) && K.synced[n] > 0
	}
	for _, o := range K.jr.ops {
		if (o.kind == "write" || o.kind == "trunc") && o.n == n && !o.durable {
			return false
		}
	}
	return true
}

func jsync(n *Node) {
	if K.synced == nil {
		K.synced = map[*Node]int{}
	}
	K.synced[n] = len(n.Data)
	j := &K.jr
	if !j.on {
		return
	}
	for i := range j.ops {
		o := &j.ops[i]
		if (o.kind == "write" || o.kind == "trunc") && o.n == n {
			o.durable = true
		}
	}
	j.meta = len(j.ops)
}

func syncAll() {
	for i := range K.jr.ops {
		K.jr.ops[i].durable = true
	}
	K.jr.meta = len(K.jr.ops)
}

// PowerLoss replaces the tree by what survived on the disk.
func PowerLoss() {
	j := &K.jr
	if !j.on {
		die("power loss without a journal")
	}
	byIno := map[uint64]*dnode{}
	for n, d := range j.byN {
		byIno[n.Ino] = d
	}
	metaCut := len(j.ops) - sched.Env("crash-metadata", len(j.ops)-j.meta+1)
	// per file: how many of its unsynced data operations survive
	pend := map[*Node]int{}
	var files []*Node
	for _, o := range j.ops {
		if (o.kind == "write" || o.kind == "trunc") && !o.durable {
			if pend[o.n] == 0 {
				files = append(files, o.n)
			}
			pend[o.n]++
		}
	}
	sort.Slice(files, func(a, b int) bool { return files[a].Ino < files[b].Ino })
	keep := map[*Node]int{}
	torn := map[*Node]bool{}
	for _, f := range files {
		lost := sched.Env("crash-data", pend[f]+1)
		keep[f] = pend[f] - lost
		torn[f] = lost > 0 && sched.Env("crash-torn", 2) == 1
	}
	get := func(n *Node) *dnode {
		d := j.byN[n]
		if d == nil {
			d = &dnode{mode: n.Mode, uid: n.UID, mtime: n.MTime, link: n.Link, src: n}
			if n.IsDir() {
				d.kids = map[string]*dnode{}
			}
			j.byN[n] = d
			byIno[n.Ino] = d
		}
		return d
	}
	seen := map[*Node]int{}
	for i, o := range j.ops {
		switch o.kind {
		case "write", "trunc":
			d := get(o.n)
			full := o.durable
			part := false
			if !full {
				seen[o.n]++
				full = seen[o.n] <= keep[o.n]
				part = seen[o.n] == keep[o.n]+1 && torn[o.n]
			}
			if !full && !part {
				continue
			}
			if o.kind == "trunc" {
				nd := make([]byte, o.size)
				copy(nd, d.data)
				d.data = nd
				continue
			}
			b := o.data
			if part {
				b = append([]byte(nil), b...)
				at := 0
				if len(b) > 1 {
					at = sched.Env("crash-tear", len(b))
				}
				for k := at; k < len(b); k++ {
					b[k] = 0
				}
				if sched.Env("crash-tear-short", 2) == 1 {
					b = b[:at]
				}
			}
			end := o.off + int64(len(b))
			if end > int64(len(d.data)) {
				nd := make([]byte, end)
				copy(nd, d.data)
				d.data = nd
			}
			copy(d.data[o.off:], b)
		default:
			if i >= metaCut {
				continue
			}
			switch o.kind {
			case "create":
				if p := byIno[o.dir]; p != nil {
					p.kids[o.name] = get(o.n)
				}
			case "unlink":
				if p := byIno[o.dir]; p != nil {
					delete(p.kids, o.name)
				}
			case "rename":
				if p := byIno[o.dir]; p != nil {
					delete(p.kids, o.name)
				}
				if p := byIno[o.dir2]; p != nil {
					p.kids[o.name2] = get(o.n)
				}
			case "mode":
				get(o.n).mode = o.mode
			}
		}
	}
	K.Root = build(j.base)
	K.FDs = map[int]*FD{}
	j.on = false
}

func build(d *dnode) *Node {
	K.nextIno++
	n := &Node{Ino: K.nextIno, Mode: d.mode, UID: d.uid, MTime: d.mtime, Link: d.link, Nlink: 1}
	n.Data = append([]byte(nil), d.data...)
	var names []string
	for k := range d.kids {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		n.Kids = append(n.Kids, Ent{k, build(d.kids[k])})
	}
	return n
}

// ImgEnt is one object of a serialised disk.
type ImgEnt struct {
	P string `json:"p"`
	M uint32 `json:"m"`
	U uint32 `json:"u"`
	T int64  `json:"t"`
	D []byte `json:"d,omitempty"`
	L string `json:"l,omitempty"`
}

// Image serialises the tree for the next life.
func Image() []ImgEnt {
	var out []ImgEnt
	Each("/", func(p string, n *Node) {
		out = append(out, ImgEnt{p, n.Mode, n.UID, n.MTime, n.Data, n.Link})
	})
	return out
}

// Load installs a serialised tree.
func Load(img []ImgEnt) {
	for _, e := range img {
		n := &Node{Mode: e.M, UID: e.U, MTime: e.T, Data: e.D, Link: e.L, Nlink: 1}
		K.nextIno++
		n.Ino = K.nextIno
		if e.P == "/" {
			K.Root = n
			continue
		}
		i := len(e.P) - 1
		for e.P[i] != '/' {
			i--
		}
		dir := Look(e.P[:i])
		dir.set(e.P[i+1:], n)
	}
}
