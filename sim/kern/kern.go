// Package kern is the simulated machine: an in-memory POSIX file system behind
// the system call boundary, with fault injection, crash images and bookkeeping
// of what the program under test touched.
package kern

import (
	"fmt"
	"path"
	"sort"
	"strings"
	"syscall"
	"unsafe"

	"a0sim/sched"
)

const (
	S_IFMT  = syscall.S_IFMT
	S_IFDIR = syscall.S_IFDIR
	S_IFREG = syscall.S_IFREG
	S_IFLNK = syscall.S_IFLNK
)

// Node is an inode.
type Node struct {
	Ino   uint64
	Mode  uint32
	UID   uint32
	MTime int64 // ns
	Data  []byte
	Link  string
	Kids  []Ent
	Nlink int
}

// Ent is a directory entry; entries are kept sorted by name.
type Ent struct {
	Name string
	N    *Node
}

func (n *Node) IsDir() bool { return n.Mode&S_IFMT == S_IFDIR }
func (n *Node) IsReg() bool { return n.Mode&S_IFMT == S_IFREG }
func (n *Node) IsLnk() bool { return n.Mode&S_IFMT == S_IFLNK }

func (n *Node) find(name string) int {
	i := sort.Search(len(n.Kids), func(i int) bool { return n.Kids[i].Name >= name })
	return i
}

func (n *Node) Get(name string) *Node {
	i := n.find(name)
	if i < len(n.Kids) && n.Kids[i].Name == name {
		return n.Kids[i].N
	}
	return nil
}

func (n *Node) set(name string, k *Node) {
	i := n.find(name)
	if i < len(n.Kids) && n.Kids[i].Name == name {
		n.Kids[i].N = k
		return
	}
	n.Kids = append(n.Kids, Ent{})
	copy(n.Kids[i+1:], n.Kids[i:])
	n.Kids[i] = Ent{name, k}
}

func (n *Node) del(name string) {
	i := n.find(name)
	if i < len(n.Kids) && n.Kids[i].Name == name {
		n.Kids = append(n.Kids[:i], n.Kids[i+1:]...)
	}
}

// FD is an open file description.
type FD struct {
	Num   int
	N     *Node
	Off   int64
	Flags int
	Path  string
	ents  []Ent // directory snapshot being listed
	dirAt int
	read  bool // listing started
	Tag   string
}

const FDBase = 1 << 20

// K is the machine state.
var K struct {
	Root    *Node
	Cwd     string
	FDs     map[int]*FD
	nextFD  int
	nextIno uint64
	Clock   int64 // ns since epoch
	Tick    int64 // ns per system call
	Umask   uint32
	UID     uint32
	Out     []byte // what the program wrote to stdout
	Err     []byte
	Calls   int64
	Count   map[string]int64
	Free    int64 // bytes left on the device, -1: unlimited
	MaxFD   int   // descriptor limit
	Chunk   bool  // reads and directory listings may come back short
	DirSeed int   // permutation of directory listings

	// crash
	CrashAt   int64 // crash before the n-th mutating call, 0: never
	MutCalls  int64
	CrashFn   func()
	Mutations []string // paths changed by the program
	Reads     []string // paths opened or examined
	TrackRead bool
	LReads    []string // what was only lstat'ed

	// Others is what other programs do: called before each system call
	Others       func()
	LastOp, Last string // the call before

	Log func(string)
	Tag string // label of the operation in progress, copied to opened descriptors

	jr     journal
	synced map[*Node]int
}

func die(f string, a ...interface{}) {
	panic("kern: " + fmt.Sprintf(f, a...))
}

func Init() {
	K.Root = &Node{Ino: 2, Mode: S_IFDIR | 0755, Nlink: 2}
	K.Cwd = "/"
	K.FDs = map[int]*FD{}
	K.nextFD = FDBase
	K.nextIno = 100
	K.Clock = 1_600_000_000_000_000_000
	K.Tick = 1000
	K.Umask = 022
	K.UID = 1000
	K.Free = -1
	K.MaxFD = 1 << 16
	K.Count = map[string]int64{}
	K.Out, K.Err = nil, nil
}

// ---------- direct (simulator-side) access

func split(p string) []string {
	var out []string
	for _, c := range strings.Split(p, "/") {
		if c != "" && c != "." {
			out = append(out, c)
		}
	}
	return out
}

// Mkdir makes a directory and its parents, owned by the program's user.
func Mkdir(p string, mode uint32) *Node {
	n := K.Root
	for _, c := range split(p) {
		k := n.Get(c)
		if k == nil {
			k = newNode(S_IFDIR | mode)
			n.set(c, k)
		}
		n = k
	}
	return n
}

// Mkpath is Mkdir, but returns the path.
func Mkpath(p string) string {
	Mkdir(p, 0755)
	return p
}

// Put writes a file.
func Put(p string, mode uint32, mtime int64, data []byte) *Node {
	i := strings.LastIndex(p, "/")
	d := Mkdir(p[:i], 0755)
	n := newNode(S_IFREG | mode)
	n.Data = data
	n.MTime = mtime
	d.set(p[i+1:], n)
	return n
}

// Symlink makes a symbolic link.
func Symlink(p, target string) *Node {
	i := strings.LastIndex(p, "/")
	d := Mkdir(p[:i], 0755)
	n := newNode(S_IFLNK | 0777)
	n.Link = target
	d.set(p[i+1:], n)
	return n
}

// Look finds a node without following links.
func Look(p string) *Node {
	n := K.Root
	for _, c := range split(p) {
		if n == nil || !n.IsDir() {
			return nil
		}
		n = n.Get(c)
	}
	return n
}

// Follow finds a node, following links.
func Follow(p string) *Node {
	n, _ := follow(p, 0)
	return n
}

// Real is p without links, "" if p is not there.
func Real(p string) string {
	if n, q := follow(p, 0); n != nil {
		return q
	}
	return ""
}

func follow(p string, depth int) (*Node, string) {
	n, at := K.Root, ""
	cs := split(p)
	for i, c := range cs {
		if n == nil || !n.IsDir() || depth > 40 {
			return nil, ""
		}
		if c == ".." {
			at = path.Dir("/" + at)
			if at == "/" {
				at = ""
			}
			n = Look(at)
			continue
		}
		n = n.Get(c)
		if n != nil && n.IsLnk() {
			t := n.Link
			if !strings.HasPrefix(t, "/") {
				t = at + "/" + t
			}
			return follow(strings.Join(append([]string{t}, cs[i+1:]...), "/"), depth+1)
		}
		at += "/" + c
	}
	if at == "" {
		at = "/"
	}
	return n, at
}

// Del removes a path from the simulator side.
func Del(p string) {
	i := strings.LastIndex(p, "/")
	if d := Look(p[:i]); d != nil {
		d.del(p[i+1:])
	}
}

// Each visits p and everything below it in name order.
func Each(p string, f func(path string, n *Node)) {
	n := Look(p)
	if n == nil {
		return
	}
	each(p, n, f)
}

func each(p string, n *Node, f func(string, *Node)) {
	f(p, n)
	if n.IsDir() {
		for _, e := range append([]Ent(nil), n.Kids...) {
			q := p + "/" + e.Name
			if p == "/" {
				q = "/" + e.Name
			}
			each(q, e.N, f)
		}
	}
}

func newNode(mode uint32) *Node {
	K.nextIno++
	return &Node{Ino: K.nextIno, Mode: mode, UID: K.UID, MTime: K.Clock, Nlink: 1}
}

// Now advances and reads the simulated clock.
func Now() int64 {
	K.Clock += K.Tick
	return K.Clock
}

// ---------- path resolution

func access(n *Node, want uint32) bool {
	m := n.Mode & 7
	if n.UID == K.UID {
		m = (n.Mode >> 6) & 7
	}
	return m&want == want
}

func abs(dirfd int, p string) (string, *Node, syscall.Errno) {
	if strings.HasPrefix(p, "/") {
		return p, K.Root, 0
	}
	if dirfd == atCwd {
		n := Look(K.Cwd)
		if n == nil {
			return p, nil, syscall.ENOENT
		}
		return K.Cwd + "/" + p, n, 0
	}
	fd := K.FDs[dirfd]
	if fd == nil {
		return p, nil, syscall.EBADF
	}
	return fd.Path + "/" + p, fd.N, 0
}

const atCwd = -100

// resolve walks p. It returns the parent directory, the last component's name
// and the node (nil if absent), following a final link when follow is set.
func resolve(dirfd int, p string, follow bool) (dir *Node, name string, n *Node, full string, e syscall.Errno) {
	return resolveDepth(dirfd, p, follow, 0)
}

func resolveDepth(dirfd int, p string, follow bool, depth int) (dir *Node, name string, n *Node, full string, e syscall.Errno) {
	if depth > 40 {
		return nil, "", nil, p, syscall.ELOOP
	}
	if p == "" {
		return nil, "", nil, p, syscall.ENOENT
	}
	if len(p) > 4095 {
		return nil, "", nil, p, syscall.ENAMETOOLONG
	}
	full, cur, e := abs(dirfd, p)
	if e != 0 {
		return nil, "", nil, full, e
	}
	// normalised absolute position for reporting and ".."
	type st struct {
		n    *Node
		name string
	}
	stack := []st{}
	pos := []string{}
	if !strings.HasPrefix(p, "/") {
		base := K.Cwd
		if dirfd != atCwd {
			base = K.FDs[dirfd].Path
		}
		x := K.Root
		ok := true
		for _, c := range split(base) {
			stack = append(stack, st{x, c})
			pos = append(pos, c)
			if x = x.Get(c); x == nil {
				ok = false
				break
			}
		}
		if !ok {
			stack, pos = nil, nil
		}
	}
	comps := strings.Split(p, "/")
	mustDir := strings.HasSuffix(p, "/")
	var cs []string
	for _, c := range comps {
		if c != "" && c != "." {
			cs = append(cs, c)
		}
	}
	for i, c := range cs {
		if len(c) > 255 {
			return nil, "", nil, full, syscall.ENAMETOOLONG
		}
		if !cur.IsDir() {
			return nil, "", nil, full, syscall.ENOTDIR
		}
		if !access(cur, 1) {
			return nil, "", nil, full, syscall.EACCES
		}
		last := i == len(cs)-1
		if c == ".." {
			if len(stack) > 0 {
				cur = stack[len(stack)-1].n
				stack = stack[:len(stack)-1]
				pos = pos[:len(pos)-1]
			} else {
				cur = K.Root
			}
			if last {
				return nil, "..", cur, "/" + strings.Join(pos, "/"), 0
			}
			continue
		}
		k := cur.Get(c)
		if k != nil && k.IsLnk() && (!last || follow || mustDir) {
			rest := strings.Join(cs[i+1:], "/")
			t := k.Link
			if !strings.HasPrefix(t, "/") {
				t = "/" + strings.Join(pos, "/") + "/" + t
			}
			if rest != "" {
				t += "/" + rest
			}
			return resolveDepth(atCwd, t, follow, depth+1)
		}
		if last {
			full = "/" + strings.Join(append(pos, c), "/")
			if k != nil && mustDir && !k.IsDir() {
				return nil, "", nil, full, syscall.ENOTDIR
			}
			return cur, c, k, full, 0
		}
		if k == nil {
			return nil, "", nil, full, syscall.ENOENT
		}
		stack = append(stack, st{cur, c})
		pos = append(pos, c)
		cur = k
	}
	return nil, ".", cur, "/" + strings.Join(pos, "/"), 0
}

// ---------- memory helpers

func cstr(p uintptr) string {
	if p == 0 {
		return ""
	}
	b := (*[1 << 20]byte)(unsafe.Pointer(p))
	for i := 0; i < len(b); i++ {
		if b[i] == 0 {
			return string(b[:i])
		}
	}
	return ""
}

func mem(p uintptr, n int) []byte {
	if n == 0 {
		return nil
	}
	return (*[1 << 40]byte)(unsafe.Pointer(p))[:n:n]
}

func logf(f string, a ...interface{}) {
	if K.Log != nil {
		K.Log(fmt.Sprintf(f, a...))
	}
}

func note(op, path string, e syscall.Errno) {
	K.Calls++
	K.LastOp, K.Last = op, path
	K.Count[op]++
	sched.NoteS(op)
	sched.NoteS(path)
	sched.Note(uint64(e))
	if K.Log != nil {
		r := "ok"
		if e != 0 {
			r = e.Error()
		}
		K.Log(fmt.Sprintf("%s %s = %s", op, path, r))
	}
}

func mutated(p string) { K.Mutations = append(K.Mutations, p) }
