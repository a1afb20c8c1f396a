package props

import (
	"fmt"
	"os"
	"path"
	"sort"
	"strings"

	"a0sim/hb"
	"a0sim/life"
	"a0sim/sched"
)

// The reference model of an in-memory package: a few paths, each an atomic
// cell that holds nothing, a directory or a file, and the operations on them.

const nCells = 12

type cell struct {
	K    uint8 // 0 nothing, 1 directory, 2 file
	Mode uint16
	ID   int16 // which creation of the file
	C    int16 // its contents: index into model.contents
}

type mstate [nCells]cell

// hop is an operation of the history, between two moments.
type hop[S comparable] struct {
	what     string
	task     string
	inv, ret int64
	read     bool // has no effect
	do       func(s *S) bool
}

type model struct {
	pkg      string
	paths    []string
	idx      map[string]int
	kids     [nCells][]int // cells below
	contents []string
	cidx     map[string]int16
	clock    int64
	ops      []hop[mstate]
	ids      int16
	init     mstate

	commits map[int16]commit
	erasers map[int][]span // calls that take a file's place or remove it
	orphans bool           // see seesOrphan
}

type commit struct {
	inv int64
	c   int16
}

type span struct{ inv, ret int64 }

// seesOrphan reports whether a reader may, between inv and ret, have found
// file id in cell i and then waited until it was closed elsewhere: like an open
// file of an operating system, a file that was looked up keeps being written by
// its creator after its name has gone to another one. What it gives then never
// was at the path.
func (m *model) seesOrphan(i int, id int16, inv, ret int64, ok func(c int16) bool) bool {
	if !m.orphans {
		return false
	}
	c, is := m.commits[id]
	if !is || c.inv > ret || !ok(c.c) {
		return false
	}
	for _, e := range m.erasers[i] {
		if e.inv < ret && e.ret > inv {
			return true
		}
	}
	return false
}

func newModel(pkg string, paths []string) *model {
	m := &model{pkg: pkg, paths: paths, idx: map[string]int{}, cidx: map[string]int16{"": 0}, commits: map[int16]commit{}, erasers: map[int][]span{}, contents: []string{""}}
	for i, p := range paths {
		m.idx[p] = i
	}
	for i, p := range paths {
		for j, q := range paths {
			if i != j && strings.HasPrefix(q, strings.TrimSuffix(p, "/")+"/") {
				m.kids[i] = append(m.kids[i], j)
			}
		}
	}
	return m
}

func (m *model) content(s string) int16 {
	hb.Quiet()
	i, ok := m.cidx[s]
	if !ok {
		i = int16(len(m.contents))
		m.contents = append(m.contents, s)
		m.cidx[s] = i
	}
	return i
}

func (m *model) now() int64 {
	hb.Quiet()
	m.clock++
	return m.clock
}

func (m *model) add(inv, ret int64, read bool, what string, do func(s *mstate) bool) {
	hb.Quiet()
	m.ops = append(m.ops, hop[mstate]{what, taskName(), inv, ret, read, do})
}

// dirOf is the cell of the directory a path is in, -1 for the root.
func (m *model) dirOf(p string) int {
	if p == "/" {
		return -1
	}
	return m.idx[path.Dir(p)]
}

func (m *model) ensure(inv, ret int64, p string, perm os.FileMode) {
	hb.Quiet()
	i := m.idx[p]
	m.add(inv, ret, false, fmt.Sprintf("%s is a directory from here on", p), func(s *mstate) bool {
		if s[i].K == 0 {
			s[i] = cell{K: 1, Mode: uint16(perm)}
		}
		return true
	})
}

// created records the answer of Create.
func (m *model) created(inv, ret int64, p string, id int16, err error) {
	hb.Quiet()
	i, d := m.idx[p], m.dirOf(p)
	m.ensure(inv, ret, "/", 0755)
	switch {
	case err == nil:
		m.erasers[i] = append(m.erasers[i], span{inv, ret})
		m.add(inv, ret, false, fmt.Sprintf("Create(%s) succeeds", p), func(s *mstate) bool {
			if s[i].K == 1 || d < 0 || s[d].K != 1 {
				return false
			}
			s[i] = cell{K: 2, Mode: 0644, ID: id}
			return true
		})
	case os.IsNotExist(err):
		m.add(inv, ret, true, fmt.Sprintf("Create(%s): %v", p, err), func(s *mstate) bool { return d >= 0 && s[d].K == 0 })
	default:
		m.add(inv, ret, true, fmt.Sprintf("Create(%s): %v", p, err), func(s *mstate) bool {
			return s[i].K == 1 || d >= 0 && s[d].K == 2
		})
	}
}

// closed records that the file created as id got its contents.
func (m *model) closed(inv, ret int64, p string, id int16, data string) {
	hb.Quiet()
	i, c := m.idx[p], m.content(data)
	m.commits[id] = commit{inv, c}
	m.add(inv, ret, false, fmt.Sprintf("Close of the new %s with %d bytes", p, len(data)), func(s *mstate) bool {
		if s[i].K == 2 && s[i].ID == id {
			s[i].C = c
		}
		return true
	})
}

func (m *model) mkdirAll(inv, ret int64, p string, perm os.FileMode, err error) {
	hb.Quiet()
	if err != nil {
		anc := []int{m.idx[p]}
		for q := p; q != "/"; {
			q = path.Dir(q)
			anc = append(anc, m.idx[q])
		}
		m.add(inv, ret, true, fmt.Sprintf("MkdirAll(%s): %v", p, err), func(s *mstate) bool {
			for _, a := range anc {
				if s[a].K == 2 {
					return true
				}
			}
			return false
		})
		return
	}
	for q := p; ; q = path.Dir(q) {
		m.ensure(inv, ret, q, perm)
		if q == "/" {
			break
		}
	}
	i := m.idx[p]
	m.add(inv, ret, true, fmt.Sprintf("MkdirAll(%s) succeeds", p), func(s *mstate) bool { return s[i].K == 1 })
}

func (m *model) removed(inv, ret int64, p string, err error) {
	hb.Quiet()
	i := m.idx[p]
	below := func(s *mstate) bool {
		for _, k := range m.kids[i] {
			if s[k].K != 0 {
				return true
			}
		}
		return false
	}
	switch {
	case err == nil:
		m.erasers[i] = append(m.erasers[i], span{inv, ret})
		m.add(inv, ret, false, fmt.Sprintf("Remove(%s) succeeds", p), func(s *mstate) bool {
			if s[i].K == 0 || below(s) {
				return false
			}
			s[i] = cell{}
			return true
		})
	case os.IsNotExist(err):
		m.add(inv, ret, true, fmt.Sprintf("Remove(%s): %v", p, err), func(s *mstate) bool { return s[i].K == 0 })
	default:
		m.add(inv, ret, true, fmt.Sprintf("Remove(%s): %v", p, err), func(s *mstate) bool { return s[i].K == 1 && below(s) })
	}
}

func (m *model) removedAll(inv, ret int64, p string) {
	hb.Quiet()
	for _, k := range append([]int{m.idx[p]}, m.kids[m.idx[p]]...) {
		k := k
		m.erasers[k] = append(m.erasers[k], span{inv, ret})
		m.add(inv, ret, false, fmt.Sprintf("RemoveAll(%s) removes %s", p, m.paths[k]), func(s *mstate) bool {
			s[k] = cell{}
			return true
		})
	}
}

// saw records an observation of p: nothing, a directory, or a file with a size
// and, when data is not nil, contents.
func (m *model) saw(inv, ret int64, how, p string, fi os.FileInfo, data *string) {
	hb.Quiet()
	i, ok := m.idx[p]
	if !ok {
		fail("stray", "%s sees %s, which nobody ever made", how, p)
	}
	if fi == nil {
		m.add(inv, ret, true, fmt.Sprintf("%s: %s does not exist", how, p), func(s *mstate) bool { return s[i].K == 0 })
		return
	}
	if p != "/" && fi.Name() != path.Base(p) {
		fail("name", "%s sees %s under the name %q", how, p, fi.Name())
	}
	if fi.IsDir() {
		if fi.Mode()&os.ModeDir == 0 {
			fail("mode", "%s sees the directory %s with the mode %v", how, p, fi.Mode())
		}
		perm := uint16(fi.Mode().Perm())
		m.add(inv, ret, true, fmt.Sprintf("%s: %s is a directory (%v)", how, p, fi.Mode()), func(s *mstate) bool {
			return s[i].K == 1 && s[i].Mode == perm
		})
		return
	}
	if fi.Mode() != 0644 {
		fail("mode", "%s sees the file %s with the mode %v", how, p, fi.Mode())
	}
	size := fi.Size()
	if data == nil {
		m.add(inv, ret, true, fmt.Sprintf("%s: %s is a file of %d bytes", how, p, size), func(s *mstate) bool {
			fits := func(c int16) bool { return int64(len(m.contents[c])) == size }
			return s[i].K == 2 && (fits(s[i].C) || m.seesOrphan(i, s[i].ID, inv, ret, fits))
		})
		return
	}
	if int64(len(*data)) != size {
		fail("size", "%s sees %s with %d bytes of contents and the size %d", how, p, len(*data), size)
	}
	c, known := m.cidx[*data]
	if !known {
		fail("mixed", "%s sees %s with contents that were never written as a whole: %d bytes", how, p, len(*data))
	}
	m.add(inv, ret, true, fmt.Sprintf("%s: %s is a file with the contents no. %d (%d bytes)", how, p, c, size), func(s *mstate) bool {
		return s[i].K == 2 && (s[i].C == c || m.seesOrphan(i, s[i].ID, inv, ret, func(x int16) bool { return x == c }))
	})
}

type memoKey[S comparable] struct {
	mask [4]uint64
	st   S
}

// taskName names the running task.
func taskName() string {
	if c := sched.Cur(); c != nil {
		return c.Name
	}
	return "main"
}

const giveUp = 300000

// linearize searches for an order of the operations, compatible with real
// time, that explains every answer. It describes how far it got.
func linearize[S comparable](hops []hop[S], init S, show func(S) string) (ok bool, stuck, trace string) {
	n := len(hops)
	if n > 256 {
		life.Broken("history of %d operations", n)
	}
	ops := append([]hop[S](nil), hops...)
	sort.SliceStable(ops, func(a, b int) bool { return ops[a].inv < ops[b].inv })
	memo := map[memoKey[S]]bool{}
	nodes := 0
	best := -1
	var bestMask [4]uint64
	var bestState S
	var dfs func(mask [4]uint64, st S, done int) bool
	has := func(mask *[4]uint64, i int) bool { return mask[i>>6]&(1<<uint(i&63)) != 0 }
	dfs = func(mask [4]uint64, st S, done int) bool {
		// reads that fit now may as well happen now
		var minRet int64
		for again := true; again; {
			again = false
			minRet = 1 << 62
			for i := range ops {
				if !has(&mask, i) && ops[i].ret < minRet {
					minRet = ops[i].ret
				}
			}
			for i := range ops {
				if ops[i].inv > minRet {
					break
				}
				if !has(&mask, i) && ops[i].read {
					s := st
					if ops[i].do(&s) {
						mask[i>>6] |= 1 << uint(i&63)
						done++
						again = true
					}
				}
			}
		}
		if done == n {
			return true
		}
		if done > best {
			best, bestMask, bestState = done, mask, st
		}
		k := memoKey[S]{mask, st}
		if memo[k] {
			return false
		}
		memo[k] = true
		if nodes++; nodes > giveUp {
			return true // counted below
		}
		for i := range ops {
			if ops[i].inv > minRet {
				break
			}
			if has(&mask, i) || ops[i].read {
				continue
			}
			s := st
			if !ops[i].do(&s) {
				continue
			}
			mk := mask
			mk[i>>6] |= 1 << uint(i&63)
			if dfs(mk, s, done+1) {
				return true
			}
		}
		return false
	}
	ok = dfs([4]uint64{}, init, 0)
	stat("search_nodes", int64(nodes))
	if nodes > giveUp {
		stat("search_given_up", 1)
	}
	if ok {
		return
	}
	var b strings.Builder
	var minRet int64 = 1 << 62
	for i, o := range ops {
		mark := " "
		if !has(&bestMask, i) {
			mark = "*"
			if o.ret < minRet { // the first one that cannot have happened
				minRet, stuck = o.ret, o.task+": "+o.what
			}
		}
		fmt.Fprintf(&b, "\n%s [%d,%d] %s: %s", mark, o.inv, o.ret, o.task, o.what)
	}
	b.WriteString("\nwhen the search got stuck (* had not happened): " + show(bestState))
	return false, stuck, b.String()
}

// check looks for an explanation of the history.
func (m *model) check() {
	show := func(s mstate) string {
		var b strings.Builder
		for i, p := range m.paths {
			fmt.Fprintf(&b, " %s=%d/%d", p, s[i].K, s[i].C)
		}
		return b.String()
	}
	stat("history_ops", int64(len(m.ops)))
	ok, stuck, trace := linearize(m.ops, m.init, show)
	if !ok {
		m.orphans = true
		stat("orphans_seen", 1)
		ok, stuck, trace = linearize(m.ops, m.init, show)
	}
	if !ok {
		fail("history", "no order of the operations explains the answers; stuck at %s%s", stuck, trace)
	}
}
