// mkoverlay writes the `go build -overlay` file the simulator is built with.
//
// It (1) copies a handful of standard library files out of GOROOT and patches
// them so that system calls, the clock, process execution and the runtime's
// own randomness go to hooks the simulator owns, and (2) rewrites every
// non-test Go file of the repository so that a scheduling point precedes every
// statement and package sync resolves to the simulator's version of it.
// Nothing in GOROOT or /repo is written to.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "mkoverlay: "+f+"\n", a...)
	os.Exit(3)
}

type rep struct{ old, new string }

func patch(src, dst string, reps ...rep) {
	b, err := os.ReadFile(src)
	if err != nil {
		die("%v", err)
	}
	s := string(b)
	for _, r := range reps {
		if strings.Count(s, r.old) != 1 {
			die("%s: pattern %q occurs %d times, want 1", src, r.old, strings.Count(s, r.old))
		}
		s = strings.Replace(s, r.old, r.new, 1)
	}
	if err := os.MkdirAll(filepath.Dir(dst), 0o755); err != nil {
		die("%v", err)
	}
	if err := os.WriteFile(dst, []byte(s), 0o644); err != nil {
		die("%v", err)
	}
}

func main() {
	if len(os.Args) != 4 {
		die("usage: mkoverlay GOROOT REPO OUTDIR")
	}
	goroot, repo, out := os.Args[1], os.Args[2], os.Args[3]
	repl := map[string]string{}
	std := func(rel string, reps ...rep) {
		src := filepath.Join(goroot, "src", rel)
		dst := filepath.Join(out, "std", rel)
		patch(src, dst, reps...)
		repl[src] = dst
	}
	add := func(rel, content string) {
		src := filepath.Join(goroot, "src", rel)
		dst := filepath.Join(out, "std", rel)
		os.MkdirAll(filepath.Dir(dst), 0o755)
		if err := os.WriteFile(dst, []byte(content), 0o644); err != nil {
			die("%v", err)
		}
		repl[src] = dst
	}

	// --- system calls
	hook3 := "\tif h := SimHook; h != nil {\n\t\tvar ok bool\n\t\tif r1, r2, err, ok = h(trap, a1, a2, a3, 0, 0, 0); ok {\n\t\t\treturn\n\t\t}\n\t}\n"
	hook6 := strings.Replace(hook3, "0, 0, 0", "a4, a5, a6", 1)
	std("syscall/syscall_linux.go",
		rep{"//go:uintptrkeepalive\n//go:nosplit\n//go:linkname Syscall\nfunc Syscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err Errno) {\n",
			"//go:uintptrescapes\n//go:linkname Syscall\nfunc Syscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err Errno) {\n" + hook3},
		rep{"//go:uintptrkeepalive\n//go:nosplit\n//go:linkname Syscall6\nfunc Syscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {\n",
			"//go:uintptrescapes\n//go:linkname Syscall6\nfunc Syscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {\n" + hook6},
	)
	add("syscall/zsim.go", "package syscall\n\n// SimHook, when set, is offered every system call first.\nvar SimHook func(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno, ok bool)\n")

	// --- clock
	std("time/time.go",
		rep{"func Now() Time {\n", "func Now() Time {\n\tif h := SimNow; h != nil {\n\t\treturn Unix(0, h())\n\t}\n"},
	)
	add("time/zsim.go", "package time\n\n// SimNow, when set, is the clock.\nvar SimNow func() int64\n")

	// --- process execution
	std("os/exec/exec.go",
		rep{"func (c *Cmd) Start() error {\n", "func (c *Cmd) Start() error {\n\tif h := SimExec; h != nil {\n\t\tif c.Err != nil {\n\t\t\treturn c.Err\n\t\t}\n\t\tvar err error\n\t\tc.simWait, err = h(c)\n\t\treturn err\n\t}\n"},
		rep{"func (c *Cmd) Wait() error {\n", "func (c *Cmd) Wait() error {\n\tif c.simWait != nil {\n\t\treturn c.simWait()\n\t}\n"},
		rep{"type Cmd struct {\n", "type Cmd struct {\n\tsimWait func() error\n"},
	)
	add("os/exec/zsim.go", "package exec\n\n// SimExec, when set, starts processes.\nvar SimExec func(*Cmd) (wait func() error, err error)\n")

	// --- the network: listening, and serving HTTP
	std("net/dial.go",
		rep{"func Listen(network, address string) (Listener, error) {\n", "func Listen(network, address string) (Listener, error) {\n\tif h := SimListen; h != nil {\n\t\treturn h(network, address)\n\t}\n"},
	)
	add("net/zsim.go", "package net\n\n// SimListen, when set, listens.\nvar SimListen func(network, address string) (Listener, error)\n")
	std("net/http/server.go",
		rep{"func (s *Server) Serve(l net.Listener) error {\n", "func (s *Server) Serve(l net.Listener) error {\n\tif h := SimServe; h != nil {\n\t\treturn h(s.Handler, l)\n\t}\n"},
	)
	add("net/http/zsim.go", "package http\n\nimport \"net\"\n\n// SimServe, when set, serves.\nvar SimServe func(h Handler, l net.Listener) error\n")

	std("os/proc.go",
		rep{"func Exit(code int) {\n", "func Exit(code int) {\n\tif h := SimExit; h != nil {\n\t\th(code)\n\t}\n"},
	)
	add("os/zsim.go", "package os\n\n// SimExit, when set, is told that the program wants to end.\nvar SimExit func(code int)\n")

	// --- the runtime's randomness: a fixed start state, and one stream the
	// simulator can seed.
	std("runtime/rand.go",
		rep{"\tif len(startupRand) >= 16 &&\n", "\tfor i := range seed {\n\t\tseed[i] = byte(i*7 + 1)\n\t}\n\tif true {\n\t} else if len(startupRand) >= 16 &&\n"},
		rep{"func rand() uint64 {\n", "func rand() uint64 {\n\tsimRandState += 0x9e3779b97f4a7c15\n\tz := simRandState\n\tz = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9\n\tz = (z ^ (z >> 27)) * 0x94d049bb133111eb\n\treturn z ^ (z >> 31)\n}\n\n//go:nosplit\nfunc simRealRand() uint64 {\n"},
		rep{"\tmp.cheaprand = uint32(rand())\n\tmp.cheaprand64 = rand()\n", "\tmp.cheaprand = 0x1234567\n\tmp.cheaprand64 = 0x123456789abcdef\n"},
	)
	add("runtime/zsim.go", "package runtime\n\nvar simRandState uint64 = 42\n\n// SimSeed seeds every random choice the runtime makes for the program\n// (map iteration order, math/rand, temporary names).\nfunc SimSeed(x uint64) { simRandState = x }\n\n// SimGoid identifies the calling goroutine.\nfunc SimGoid() uint64 { return getg().goid }\n\n// SimSleep, when set, is what sleeping does.\nvar SimSleep func(ns int64)\n\n// SimCoop, when set, lets goroutines run until they wait.\nvar SimCoop bool\n\n// SimQuiet, when not 0, makes the race detector overlook memory accesses.\nvar SimQuiet uint8 = 1\n")
	std("runtime/race_amd64.s",
		rep{"TEXT\tracecalladdr<>(SB), NOSPLIT, $0-0\n", "TEXT\tracecalladdr<>(SB), NOSPLIT, $0-0\n\tCMPB\truntime·SimQuiet(SB), $0\n\tJNE\tret\n"},
	)
	std("runtime/proc.go",
		rep{"func preemptone(pp *p) bool {\n", "func preemptone(pp *p) bool {\n\tif SimCoop {\n\t\treturn false\n\t}\n"},
	)
	std("runtime/time.go",
		rep{"func timeSleep(ns int64) {\n", "func timeSleep(ns int64) {\n\tif h := SimSleep; h != nil {\n\t\th(ns)\n\t\treturn\n\t}\n"},
	)

	// --- the repository
	ins := &instr{repo: repo, out: out, repl: repl}
	ins.walk()

	sites := filepath.Join(out, "sites.json")
	b, _ := json.Marshal(ins.sites)
	os.WriteFile(sites, b, 0o644)
	b, _ = json.MarshalIndent(map[string]interface{}{"Replace": repl}, "", " ")
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), b, 0o644); err != nil {
		die("%v", err)
	}
	fmt.Printf("mkoverlay: %d files instrumented, %d scheduling points\n", ins.files, len(ins.sites))
}

type instr struct {
	repo, out string
	repl      map[string]string
	sites     []string
	files     int
}

func (in *instr) walk() {
	var files []string
	err := filepath.Walk(in.repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		b := filepath.Base(p)
		if fi.IsDir() {
			if p != in.repo && (strings.HasPrefix(b, ".") || strings.HasPrefix(b, "_") || b == "testdata" || b == "examples" || b == "node_modules" || b == "vendor" || b == "pkgtest") {
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(b, ".go") && !strings.HasSuffix(b, "_test.go") {
			files = append(files, p)
		}
		return nil
	})
	if err != nil {
		die("%v", err)
	}
	sort.Strings(files)
	for _, f := range files {
		in.file(f)
	}
}

type edit struct {
	off, end int // replace [off,end)
	text     string
	seq      int
}

func (in *instr) file(path string) {
	src, err := os.ReadFile(path)
	if err != nil {
		die("%v", err)
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		die("%v", err)
	}
	rel, _ := filepath.Rel(in.repo, path)
	var edits []edit
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	put := func(o, e int, t string) { edits = append(edits, edit{o, e, t, len(edits)}) }
	if f.Name.Name == "main" {
		if filepath.ToSlash(filepath.Dir(rel)) != "cmd/pkger" {
			return
		}
		// a copy of the program that can be called
		path = filepath.Join(filepath.Dir(path), "zsim", filepath.Base(path))
		rel = filepath.Join(filepath.Dir(rel), "zsim", filepath.Base(rel))
		put(off(f.Name.Pos()), off(f.Name.End()), "zsim")
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "main" {
				put(off(fd.Name.Pos()), off(fd.Name.End()), "Main")
			}
		}
	}
	uses := false
	stmts := func(list []ast.Stmt) {
		for _, s := range list {
			switch s.(type) {
			case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
				continue
			}
			id := len(in.sites)
			in.sites = append(in.sites, fmt.Sprintf("%s:%d", rel, fset.Position(s.Pos()).Line))
			put(off(s.Pos()), off(s.Pos()), fmt.Sprintf("a0s.Y(%d);", id))
			uses = true
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			stmts(x.List)
		case *ast.CaseClause:
			stmts(x.Body)
		case *ast.CommClause:
			stmts(x.Body)
		case *ast.ForStmt:
			if len(x.Body.List) == 0 {
				id := len(in.sites)
				in.sites = append(in.sites, fmt.Sprintf("%s:%d", rel, fset.Position(x.Pos()).Line))
				put(off(x.Body.Lbrace)+1, off(x.Body.Lbrace)+1, fmt.Sprintf("a0s.Y(%d);", id))
				uses = true
			}
		case *ast.GoStmt:
			uses = true
			if fl, ok := x.Call.Fun.(*ast.FuncLit); ok && len(x.Call.Args) == 0 {
				// go func(){...}()  ->  a0s.Go(func(){...})
				put(off(x.Pos()), off(fl.Pos()), "a0s.Go(")
				put(off(fl.End()), off(x.Call.End()), ")")
				return true
			}
			// go f(args): evaluate f and the arguments now, call later.
			var names []string
			lhs := []string{"a0f"}
			put(off(x.Pos()), off(x.Call.Fun.Pos()), "{a0f")
			for i, a := range x.Call.Args {
				if isConstLike(a) {
					names = append(names, string(src[off(a.Pos()):off(a.End())]))
					continue
				}
				n := "a0a" + strconv.Itoa(i)
				names = append(names, n)
				lhs = append(lhs, n)
			}
			// rebuilt textually: the whole statement is replaced
			edits = edits[:len(edits)-1]
			t := "{" + strings.Join(lhs, ",") + ":=" + string(src[off(x.Call.Fun.Pos()):off(x.Call.Fun.End())])
			for _, a := range x.Call.Args {
				if !isConstLike(a) {
					t += "," + string(src[off(a.Pos()):off(a.End())])
				}
			}
			ell := ""
			if x.Call.Ellipsis.IsValid() {
				ell = "..."
			}
			t += ";a0s.Go(func(){a0f(" + strings.Join(names, ",") + ell + ")})}"
			put(off(x.Pos()), off(x.End()), t)
			return false
		case *ast.ImportSpec:
			p, _ := strconv.Unquote(x.Path.Value)
			if p == "sync" {
				name := "sync"
				if x.Name != nil {
					name = x.Name.Name
				}
				put(off(x.Pos()), off(x.End()), name+" \"a0sim/simsync\"")
			}
		}
		return true
	})
	if uses {
		put(off(f.Name.End()), off(f.Name.End()), ";import a0s \"a0sim/a0s\"")
	}
	if len(edits) == 0 {
		return
	}
	sort.SliceStable(edits, func(i, j int) bool {
		if edits[i].off != edits[j].off {
			return edits[i].off < edits[j].off
		}
		// insertions go before a replacement that starts at the same place
		ii, jj := edits[i].end == edits[i].off, edits[j].end == edits[j].off
		if ii != jj {
			return ii
		}
		return edits[i].seq < edits[j].seq
	})
	var b strings.Builder
	pos := 0
	for _, e := range edits {
		if e.off < pos {
			continue // inside a replaced region
		}
		b.Write(src[pos:e.off])
		b.WriteString(e.text)
		pos = e.end
	}
	b.Write(src[pos:])
	dst := filepath.Join(in.out, "repo", rel)
	os.MkdirAll(filepath.Dir(dst), 0o755)
	if err := os.WriteFile(dst, []byte(b.String()), 0o644); err != nil {
		die("%v", err)
	}
	if _, err := parser.ParseFile(token.NewFileSet(), dst, nil, 0); err != nil {
		die("instrumented file does not parse: %v", err)
	}
	in.repl[path] = dst
	in.files++
}

func isConstLike(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.BasicLit:
		return true
	case *ast.Ident:
		return x.Name == "nil" || x.Name == "true" || x.Name == "false"
	}
	return false
}
