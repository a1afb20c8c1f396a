// Package goemu stands in for the go command: it answers the questions the
// code under test asks of it (`go env GOMOD`, `go list -json ...`) from the
// simulated disk, and fails when the fault plan says so.
package goemu

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"go/build"
	"go/parser"
	"go/token"
	"io"
	"os"
	"os/exec"
	"path"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"a0sim/hb"
	"a0sim/kern"
	"a0sim/sched"
)

type module struct {
	Path      string
	Main      bool   `json:",omitempty"`
	Dir       string `json:",omitempty"`
	GoMod     string `json:",omitempty"`
	GoVersion string `json:",omitempty"`
}

type pkg struct {
	Dir         string   `json:",omitempty"`
	ImportPath  string   `json:",omitempty"`
	Name        string   `json:",omitempty"`
	Target      string   `json:",omitempty"`
	Root        string   `json:",omitempty"`
	Module      *module  `json:",omitempty"`
	Match       []string `json:",omitempty"`
	Stale       bool     `json:",omitempty"`
	StaleReason string   `json:",omitempty"`
	GoFiles     []string `json:",omitempty"`
	Imports     []string `json:",omitempty"`
	Deps        []string `json:",omitempty"`
	TestGoFiles []string `json:",omitempty"`
	TestImports []string `json:",omitempty"`
}

// Injected lists the package names given to the go command that it takes for flags.
var Injected []string

// Calls counts the commands by what they asked.
var Calls = map[string]int64{}

// Total is the number of commands run.
func Total() int64 { return total }

var total int64

// Exec is the process-execution hook.
func Exec(c *exec.Cmd) (func() error, error) {
	defer hb.Restore(hb.Quiet())
	sched.P(-2001)
	total++
	kern.K.Clock += 80_000_000
	args := c.Args
	line := strings.Join(args, " ")
	dir := workDir(c)
	switch sched.Fault("exec", "exec-start", "exec-killed", "exec-fail") {
	case "exec-start":
		logf("exec [%s] %s = cannot start", dir, line)
		return nil, errors.New("fork/exec /sim/bin/go: resource temporarily unavailable")
	case "exec-killed":
		logf("exec [%s] %s = signal: killed", dir, line)
		return func() error { return errors.New("signal: killed") }, nil
	case "exec-fail":
		logf("exec [%s] %s = exit status 1 (cache)", dir, line)
		emit(c.Stderr, "open /home/u/.cache/pkg-build: permission denied\n")
		return func() error { return errors.New("exit status 1") }, nil
	}
	out, errText, err := run(dir, args)
	sched.NoteS(line)
	if err != nil {
		logf("exec [%s] %s = %v: %s", dir, line, err, strings.TrimSpace(errText))
	} else {
		logf("exec [%s] %s = ok", dir, line)
	}
	emit(c.Stdout, out)
	emit(c.Stderr, errText)
	return func() error { return err }, nil
}

// workDir is the directory the command starts in, by the name that $PWD gives
// to it if it is one.
func workDir(c *exec.Cmd) string {
	dir := kern.K.Cwd
	pwd := ""
	switch {
	case c.Dir != "":
		if dir = c.Dir; !strings.HasPrefix(dir, "/") {
			dir = kern.K.Cwd + "/" + dir
		}
		// package os/exec sets it
		pwd = path.Clean(dir)
	case c.Env == nil:
		pwd = os.Getenv("PWD")
	}
	for _, e := range c.Env {
		if strings.HasPrefix(e, "PWD=") {
			pwd = e[4:]
		}
	}
	dir = kern.Real(dir)
	if strings.HasPrefix(pwd, "/") && path.Clean(pwd) == pwd && kern.Follow(pwd) != nil && kern.Real(pwd) == dir {
		return pwd
	}
	if dir == "" {
		return kern.K.Cwd
	}
	return dir
}

func logf(f string, a ...interface{}) {
	if kern.K.Log != nil {
		kern.K.Log(fmt.Sprintf(f, a...))
	}
}

func emit(w io.Writer, s string) {
	if w != nil && s != "" {
		io.WriteString(w, s)
	}
}

var exit1 = errors.New("exit status 1")

func run(dir string, args []string) (string, string, error) {
	if len(args) < 2 || filepath.Base(args[0]) != "go" {
		return "", "not found", errors.New("exit status 127")
	}
	switch args[1] {
	case "env":
		if len(args) == 3 && args[2] == "GOMOD" {
			Calls["go env GOMOD"]++
			g := findMod(dir)
			if g == "" {
				return "/dev/null\n", "", nil
			}
			return g + "/go.mod\n", "", nil
		}
	case "list":
		return list(dir, args[2:])
	case "mod":
		if len(args) == 3 && args[2] == "tidy" {
			// the generated modules are tidy
			Calls["go mod tidy"]++
			return "", "", nil
		}
	}
	panic("goemu: command not simulated: " + strings.Join(args, " "))
}

func findMod(dir string) string {
	for {
		if n := kern.Follow(dir + "/go.mod"); n != nil && n.IsReg() {
			return dir
		}
		if dir == "/" {
			return ""
		}
		dir = path.Dir(dir)
	}
}

type modInfo struct {
	path, goVersion string
	req             map[string]string
	repl            map[string]string
}

func readMod(dir string) (modInfo, error) {
	m := modInfo{req: map[string]string{}, repl: map[string]string{}}
	n := kern.Follow(dir + "/go.mod")
	if n == nil {
		return m, errors.New("no go.mod")
	}
	block := ""
	for _, l := range strings.Split(string(n.Data), "\n") {
		if i := strings.Index(l, "//"); i >= 0 {
			l = l[:i]
		}
		f := strings.Fields(l)
		if len(f) == 0 {
			continue
		}
		if len(f) == 1 && f[0] == ")" {
			block = ""
			continue
		}
		if len(f) == 2 && f[1] == "(" {
			block = f[0]
			continue
		}
		if block != "" {
			f = append([]string{block}, f...)
		}
		switch {
		case f[0] == "module" && len(f) > 1:
			m.path = f[1]
		case f[0] == "go" && len(f) > 1:
			m.goVersion = f[1]
		case f[0] == "require" && len(f) > 2:
			m.req[f[1]] = f[2]
		case f[0] == "replace" && len(f) > 3:
			m.repl[f[1]] = f[len(f)-1]
		}
	}
	if m.path == "" {
		return m, errors.New("go: errors parsing go.mod")
	}
	return m, nil
}

func list(dir string, args []string) (string, string, error) {
	var mflag, find bool
	var rest []string
	for _, a := range args {
		switch a {
		case "-json", "--json":
		case "-m":
			mflag = true
		case "-find":
			find = true
		default:
			if strings.HasPrefix(a, "-") {
				Injected = append(Injected, a)
				return "", "flag provided but not defined: " + a + "\n", errors.New("exit status 2")
			}
			rest = append(rest, a)
		}
	}
	root := findMod(dir)
	if root == "" {
		Calls["go list outside module"]++
		return "", "go: go.mod file not found in current directory or any parent directory; see 'go help modules'\n", exit1
	}
	mi, err := readMod(root)
	if err != nil {
		return "", err.Error() + "\n", exit1
	}
	mod := &module{Path: mi.path, Main: true, Dir: root, GoMod: root + "/go.mod", GoVersion: mi.goVersion}
	if mflag {
		Calls["go list -m"]++
		return js(mod), "", nil
	}
	if len(rest) == 0 {
		rest = []string{"."}
	}
	var out strings.Builder
	for _, r := range rest {
		var p *pkg
		var msg string
		if r == "." || r == ".." || strings.HasPrefix(r, "./") || strings.HasPrefix(r, "../") || strings.HasPrefix(r, "/") {
			Calls["go list ."]++
			d := r
			if !strings.HasPrefix(r, "/") {
				d = path.Join(dir, r)
			}
			p, msg = local(d, root, mi, mod, find, r)
		} else {
			Calls["go list PKG"]++
			for _, e := range strings.Split(r, "/") {
				if strings.HasSuffix(e, ".") || e == "" {
					return "", fmt.Sprintf("malformed import path %q: invalid path element %q\n", r, e), exit1
				}
			}
			m, d := resolve(root, mi, mod, r)
			if m == nil {
				// an import path without a dot in its first element is looked up in std
				if !strings.Contains(strings.SplitN(r, "/", 2)[0], ".") {
					return "", fmt.Sprintf("package %s is not in std (/usr/local/go/src/%s)\n", r, r), exit1
				}
				return "", fmt.Sprintf("no required module provides package %s; to add it:\n\tgo get %s\n", r, r), exit1
			}
			p, msg = load(d, m.Dir, m, r, find, r)
		}
		if msg != "" {
			return out.String(), msg, exit1
		}
		out.WriteString(js(p))
	}
	return out.String(), "", nil
}

func js(v interface{}) string {
	b, _ := json.MarshalIndent(v, "", "\t")
	return string(b) + "\n"
}

// local loads the package in a directory of the main module or of a required one.
func local(d, root string, mi modInfo, main *module, find bool, match string) (*pkg, string) {
	n := kern.Follow(d)
	if n == nil || !n.IsDir() {
		return nil, fmt.Sprintf("stat %s: directory not found\n", d)
	}
	mods := []string{mi.path}
	for k := range mi.req {
		mods = append(mods, k)
	}
	sort.Strings(mods)
	for _, k := range mods {
		m, md := resolve(root, mi, main, k)
		if m == nil || d != md && !strings.HasPrefix(d, md+"/") {
			continue
		}
		imp := k + strings.TrimPrefix(d, md)
		if findMod(d) != md {
			return nil, fmt.Sprintf("main module (%s) does not contain package %s\n", mi.path, imp)
		}
		return load(d, m.Dir, m, imp, find, match)
	}
	for _, e := range n.Kids {
		if strings.HasSuffix(e.Name, ".go") {
			return nil, fmt.Sprintf("directory %s outside main module or its selected dependencies\n", d)
		}
	}
	return nil, fmt.Sprintf("no Go files in %s\n", d)
}

// resolve finds the module providing an import path.
func resolve(root string, mi modInfo, main *module, imp string) (*module, string) {
	best := ""
	cand := []string{mi.path}
	for k := range mi.req {
		cand = append(cand, k)
	}
	sort.Strings(cand)
	for _, c := range cand {
		if (imp == c || strings.HasPrefix(imp, c+"/")) && len(c) > len(best) {
			best = c
		}
	}
	if best == "" {
		return nil, ""
	}
	if best == mi.path {
		return main, root + strings.TrimPrefix(imp, best)
	}
	d := mi.repl[best]
	if d == "" {
		d = "/home/u/go/pkg/mod/" + best + "@" + mi.req[best]
	} else if !strings.HasPrefix(d, "/") {
		d = path.Join(root, d)
	}
	dm, err := readMod(d)
	if err != nil {
		return nil, ""
	}
	return &module{Path: best, Dir: d, GoMod: d + "/go.mod", GoVersion: dm.goVersion}, d + strings.TrimPrefix(imp, best)
}

// BadImport tells what is wrong with an import path.
func BadImport(imp string) string {
	es := strings.Split(imp, "/")
	for _, e := range es {
		for _, r := range e {
			if !(r < 128 && (r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || strings.ContainsRune("-._~+", r))) {
				return fmt.Sprintf("malformed import path %q: invalid char %q\n", imp, r)
			}
		}
		if strings.HasSuffix(e, ".") {
			return fmt.Sprintf("malformed import path %q: trailing dot in path element\n", imp)
		}
	}
	for _, e := range es {
		if e != "" && strings.ContainsRune("-~+", rune(e[0])) {
			return fmt.Sprintf("package %s: invalid input directory name %q\n", imp, e)
		}
	}
	return ""
}

func load(dir, root string, m *module, imp string, find bool, match string) (*pkg, string) {
	n := kern.Follow(dir)
	if n == nil || !n.IsDir() {
		return nil, fmt.Sprintf("no required module provides package %s; to add it:\n\tgo get %s\n", imp, imp)
	}
	p := &pkg{Dir: dir, ImportPath: imp, Root: root, Module: m, Match: []string{match}, Stale: true, StaleReason: "not installed but available in build cache"}
	imports, timports := map[string]bool{}, map[string]bool{}
	first := ""
	tname := ""
	ignored := false
	for _, e := range n.Kids {
		if !strings.HasSuffix(e.Name, ".go") || strings.HasPrefix(e.Name, "_") || strings.HasPrefix(e.Name, ".") || !e.N.IsReg() {
			continue
		}
		src := e.N.Data
		ctx := build.Default
		ctx.OpenFile = func(string) (io.ReadCloser, error) { return io.NopCloser(bytes.NewReader(src)), nil }
		if ok, err := ctx.MatchFile(dir, e.Name); err == nil && !ok {
			ignored = true
			continue
		}
		f, err := parser.ParseFile(token.NewFileSet(), e.Name, src, parser.ImportsOnly)
		if err != nil {
			return nil, strings.SplitN(err.Error(), " (and ", 2)[0] + "\n"
		}
		test := strings.HasSuffix(e.Name, "_test.go")
		set := imports
		if test {
			set = timports
			p.TestGoFiles = append(p.TestGoFiles, e.Name)
			tname = strings.TrimSuffix(f.Name.Name, "_test")
		} else {
			if p.Name != "" && p.Name != f.Name.Name {
				if msg := BadImport(imp); msg != "" {
					return nil, msg
				}
				return nil, fmt.Sprintf("found packages %s (%s) and %s (%s) in %s\n", p.Name, first, f.Name.Name, e.Name, dir)
			}
			p.Name = f.Name.Name
			if first == "" {
				first = e.Name
			}
			p.GoFiles = append(p.GoFiles, e.Name)
		}
		for _, i := range f.Imports {
			s, _ := strconv.Unquote(i.Path.Value)
			set[s] = true
		}
	}
	if len(p.GoFiles) > 0 || len(p.TestGoFiles) > 0 || ignored {
		if msg := BadImport(imp); msg != "" {
			return nil, msg
		}
	}
	if len(p.GoFiles) == 0 && len(p.TestGoFiles) == 0 && ignored {
		return nil, fmt.Sprintf("package %s: build constraints exclude all Go files in %s\n", imp, dir)
	}
	if len(p.GoFiles) == 0 && len(p.TestGoFiles) == 0 {
		return nil, fmt.Sprintf("no Go files in %s\n", dir)
	}
	if p.Name == "" {
		p.Name = tname
	}
	if p.Name == "main" {
		p.Target = "/home/u/go/bin/" + path.Base(imp)
	}
	if !find {
		for k := range imports {
			p.Imports = append(p.Imports, k)
		}
		sort.Strings(p.Imports)
		p.Deps = append([]string(nil), p.Imports...)
		for k := range timports {
			p.TestImports = append(p.TestImports, k)
		}
		sort.Strings(p.TestImports)
	}
	return p, ""
}
