package props

import (
	"bytes"
	"compress/gzip"
	"encoding/hex"
	"fmt"
	"go/parser"
	"go/token"
	"io"
	"os"
	"path"
	"sort"
	"strings"
	"time"

	"a0sim/kern"
	"a0sim/life"
	"a0sim/sched"
	"a0sim/world"

	"github.com/markbates/pkger/cmd/pkger/cmds"
	"github.com/markbates/pkger/cmd/pkger/zsim"
	"github.com/markbates/pkger/pkging"
	"github.com/markbates/pkger/pkging/mem"
)

// cli runs the pkger command in this process, as its main function would.
func cli(args ...string) (err error) {
	os.SimExit = func(code int) { panic(exited(code)) }
	if sched.W(4) == 3 {
		return program(args)
	}
	defer exits(&err, nil)
	root, err := cmds.New()
	if err != nil {
		return err
	}
	return root.Route(args)
}

// exited is what os.Exit panics with.
type exited int

// exits turns the end of the program into an error, if it is one.
func exits(err *error, first *int) {
	os.SimExit = nil
	r := recover()
	code, ok := r.(exited)
	if r != nil && !ok {
		panic(r)
	}
	if first != nil && *first >= 0 {
		code, ok = exited(*first), true
	}
	if ok {
		if *err = nil; code != 0 {
			*err = fmt.Errorf("exit status %d: %s", code, strings.TrimSpace(string(kern.K.Err)))
		}
	}
}

// program runs the whole program with these arguments. What follows its end is
// not undone, but it does not count.
func program(args []string) (err error) {
	stat("program", 1)
	first := -1
	defer exits(&err, &first)
	kern.K.Err = nil
	os.Args = append([]string{"pkger"}, args...)
	os.SimExit = func(code int) {
		if first < 0 {
			first = code
		}
		panic(exited(code))
	}
	zsim.Main()
	return nil
}

// tryCli also turns a panic into an error, as the command's main function does.
func tryCli(args ...string) (err error, panicked string) {
	defer func() {
		if r := recover(); r != nil {
			s := fmt.Sprint(r)
			if strings.HasPrefix(s, "kern: ") || strings.HasPrefix(s, "goemu: ") {
				panic(r)
			}
			panicked = s
		}
	}()
	return cli(args...), ""
}

// packArgs is the command line of a pack of the generated module.
func packArgs() []string {
	var args []string
	if world.A.Out != "" {
		args = append(args, "-o", world.A.Out)
	}
	for _, f := range world.A.Flags {
		args = append(args, "-include", f)
	}
	return args
}

// outPath is where the pack puts its result.
func outPath() string { return path.Join(world.A.Dir, world.A.Out, "pkged.go") }

const applyHead = "mem.UnmarshalEmbed([]byte(`"

// payload extracts the embedded payload from generated source; it fails on
// anything that is not a complete generated file.
func payload(src []byte, wantPkg string) ([]byte, error) {
	f, err := parser.ParseFile(token.NewFileSet(), "pkged.go", src, 0)
	if err != nil {
		return nil, fmt.Errorf("generated source does not parse: %v", err)
	}
	if wantPkg != "" && f.Name.Name != wantPkg {
		return nil, fmt.Errorf("generated source is in package %s, its directory in %s", f.Name.Name, wantPkg)
	}
	i := bytes.Index(src, []byte(applyHead))
	if i < 0 {
		return nil, fmt.Errorf("generated source has no payload")
	}
	rest := src[i+len(applyHead):]
	j := bytes.IndexByte(rest, '`')
	if j < 0 {
		return nil, fmt.Errorf("payload is not terminated")
	}
	return rest[:j], nil
}

// embedded reads the generated file back the way the built program would.
func embedded(out, wantPkg string) (*mem.Pkger, error) {
	n := kern.Look(out)
	if n == nil {
		return nil, fmt.Errorf("%s does not exist", out)
	}
	pl, err := payload(n.Data, wantPkg)
	if err != nil {
		return nil, err
	}
	return mem.UnmarshalEmbed(pl)
}

// Want is what one embedded entry must look like.
type Want struct {
	Name  string
	Dir   bool
	Mode  os.FileMode
	MTime int64
	Data  []byte
}

// wants turns the expected nodes into plain values.
func wants(exp map[string]*kern.Node) map[string]Want {
	out := map[string]Want{}
	for k, n := range exp {
		i := strings.Index(k, ":")
		name := path.Base(k[i+1:])
		if k[i+1:] == "/" {
			name = path.Base(world.A.Dir)
			if k[:i] != world.A.Mod {
				name = path.Base(world.A.Deps()[k[:i]])
			}
		}
		out[k] = Want{Name: name, Dir: n.IsDir(), Mode: goMode(n), MTime: n.MTime, Data: append([]byte(nil), n.Data...)}
	}
	return out
}

func sortedKeys(m map[string]Want) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// checkInfo compares a FileInfo with what is wanted; sizes and times of
// directories follow the flags.
func checkInfo(fi os.FileInfo, w Want, dirMTime bool) string {
	var bad []string
	if fi == nil {
		return "no FileInfo"
	}
	if fi.Name() != w.Name {
		bad = append(bad, fmt.Sprintf("name %q, not %q", fi.Name(), w.Name))
	}
	if fi.IsDir() != w.Dir {
		bad = append(bad, fmt.Sprintf("directory %v, not %v", fi.IsDir(), w.Dir))
	}
	if fi.Mode() != w.Mode {
		bad = append(bad, fmt.Sprintf("mode %v, not %v", fi.Mode(), w.Mode))
	}
	if !w.Dir && fi.Size() != int64(len(w.Data)) {
		bad = append(bad, fmt.Sprintf("size %d, not %d", fi.Size(), len(w.Data)))
	}
	if (!w.Dir || dirMTime) && w.MTime != -1 && !fi.ModTime().Equal(time.Unix(0, w.MTime)) {
		bad = append(bad, fmt.Sprintf("modification time %v, not %v", fi.ModTime().UTC(), time.Unix(0, w.MTime).UTC()))
	}
	return strings.Join(bad, ", ")
}

// readAll drains a file with reads of odd sizes.
func readAll(r io.Reader, chunk int) ([]byte, error) {
	var out []byte
	b := make([]byte, chunk)
	zero := 0
	for {
		n, err := r.Read(b)
		if n < 0 || n > len(b) {
			return out, fmt.Errorf("Read returned %d for a buffer of %d", n, len(b))
		}
		out = append(out, b[:n]...)
		if err == io.EOF {
			return out, nil
		}
		if err != nil {
			return out, err
		}
		if n == 0 {
			if zero++; zero > 100 {
				return out, fmt.Errorf("Read returns 0, nil without end")
			}
		}
	}
}

// holds checks that the embedded package holds exactly the wanted entries.
func holds(p *mem.Pkger, want map[string]Want, dirMTime bool) (code, msg string) {
	mods := map[string]bool{world.A.Mod: true}
	for m := range world.A.Deps() {
		mods[m] = true
	}
	for _, k := range sortedKeys(want) {
		w := want[k]
		fi, err := p.Stat(k)
		if err != nil {
			return "missing", fmt.Sprintf("%s is declared but cannot be found in the embedded package: %v", k, err)
		}
		if s := checkInfo(fi, w, dirMTime); s != "" {
			return "info", fmt.Sprintf("Stat(%s) in the embedded package: %s", k, s)
		}
		f, err := p.Open(k)
		if err != nil {
			return "missing", fmt.Sprintf("%s is declared but cannot be opened in the embedded package: %v", k, err)
		}
		fi, err = f.Stat()
		if err != nil {
			return "info", fmt.Sprintf("Open(%s).Stat in the embedded package: %v", k, err)
		}
		if s := checkInfo(fi, w, dirMTime); s != "" {
			return "info", fmt.Sprintf("Open(%s).Stat in the embedded package: %s", k, s)
		}
		if f.Name() != k {
			return "name", fmt.Sprintf("Open(%s).Name() is %q", k, f.Name())
		}
		if !w.Dir {
			b, err := readAll(f, 700)
			if err != nil {
				return "read", fmt.Sprintf("reading %s from the embedded package: %v", k, err)
			}
			if !bytes.Equal(b, w.Data) {
				return "content", fmt.Sprintf("%s holds %s in the embedded package, %s on disk", k, sum(b), sum(w.Data))
			}
		}
		f.Close()
	}
	// nothing else
	seen := map[string]bool{}
	b, err := p.MarshalJSON()
	if err != nil {
		return "marshal", err.Error()
	}
	keys, err := jsonFiles(b)
	if err != nil {
		return "marshal", err.Error()
	}
	for _, k := range keys {
		if _, ok := want[k]; !ok {
			return "extra", fmt.Sprintf("the embedded package holds %s, which nothing declares", k)
		}
		seen[k] = true
	}
	if len(seen) != len(want) {
		return "missing", fmt.Sprintf("the embedded package lists %d entries, %d are declared", len(seen), len(want))
	}
	for m := range mods {
		root := m + ":/"
		got := map[string]bool{}
		err := p.Walk(root, func(q string, fi os.FileInfo, err error) error {
			if err != nil {
				return err
			}
			w, ok := want[q]
			if !ok {
				return fmt.Errorf("Walk visits %s, which nothing declares", q)
			}
			if s := checkInfo(fi, w, dirMTime); s != "" {
				return fmt.Errorf("Walk at %s: %s", q, s)
			}
			if got[q] {
				return fmt.Errorf("Walk visits %s twice", q)
			}
			got[q] = true
			return nil
		})
		if err != nil {
			return "walk", err.Error()
		}
		for _, k := range sortedKeys(want) {
			if strings.HasPrefix(k, root) && !got[k] {
				return "walk", "Walk does not visit " + k
			}
		}
	}
	return "", ""
}

// pkgNameOf is the package name of the directory a pack writes to.
func pkgNameOf(dir string) string {
	n := kern.Look(dir)
	if n == nil {
		return ""
	}
	for _, e := range n.Kids {
		if e.Name != "pkged.go" && strings.HasSuffix(e.Name, ".go") && !strings.HasSuffix(e.Name, "_test.go") {
			f, err := parser.ParseFile(token.NewFileSet(), e.Name, e.N.Data, parser.PackageClauseOnly)
			if err == nil {
				return f.Name.Name
			}
		}
	}
	return ""
}

func sampleApp() string {
	a := world.A
	var ds []string
	for _, d := range a.Decls {
		ds = append(ds, d.Fn+"("+d.Arg+")")
	}
	s := fmt.Sprintf("module %s, %d disk entries, declares %s", a.Mod, len(world.List(a.Dir, "/")), strings.Join(ds, " "))
	if a.Out != "" {
		s += ", -o " + a.Out
	}
	if a.Dep != "" {
		s += ", dependency " + a.Dep
	}
	if a.Dep2 != "" {
		s += ", dependency " + a.Dep2
	}
	return s
}

// touchOut allows for the new modification time of the directory the pack
// removed its old result from.
func touchOut(exp map[string]Want) {
	k := world.A.Mod + ":" + path.Join("/", world.A.Out)
	if w, ok := exp[k]; ok {
		w.MTime = -1
		exp[k] = w
	}
}

func packOrFail() {
	if err := cli(packArgs()...); err != nil {
		life.Fail("pack", "packing fails: %v", err)
	}
}

var _ pkging.Pkger
var _ = sched.W

// decodeRaw undoes the transport encoding of a payload without the code under test.
func decodeRaw(b []byte) ([]byte, error) {
	d, err := hex.DecodeString(string(b))
	if err != nil {
		return nil, err
	}
	r, err := gzip.NewReader(bytes.NewReader(d))
	if err != nil {
		return nil, err
	}
	return io.ReadAll(r)
}
