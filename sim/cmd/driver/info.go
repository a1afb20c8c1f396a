package main

// Info is what the driver knows about a property's check.
type Info struct {
	Quick, Thorough int
	Race            int // quick runs under the race detector
	Rule            string
	Assume          []string
	Real, Stub      []string
}

const packRule = "distinct_nontrivial counts runs whose hash (task switches, system calls with results, recorded outcomes) differs; a run is trivial, and not counted, when the workload declares it so because nothing was exercised"

var packAssume = []string{
	"file names without colon, backslash or surrounding blanks, none ending in .tmp; no symbolic links in packed trees; no nested modules inside dependencies",
	"a path that does not exist on disk is declared without error only if the same string is given to Create or MkdirAll",
	"the module root and every dependency root hold a Go package; declarations use literals or constants of the same file",
	"the simulated kernel stands in for Linux (single user, no symlink races, POSIX file semantics)",
}

var packReal = []string{"all of github.com/markbates/pkger", "github.com/gobuffalo/here", "the Go standard library (patched at four entry points only)"}
var packStub = []string{"Linux file system calls (package kern)", "the go command: env GOMOD, list -json, list -m (package goemu)", "clock, entropy, goroutine scheduler and sync package (simulated)"}

var memAssume = []string{
	"sequentially consistent memory: a task switch can happen before every statement of the code under test and at every lock and map operation, not inside a statement",
	"a handle is used by one goroutine at a time, and not after it was closed",
}

var diskAssume = []string{
	"file names without colon, backslash or surrounding blanks; no symbolic links; the module's own go.mod and sources stay in place",
	"the simulated kernel stands in for Linux; package os on an identical second tree is the reference",
}

var memStub = []string{"goroutine scheduler and sync package (simulated: Mutex, RWMutex, Once, Map, ...)", "clock and entropy"}

var infos = map[string]Info{
	"C01": {Quick: 30000, Thorough: 300000, Race: 300, Rule: packRule, Assume: packAssume, Real: packReal, Stub: packStub},
	"C02": {Quick: 45000, Thorough: 400000, Rule: packRule, Assume: packAssume, Real: packReal, Stub: packStub},
	"C03": {Quick: 30000, Thorough: 300000, Rule: packRule, Assume: packAssume, Real: packReal, Stub: packStub},
	"C04": {Quick: 10000, Thorough: 300000, Rule: packRule, Assume: packAssume, Real: packReal, Stub: packStub},
	"C05": {Quick: 12500, Thorough: 300000, Rule: packRule, Assume: packAssume, Real: packReal, Stub: packStub},
	"C19": {Quick: 35000, Thorough: 300000, Rule: packRule, Assume: packAssume, Real: packReal, Stub: packStub},
	"C20": {Quick: 35000, Thorough: 400000, Rule: packRule, Assume: packAssume, Real: packReal, Stub: packStub},
	"C06": {Quick: 15000, Thorough: 200000, Race: 500, Rule: packRule, Assume: packAssume, Real: packReal, Stub: packStub},
	"C08": {Quick: 50000, Thorough: 600000, Race: 4000, Rule: packRule, Assume: memAssume, Real: packReal, Stub: memStub},
	"C09": {Quick: 40000, Thorough: 500000, Race: 3000, Rule: packRule, Assume: memAssume, Real: packReal, Stub: memStub},
	"C10": {Quick: 40000, Thorough: 500000, Race: 3000, Rule: packRule, Assume: memAssume, Real: packReal, Stub: packStub},
	"C11": {Quick: 40000, Thorough: 500000, Rule: packRule, Assume: diskAssume, Real: packReal, Stub: packStub},
	"C12": {Quick: 40000, Thorough: 500000, Rule: packRule, Assume: diskAssume, Real: packReal, Stub: packStub},
	"C13": {Quick: 40000, Thorough: 500000, Rule: packRule, Assume: diskAssume, Real: packReal, Stub: packStub},
	"C14": {Quick: 40000, Thorough: 500000, Race: 1500, Rule: packRule, Assume: diskAssume, Real: packReal, Stub: packStub},
	"C15": {Quick: 40000, Thorough: 500000, Race: 2000, Rule: packRule, Assume: memAssume, Real: packReal, Stub: packStub},
	"C16": {Quick: 25000, Thorough: 300000, Race: 1500, Rule: packRule, Assume: append([]string{"no names longer than 255 bytes, none with a NUL byte, no multi-range requests"}, diskAssume...), Real: packReal, Stub: packStub},
	"C17": {Quick: 40000, Thorough: 500000, Race: 2000, Rule: packRule, Assume: diskAssume, Real: packReal, Stub: packStub},
	"C18": {Quick: 20000, Thorough: 250000, Race: 600, Rule: packRule, Assume: packAssume, Real: packReal, Stub: packStub},
	"C07": {Quick: 30000, Thorough: 400000, Race: 2000, Rule: packRule, Assume: packAssume, Real: packReal, Stub: packStub},
}
