// Package life holds the request and result of one simulated life of the
// program, and starts and ends the simulated machine.
package life

import (
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"runtime"
	"runtime/debug"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"a0sim/goemu"
	"a0sim/hb"
	"a0sim/kern"
	"a0sim/sched"
)

// Request describes one simulated life of the program.
type Request struct {
	Prop  string          `json:"prop"`
	Tier  string          `json:"tier"`
	Seed  uint64          `json:"seed"`
	Life  int             `json:"life"`
	Run   int             `json:"run"`
	Tapes *sched.Tapes    `json:"tapes,omitempty"`
	State json.RawMessage `json:"state,omitempty"`
	Log   bool            `json:"log,omitempty"`
	Sites string          `json:"sites,omitempty"`
	Chaos uint64          `json:"chaos,omitempty"` // extra entropy for non-tape state, must not matter
}

// Violation is one way the property failed.
type Violation struct {
	Code string `json:"code"` // class, used when minimising
	Msg  string `json:"msg"`
}

// Result is what a life reports.
type Result struct {
	Viol     *Violation        `json:"viol,omitempty"`
	Next     json.RawMessage   `json:"next,omitempty"` // state of the next life, if any
	Stats    map[string]int64  `json:"stats,omitempty"`
	Faults   map[string]int64  `json:"faults,omitempty"`
	Hash     uint64            `json:"hash"`
	IHash    uint64            `json:"ihash"`
	SimNS    int64             `json:"sim_ns"`
	Steps    int64             `json:"steps"`
	Points   int64             `json:"points"`
	Switches int64             `json:"switches"`
	Trivial  bool              `json:"trivial,omitempty"`
	Sample   string            `json:"sample,omitempty"`
	Tapes    *sched.Tapes      `json:"tapes,omitempty"`
	Log      []string          `json:"log,omitempty"`
	Err      string            `json:"err,omitempty"`
	Races    int               `json:"races,omitempty"`
	Extra    map[string]string `json:"extra,omitempty"`
}

var (
	Req   Request
	Res   = Result{Stats: map[string]int64{}}
	On    bool
	start int64
	// Setup builds the simulated disk for a property before the code under
	// test initialises; package world fills it in.
	Setups = map[string]func(){}
	booted bool
)

func rawWrite(b []byte) {
	for len(b) > 0 {
		n, _, e := syscall.RawSyscall(syscall.SYS_WRITE, 1, uintptr(unsafe.Pointer(&b[0])), uintptr(len(b)))
		if e == syscall.EINTR {
			continue
		}
		if e != 0 {
			syscall.RawSyscall(syscall.SYS_EXIT_GROUP, 97, 0, 0)
		}
		b = b[n:]
	}
}

// Finish reports the result and ends the process at once.
func Finish() {
	Res.Faults = sched.T.Fired
	Res.Hash = sched.Hash
	Res.SimNS = kern.K.Clock - start
	Res.Steps = sched.Steps
	Res.Points = sched.Points
	Res.Switches = sched.Switches
	if sched.Lost > 0 {
		Res.Stats["stuck_outside"] += sched.Lost
	}
	Res.Stats["syscalls"] += kern.K.Calls
	for k, v := range goemu.Calls {
		Res.Stats[k] += v
	}
	Res.Races = hb.Races()
	if Res.Viol != nil || Req.Log || Req.Tapes != nil || Res.Races > 0 {
		t := sched.T.Out
		Res.Tapes = &t
	}
	syscall.SimHook = nil
	b, err := json.Marshal(&Res)
	if err != nil {
		b = []byte(fmt.Sprintf(`{"err":%q}`, err.Error()))
	}
	rawWrite(b)
	syscall.RawSyscall(syscall.SYS_EXIT_GROUP, 0, 0, 0)
}

// Fail records a violation and ends the life.
func Fail(code, f string, a ...interface{}) {
	if Res.Viol == nil {
		Res.Viol = &Violation{Code: code, Msg: fmt.Sprintf(f, a...)}
	}
	Log("VIOLATION %s: %s", code, Res.Viol.Msg)
	Finish()
}

// Broken reports a problem of the simulator itself.
func Broken(f string, a ...interface{}) {
	Res.Err = fmt.Sprintf(f, a...)
	Finish()
}

// Log adds a line to the readable trace of a replayed life.
func Log(f string, a ...interface{}) {
	if Req.Log {
		Res.Log = append(Res.Log, fmt.Sprintf(f, a...))
		if len(Res.Log) > 20000 {
			Res.Log = Res.Log[1:]
		}
	}
}

// Boot reads the request and starts the machine. Package a0s calls it from its
// init, before any package of the code under test is initialised.
func Boot() {
	if booted || os.Getenv("A0SIM") == "" {
		return
	}
	booted = true
	// on a goroutine of its own: what the race detector remembers of the
	// program must not depend on the size of the request
	read := make(chan bool)
	go func() {
		defer close(read)
		b, err := io.ReadAll(os.Stdin)
		if err != nil {
			Broken("request: %v", err)
		}
		if err := json.Unmarshal(b, &Req); err != nil {
			Broken("request: %v", err)
		}
		if Req.Sites != "" && Req.Log {
			if b, err := os.ReadFile(Req.Sites); err == nil {
				var sites []string
				json.Unmarshal(b, &sites)
				sched.SiteName = func(s int32) string {
					if s >= 0 && int(s) < len(sites) {
						return sites[s]
					}
					return fmt.Sprintf("sim(%d)", s)
				}
			}
		}
	}()
	<-read
	debug.SetGCPercent(-1)
	debug.SetMemoryLimit(1500 << 20)
	On = true
	sched.Start(Req.Seed, Req.Tapes)
	sched.CapFn = func(what string) { Fail("stuck", "%s", what) }
	sched.PanicFn = func(r interface{}, stack []byte) {
		p := fmt.Sprint(r)
		if strings.HasPrefix(p, "kern: ") || strings.HasPrefix(p, "goemu: ") {
			Broken("%s", p)
		}
		Fail("panic", "a goroutine panics: %s\n%s", p, stack)
	}
	sched.SleepFn = func(ns int64) { kern.K.Clock += ns }
	runtime.SimCoop = true
	runtime.SimSleep = sched.Sleep
	if lim := [2]uint64{6 << 30, 6 << 30}; !hb.On {
		syscall.RawSyscall6(syscall.SYS_PRLIMIT64, 0, syscall.RLIMIT_AS, uintptr(unsafe.Pointer(&lim)), 0, 0, 0)
	}
	kern.Init()
	if Req.Log {
		kern.K.Log = func(s string) {
			if t := sched.Cur(); t != nil {
				Log("[%s] %s", t.Name, s)
			} else {
				Log("%s", s)
			}
		}
		sched.Trace = func(s string) { Log("%s", s) }
	}
	start = kern.K.Clock
	setup := Setups[Req.Prop]
	if setup == nil {
		Broken("no setup for %s", Req.Prop)
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				Broken("setup panicked: %v\n%s", r, debug.Stack())
			}
		}()
		setup()
	}()
	runtime.SimSeed(uint64(sched.Env("runtime-randomness", 1<<30)) + 1)
	syscall.SimHook = kern.Handle
	time.SimNow = kern.Now
	exec.SimExec = goemu.Exec
}
