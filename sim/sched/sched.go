package sched

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"unsafe"

	"a0sim/hb"
)

// Task is one simulated thread of the program.
type Task struct {
	ID      int
	Name    string
	wake    chan struct{}
	done    bool
	blocked bool
	on      string // what it is blocked on
	lost    bool   // blocked in a primitive the simulator does not own
	Panic   interface{}
	Stack   string
	prio    int
	gid     uint64
	bg      bool // started by a go statement: Run does not wait for it
	joining bool // the main task, in Run
	streak  int
}

var (
	cur      *Task
	tasks    []*Task
	multi    bool
	mainT    *Task // the goroutine that calls Run
	Steps    int64 // statements executed
	Points   int64 // scheduling points taken while several tasks existed
	Seq      int64 // global event sequence number
	StopAt   int64 // statement at which StopFn is called, 0: never
	StopFn   func()
	StepCap  int64 = 20_000_000
	Switches int64
	Hash     uint64 = 1469598103934665603 // of the interleaving
	LastSite int32
	CapFn    func(what string)

	mode     int // 0 random, 1 priorities (PCT), 2 round robin-ish
	pnum     int
	change   map[int64]bool
	lowest   int
	progress int64
)

func mixHash(x uint64) {
	Hash ^= x
	Hash *= 1099511628211
}

// Note folds an observation into the run's hash.
func Note(x uint64) { mixHash(x) }

// NoteS folds a string into the run's hash.
func NoteS(s string) {
	for i := 0; i < len(s); i++ {
		Hash ^= uint64(s[i])
		Hash *= 1099511628211
	}
}

// Y is the scheduling point in front of every statement of the code under test.
func Y(site int32) {
	Steps++
	progress++
	if Steps >= StopAt && StopAt > 0 {
		StopAt = 0
		StopFn()
	}
	if Steps > StepCap {
		CapFn(fmt.Sprintf("no progress: %d statements executed", Steps))
	}
	if multi {
		if runtime.SimGoid() != cur.gid {
			hb.Quiet()
			if !rejoin() {
				hb.Restore(0)
				return
			}
		}
		LastSite = site
		hb.Quiet()
		point(site)
	}
	hb.Restore(0) // a statement of the code under test follows
}

// rejoin parks a task that was given up as stuck until it has the baton again.
// It reports false for goroutines that are no tasks.
func rejoin() bool {
	g := runtime.SimGoid()
	for _, t := range everyone() {
		if t.gid == g && !t.done {
			t.lost = false
			hb.Off()
			<-t.wake
			hb.Back()
			return true
		}
	}
	return false
}

// P is a scheduling point inside the simulator (a system call, a lock).
func P(site int32) {
	progress++
	defer hb.Restore(hb.Quiet())
	if multi {
		if runtime.SimGoid() != cur.gid {
			if !rejoin() {
				return
			}
		}
		LastSite = site
		point(site)
	}
}

func runnable() []*Task {
	var r []*Task
	for _, t := range tasks {
		if !t.done && !t.blocked && !t.lost {
			r = append(r, t)
		}
	}
	if mainT != nil && !mainT.blocked && !mainT.lost {
		r = append(r, mainT)
	}
	return r
}

func everyone() []*Task {
	if mainT == nil {
		return tasks
	}
	return append(tasks[:len(tasks):len(tasks)], mainT)
}

func point(site int32) {
	me := cur
	if me == nil {
		return
	}
	Points++
	idx := T.si
	T.si++
	var nxt *Task
	if T.Replay {
		if v, ok := T.sIn[idx]; ok {
			nxt = byID(int(v))
		}
	} else {
		nxt = choose(me, site)
	}
	if nxt == nil || nxt == me || nxt.done || nxt.blocked || nxt.lost {
		return
	}
	T.Out.S = append(T.Out.S, Ent{Idx: idx, Val: int64(nxt.ID)})
	switchTo(me, nxt, site)
}

func byID(id int) *Task {
	if id == mainID {
		return mainT
	}
	if id >= 0 && id < len(tasks) {
		return tasks[id]
	}
	return nil
}

func choose(me *Task, site int32) *Task {
	switch mode {
	case 1, 2:
		// PCT: a task that reaches a change point goes on only when the others
		// cannot. Change points are moments, or visits to some statements.
		if mode == 1 && change[Points] || mode == 2 && target(site) && T.s.Int(3) == 0 {
			lowest--
			me.prio = lowest
		}
		// what spins waiting for another task must not keep it from running
		if me.streak++; me.streak > 3000 {
			me.streak = 0
			lowest--
			me.prio = lowest
		}
		best := me
		for _, t := range everyone() {
			if !t.done && !t.blocked && !t.lost && t.prio > best.prio {
				best = t
			}
		}
		return best
	default:
		if T.s.Int(1000) >= pnum {
			return me
		}
		r := runnable()
		if len(r) == 0 {
			return me
		}
		return r[T.s.Int(len(r))]
	}
}

func switchTo(me, nxt *Task, site int32) {
	Switches++
	mixHash(uint64(me.ID)<<40 | uint64(nxt.ID)<<32 | uint64(uint32(site)))
	if Trace != nil {
		Trace(fmt.Sprintf("-- switch %s -> %s at %s", me.Name, nxt.Name, SiteName(site)))
	}
	cur = nxt
	me.streak = 0
	hb.Off()
	nxt.wake <- struct{}{}
	<-me.wake
	hb.Back()
}

// Trace, when set, receives readable scheduling events.
var Trace func(string)

// SiteName names a scheduling point.
var SiteName = func(site int32) string { return fmt.Sprint(site) }

// Block parks the running task until Wake is called on it by another one.
// Callers re-check their condition in a loop.
func Block(on string) {
	defer hb.Restore(hb.Quiet())
	me := cur
	if me == nil {
		CapFn("blocked forever outside of any task on " + on)
		return
	}
	me.blocked = true
	me.on = on
	dispatch(me)
}

// dispatch hands the baton on from a task that cannot continue.
func dispatch(me *Task) {
	if mainT != nil && mainT.joining {
		waiting := false
		for _, t := range tasks {
			waiting = waiting || !t.bg && !t.done
		}
		if !waiting {
			mainT.joining = false
			mainT.blocked = false
			if me == mainT {
				return
			}
		}
	}
	r := runnable()
	for i := 0; len(r) == 0 && anyLost() && i < 1000; i++ {
		runtime.Gosched()
		r = runnable()
	}
	if len(r) == 0 {
		alive := ""
		for _, t := range everyone() {
			if !t.done && !t.joining {
				alive += fmt.Sprintf(" %s(%s)", t.Name, t.on)
			}
		}
		CapFn("deadlock:" + alive)
		return
	}
	idx := T.si
	T.si++
	nxt := r[0]
	if T.Replay {
		if v, ok := T.sIn[idx]; ok {
			if t := byID(int(v)); t != nil && !t.done && !t.blocked && !t.lost {
				nxt = t
			}
		}
	} else if mode > 0 {
		for _, t := range r {
			if t.prio > nxt.prio {
				nxt = t
			}
		}
	} else {
		nxt = r[T.s.Int(len(r))]
	}
	if nxt != r[0] {
		T.Out.S = append(T.Out.S, Ent{Idx: idx, Val: int64(nxt.ID)})
	}
	mixHash(uint64(nxt.ID) << 8)
	Switches++
	if Trace != nil {
		s := "ended"
		if !me.done {
			s = "waits for " + me.on
		}
		Trace(fmt.Sprintf("-- %s %s, %s runs", me.Name, s, nxt.Name))
	}
	cur = nxt
	hb.Off()
	nxt.wake <- struct{}{}
	if !me.done && !me.lost {
		<-me.wake
	}
	hb.Back()
}

func anyLost() bool {
	for _, t := range everyone() {
		if t.lost && !t.done {
			return true
		}
	}
	return false
}

// Wake makes a blocked task runnable.
func Wake(t *Task) {
	if t != nil {
		t.blocked = false
		t.on = ""
	}
}

// Cur is the running task, nil outside Run.
func Cur() *Task { return cur }

// Multi reports whether tasks are running.
func Multi() bool { return multi }

// Spawn adds a task; it starts when the scheduler picks it.
func Spawn(name string, f func()) *Task {
	defer hb.Restore(hb.Quiet())
	t := &Task{ID: len(tasks), Name: name, wake: make(chan struct{})}
	t.prio = 1000
	if T.s != nil && !T.Replay {
		t.prio = 1000 + T.s.Int(1000)
	}
	tasks = append(tasks, t)
	go func() {
		t.gid = runtime.SimGoid()
		hb.Off()
		<-t.wake
		hb.Back()
		hb.Quiet()
		func() {
			defer func() {
				if r := recover(); r != nil {
					t.Panic = r
					t.Stack = string(debug.Stack())
				}
			}()
			f()
		}()
		hb.Quiet()
		if t.lost {
			t.lost = false
			hb.Off()
			<-t.wake
			hb.Back()
		}
		if !t.bg {
			hb.ReleaseMerge(unsafe.Pointer(&joined))
		}
		t.done = true
		dispatch(t)
	}()
	return t
}

const mainID = -1

var joined byte // what the ends of tasks are ordered before, to the race detector

// begin makes the calling goroutine, which runs alone, the main task.
func begin(expectPoints int) {
	if multi {
		return
	}
	mainT = &Task{ID: mainID, Name: "main", wake: make(chan struct{}), gid: runtime.SimGoid(), prio: 1000}
	if T.s != nil && !T.Replay {
		mainT.prio = 1000 + T.s.Int(1000)
	}
	Plan(expectPoints)
	lowest = 1000
	cur = mainT
	multi = true
	if !watching {
		watching = true
		go watch()
	}
}

// end makes the main task a goroutine that runs alone when there is no other.
func end() {
	for _, t := range tasks {
		if !t.done {
			return
		}
	}
	multi = false
	cur = nil
	mainT = nil
}

// Go is what a go statement in the code under test becomes.
func Go(f func()) {
	defer hb.Restore(hb.Quiet())
	begin(2000)
	t := Spawn(fmt.Sprintf("go%d", len(tasks)), func() {
		defer func() {
			if r := recover(); r != nil {
				PanicFn(r, debug.Stack())
			}
		}()
		f()
	})
	t.bg = true
	P(-90)
}

// PanicFn is called when a goroutine that the code under test started panics.
var PanicFn func(r interface{}, stack []byte)

// Sleep lets time pass.
func Sleep(ns int64) {
	SleepFn(ns)
	P(-91)
}

// SleepFn advances the clock.
var SleepFn func(ns int64)

// Tasks returns the tasks of the current or last Run.
func Tasks() []*Task { return tasks }

// Plan fixes the scheduling strategy of the run from the schedule stream.
func Plan(expectPoints int) {
	if T.Replay {
		return
	}
	switch T.s.Int(4) {
	case 3:
		mode = 2
		tsalt = uint64(T.s.Int(1 << 30))
		tmod = uint64([]int{3, 10, 30, 100}[T.s.Int(4)])
	case 0:
		mode = 0
		pnum = []int{10, 50, 150, 300, 500, 800}[T.s.Int(6)]
	default:
		mode = 1
		change = map[int64]bool{}
		d := 1 + T.s.Int(6)
		for i := 0; i < d; i++ {
			change[int64(T.s.Int(expectPoints))] = true
		}
	}
}

var tsalt, tmod uint64

// target reports whether a statement was drawn to be one at which tasks are
// held back.
func target(site int32) bool {
	z := (uint64(uint32(site)) + tsalt) * 0x9e3779b97f4a7c15
	z = (z ^ (z >> 29)) * 0xbf58476d1ce4e5b9
	return (z^(z>>32))%tmod == 0
}

// Run runs all spawned tasks to completion under the scheduler.
func Run(expectPoints int) {
	hb.Quiet()
	defer hb.Quiet()
	if len(tasks) == 0 {
		return
	}
	if multi {
		Plan(expectPoints)
	} else {
		begin(expectPoints)
	}
	mainT.joining = true
	mainT.blocked = true
	mainT.on = "its tasks"
	dispatch(mainT)
	hb.Acquire(unsafe.Pointer(&joined))
	end()
}

// Reset forgets finished tasks so that another Run can follow.
func Reset() {
	if !multi {
		tasks = nil
	}
}

// watch detects a task that is stuck in a primitive the simulator does not own
// (a plain channel, say): with one processor and every other goroutine parked,
// repeatedly getting the processor back without progress means that the
// running task cannot run. Another task is then let go on; the stuck one
// rejoins at its next scheduling point.
func watch() {
	var last int64 = -1
	idle := 0
	for {
		if !multi {
			watching = false
			return
		}
		runtime.Gosched()
		if progress != last {
			last = progress
			idle = 0
			continue
		}
		idle++
		if idle < 200 {
			continue
		}
		idle = 0
		if me := cur; me != nil && !me.done && !me.lost {
			me.lost = true
			me.on = "a primitive outside the simulator"
			Lost++
			dispatch(me)
		}
	}
}

var watching bool

// Lost counts how often a task was found stuck outside the simulator.
var Lost int64
