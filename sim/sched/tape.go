// Package sched is the heart of the simulator: the choice tapes every
// nondeterministic decision is drawn from, and the cooperative scheduler that
// decides which task runs next. It imports nothing of the code under test.
package sched

import (
	"math/bits"

	"a0sim/hb"
)

// Ent is one non-default decision: at decision point Idx the value Val was taken.
type Ent struct {
	Idx  int64  `json:"i"`
	Val  int64  `json:"v"`
	Note string `json:"n,omitempty"`
}

// Tapes hold every choice of one simulated life.
//
// W is the workload (dense), S the schedule and F the faults and environment
// (both sparse: a missing entry is the default "carry on" / "no fault").
type Tapes struct {
	W []int64 `json:"w"`
	S []Ent   `json:"s"`
	F []Ent   `json:"f"`
}

// Rand is a splitmix64 generator.
type Rand struct{ s uint64 }

func NewRand(seed uint64) *Rand { return &Rand{seed} }

func Mix(z uint64) uint64 {
	z += 0x9e3779b97f4a7c15
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (r *Rand) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (r *Rand) Int(n int) int {
	if n <= 1 {
		return 0
	}
	hi, _ := bits.Mul64(r.U64(), uint64(n))
	return int(hi)
}

func (r *Rand) P(num, den int) bool { return r.Int(den) < num }

// T is the tape set of the running life.
var T struct {
	Replay     bool
	In         Tapes
	Out        Tapes
	w, s, f    *Rand
	wi         int
	si, fi     int64
	sIn, fIn   map[int64]int64
	FaultsOn   bool            // fault points may fire
	FaultNum   int64           // probability of a fault per point, in 1/10000
	FaultMask  map[string]bool // kinds in play, nil: all
	FaultOps   map[string]bool // operations in play, nil: all
	FaultSkip  int             // let this many operations in play pass first
	FaultBurst int
	MaxFaults  int
	Fired      map[string]int64
	NFired     int
}

// Start begins a life. in == nil records, otherwise the tapes are replayed.
func Start(seed uint64, in *Tapes) {
	T.w = NewRand(Mix(seed ^ 0x57))
	T.s = NewRand(Mix(seed ^ 0x53))
	T.f = NewRand(Mix(seed ^ 0x46))
	T.Fired = map[string]int64{}
	if in != nil {
		T.Replay = true
		T.In = *in
		T.sIn = map[int64]int64{}
		T.fIn = map[int64]int64{}
		for _, e := range in.S {
			T.sIn[e.Idx] = e.Val
		}
		for _, e := range in.F {
			T.fIn[e.Idx] = e.Val
		}
	}
}

// W draws a workload choice in [0,n).
func W(n int) int {
	defer hb.Restore(hb.Quiet())
	if n <= 1 {
		return 0
	}
	var v int64
	if T.Replay {
		if T.wi < len(T.In.W) {
			v = T.In.W[T.wi] % int64(n)
			if v < 0 {
				v = -v
			}
		}
		T.wi++
	} else {
		v = int64(T.w.Int(n))
	}
	T.Out.W = append(T.Out.W, v)
	mixHash(uint64(v))
	return int(v)
}

// WP is true with probability num/den (false is the minimised value).
func WP(num, den int) bool { return W(den) >= den-num }

// Pick returns one of the given strings.
func Pick(xs ...string) string { return xs[W(len(xs))] }

// Env draws an environment choice in [0,n): directory order, clock, randomness.
// 0 is the plain environment.
func Env(note string, n int) int {
	defer hb.Restore(hb.Quiet())
	idx := T.fi
	T.fi++
	if n <= 1 {
		return 0
	}
	var v int64
	if T.Replay {
		v = T.fIn[idx] % int64(n)
		if v < 0 {
			v = 0
		}
	} else {
		v = int64(T.f.Int(n))
	}
	if v != 0 {
		T.Out.F = append(T.Out.F, Ent{idx, v, note})
	}
	return int(v)
}

// Fault asks whether a fault strikes here; kinds lists what could happen.
// It returns "" for no fault.
func Fault(op string, kinds ...string) string {
	defer hb.Restore(hb.Quiet())
	if !T.FaultsOn || len(kinds) == 0 {
		return ""
	}
	idx := T.fi
	T.fi++
	var v int64
	if T.Replay {
		v = T.fIn[idx]
		if v < 0 || v > int64(len(kinds)) {
			v = 0
		}
	} else {
		hit := false
		switch {
		case T.FaultOps != nil && !T.FaultOps[op]:
		case T.FaultSkip > 0:
			T.FaultSkip--
		case T.MaxFaults > 0 && T.NFired >= T.MaxFaults:
		case T.FaultBurst > 0:
			T.FaultBurst--
			hit = true
		default:
			hit = int64(T.f.Int(10000)) < T.FaultNum
		}
		if hit {
			k := 1 + T.f.Int(len(kinds))
			if T.FaultMask == nil || T.FaultMask[kinds[k-1]] {
				v = int64(k)
				if T.f.Int(8) == 0 {
					T.FaultBurst = T.f.Int(3)
				}
			}
		}
	}
	if v == 0 {
		return ""
	}
	T.Out.F = append(T.Out.F, Ent{idx, v, op + ":" + kinds[v-1]})
	T.NFired++
	T.Fired[kinds[v-1]]++
	return kinds[v-1]
}
