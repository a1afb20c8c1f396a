package props

import (
	"bytes"
	"encoding/json"

	"a0sim/kern"
	"a0sim/life"
	"a0sim/sched"
	"a0sim/world"
)

// PackState is handed from one life of a pack to the next.
type PackState struct {
	World world.State
	Wants map[string]Want
	Pkg   string
	Old   []byte
	Had   bool
	Lives int
}

func nextLife(s PackState) {
	s.World = world.Save()
	s.Lives++
	b, err := json.Marshal(s)
	if err != nil {
		life.Broken("state: %v", err)
	}
	life.Res.Next = b
	life.Finish()
}

// C04: crash, look at what is left, pack again.
func init() {
	All["C04"] = func() {
		var s PackState
		out := outPath()
		if life.Req.State != nil {
			if err := json.Unmarshal(life.Req.State, &s); err != nil {
				life.Broken("state: %v", err)
			}
		} else {
			s.Pkg = pkgNameOf(pathDir(out))
			s.Wants = wants(world.A.Expect())
			if n := kern.Look(out); n != nil {
				s.Old, s.Had = append([]byte{}, n.Data...), true
			}
		}
		life.Res.Sample = sampleApp()
		// the state any crash may leave
		look := func(when string) {
			n := kern.Look(out)
			if n == nil || s.Had && bytes.Equal(n.Data, s.Old) {
				return
			}
			p, err := embedded(out, s.Pkg)
			if err != nil {
				fail("partial", "%s there is an unusable %s of %d bytes: %v", when, out, len(n.Data), err)
			}
			if code, msg := holds(p, s.Wants, false); code != "" {
				fail(code, "%s the generated file is complete but %s", when, msg)
			}
		}
		args := packArgs()
		if s.Lives < 4 && sched.Env("crash", 5) > 0 {
			kern.JournalStart()
			crash := func() {
				kern.K.CrashAt, sched.StopAt = 0, 0
				sched.T.FaultsOn = false
				kind := sched.Env("power-loss", 2)
				life.Log("CRASH (power loss: %v) after %d changes", kind == 1, kern.K.MutCalls-1)
				sched.T.Fired["crash"]++
				if kind == 1 {
					sched.T.Fired["power-loss"]++
					kern.PowerLoss()
				}
				look("after a crash")
				nextLife(s)
			}
			if sched.Env("crash-kind", 3) < 2 {
				kern.K.CrashAt = 1 + int64(sched.Env("crash-at-change", 8))
				kern.K.MutCalls = 0
				kern.K.CrashFn = crash
			} else {
				sched.StopAt = sched.Steps + 1 + int64(sched.Env("crash-at-statement", 1500))
				sched.StopFn = crash
			}
			if sched.Env("crash-list", 6) == 5 {
				args = []string{"list"}
			}
			err := cli(args...)
			kern.K.CrashAt, sched.StopAt = 0, 0
			if err != nil {
				fail("again", "packing in life %d fails: %v", s.Lives+1, err)
			}
			// it got through; lose power right afterwards
			if sched.Env("power-loss-after", 2) == 1 {
				sched.T.Fired["power-loss"]++
				kern.PowerLoss()
			}
			look("after the power was lost right behind the command")
			nextLife(s)
		}
		if err := cli(args...); err != nil {
			fail("again", "packing in life %d, without a crash, fails: %v", s.Lives+1, err)
		}
		p, err := embedded(out, s.Pkg)
		if err != nil {
			fail("output", "packing in life %d leaves an unusable file: %v", s.Lives+1, err)
		}
		if code, msg := holds(p, s.Wants, false); code != "" {
			fail(code, "packing again after %d crashes: %s", s.Lives, msg)
		}
		stat("converged", 1)
	}
}
