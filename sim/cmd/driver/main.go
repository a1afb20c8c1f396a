// driver explores many simulated runs of one property, minimises and writes
// down the first violation it finds, and reports what it covered.
package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"
)

type Ent struct {
	Idx  int64  `json:"i"`
	Val  int64  `json:"v"`
	Note string `json:"n,omitempty"`
}

type Tapes struct {
	W []int64 `json:"w"`
	S []Ent   `json:"s"`
	F []Ent   `json:"f"`
}

type Request struct {
	Prop  string          `json:"prop"`
	Tier  string          `json:"tier"`
	Seed  uint64          `json:"seed"`
	Life  int             `json:"life"`
	Run   int             `json:"run"`
	Tapes *Tapes          `json:"tapes,omitempty"`
	State json.RawMessage `json:"state,omitempty"`
	Log   bool            `json:"log,omitempty"`
	Sites string          `json:"sites,omitempty"`
}

type Violation struct {
	Code string `json:"code"`
	Msg  string `json:"msg"`
}

type Result struct {
	Viol     *Violation       `json:"viol,omitempty"`
	Next     json.RawMessage  `json:"next,omitempty"`
	Stats    map[string]int64 `json:"stats,omitempty"`
	Faults   map[string]int64 `json:"faults,omitempty"`
	Hash     uint64           `json:"hash"`
	SimNS    int64            `json:"sim_ns"`
	Steps    int64            `json:"steps"`
	Points   int64            `json:"points"`
	Switches int64            `json:"switches"`
	Trivial  bool             `json:"trivial,omitempty"`
	Sample   string           `json:"sample,omitempty"`
	Tapes    *Tapes           `json:"tapes,omitempty"`
	Log      []string         `json:"log,omitempty"`
	Err      string           `json:"err,omitempty"`
	Races    int              `json:"races,omitempty"`
}

// Chain is one complete run: one or more lives.
type Chain struct {
	Lives []Result
	Viol  *Violation
	Err   string
}

type Replay struct {
	Property  string     `json:"property"`
	Tier      string     `json:"tier"`
	VerifSeed uint64     `json:"verif_seed"`
	Run       int        `json:"run"`
	Seed      uint64     `json:"seed"`
	Violation *Violation `json:"violation"`
	Lives     []*Tapes   `json:"lives"`
	Log       []string   `json:"log"`
}

type Known struct {
	Property string `json:"property"`
	Code     string `json:"code"`
	Match    string `json:"match"` // substring of the message
	What     string `json:"what"`
}

var (
	fID      = flag.String("id", "", "property")
	fWorker  = flag.String("worker", "", "worker binary")
	fRaceW   = flag.String("race-worker", "", "worker binary built with the race detector")
	fRaces   = flag.Int("race-runs", -1, "override the number of runs under the race detector")
	fSites   = flag.String("sites", "", "scheduling point table")
	fTier    = flag.String("tier", "quick", "tier")
	fSeed    = flag.Uint64("seed", 1, "VERIF_SEED")
	fRuns    = flag.Int("runs", 0, "override the number of runs")
	fReplay  = flag.String("replay", "", "replay a file")
	fEv      = flag.String("evidence", "", "evidence file")
	fOut     = flag.String("replays", "", "directory for replay files")
	fKnown   = flag.String("known", "", "known findings file")
	fVerbose = flag.Bool("v", false, "verbose")
	fOne     = flag.Int("one", -1, "only this run, with its log")
	fSecs    = flag.Float64("secs", 0, "stop exploring after this many seconds (default 120, thorough 700)")
	fAll     = flag.Bool("all", false, "report every violation class instead of stopping at the first")
)

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "driver: "+f+"\n", a...)
	os.Exit(3)
}

func mix(z uint64) uint64 {
	z += 0x9e3779b97f4a7c15
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func seedOf(id string, seed uint64, run int) uint64 {
	h := seed
	for _, c := range id {
		h = mix(h ^ uint64(c))
	}
	return mix(h ^ mix(uint64(run)+0x1234567))
}

var env = []string{"A0SIM=1", "PATH=/sim/bin", "HOME=/home/u", "TZ=UTC", "LANG=C",
	"GOMAXPROCS=1", "GODEBUG=asyncpreemptoff=1", "GOTRACEBACK=single"}

// Runs numbered from raceBase on are watched by the race detector.
const raceBase = 10_000_000

func runLife(req *Request) (Result, error) {
	if req.Run >= raceBase {
		// keeping the log is itself something the race detector remembers:
		// the log comes from a twin without the detector
		q := *req
		q.Log = false
		r, err := runWorker(*fRaceW, &q)
		if err == nil && req.Log {
			if l, err := runWorker(*fWorker, req); err == nil {
				r.Log = l.Log
				if r.Tapes == nil {
					r.Tapes = l.Tapes
				}
			}
		}
		return r, err
	}
	return runWorker(*fWorker, req)
}

func runWorker(worker string, req *Request) (Result, error) {
	in, _ := json.Marshal(req)
	ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, worker)
	c.Env = env
	c.Dir = "/"
	c.Stdin = bytes.NewReader(in)
	var out, errb bytes.Buffer
	c.Stdout = &out
	c.Stderr = &errb
	err := c.Run()
	var r Result
	if ctx.Err() != nil {
		return r, fmt.Errorf("worker did not finish in 120 s")
	}
	if err != nil {
		// a fatal error of the Go runtime inside the code under test
		es := errb.String()
		if i := strings.Index(es, "fatal error: "); i >= 0 && !strings.Contains(es, "all goroutines are asleep") {
			es = es[i:]
			if len(es) > 4000 {
				es = es[:4000]
			}
			r.Viol = &Violation{Code: "fatal", Msg: "the program died: " + es}
			r.Tapes = req.Tapes
			return r, nil
		}
		if len(es) > 3000 {
			es = es[:3000]
		}
		return r, fmt.Errorf("worker: %v\n%s", err, es)
	}
	if err := json.Unmarshal(out.Bytes(), &r); err != nil {
		s := out.String()
		if len(s) > 300 {
			s = s[:300]
		}
		return r, fmt.Errorf("worker output: %v: %q", err, s)
	}
	if r.Err != "" {
		return r, fmt.Errorf("simulator: %s", r.Err)
	}
	if r.Races > 0 && r.Viol == nil {
		if s := races(errb.String()); s != "" {
			r.Viol = &Violation{Code: "race", Msg: s}
		}
	}
	return r, nil
}

// runChain runs all lives of a run; tapes may give a tape set per life.
func runChain(id string, seed uint64, run int, tapes []*Tapes, log bool) (Chain, error) {
	var ch Chain
	var state json.RawMessage
	for life := 0; life < 20; life++ {
		req := &Request{Prop: id, Tier: *fTier, Seed: mix(seed ^ uint64(life)*0x51ed), Life: life, Run: run, State: state, Log: log, Sites: *fSites}
		if tapes != nil {
			if life < len(tapes) && tapes[life] != nil {
				req.Tapes = tapes[life]
			} else {
				req.Tapes = &Tapes{}
			}
		}
		r, err := runLife(req)
		if err != nil {
			return ch, fmt.Errorf("run %d (seed %d) life %d: %v", run, seed, life, err)
		}
		ch.Lives = append(ch.Lives, r)
		if r.Viol != nil {
			ch.Viol = r.Viol
			return ch, nil
		}
		if r.Next == nil {
			return ch, nil
		}
		state = r.Next
	}
	return ch, fmt.Errorf("run %d: too many lives", run)
}

func (c *Chain) hash() uint64 {
	h := uint64(7)
	for _, l := range c.Lives {
		h = mix(h ^ l.Hash)
	}
	return h
}

func (c *Chain) tapes() []*Tapes {
	var t []*Tapes
	for _, l := range c.Lives {
		x := l.Tapes
		if x == nil {
			x = &Tapes{}
		}
		t = append(t, x)
	}
	return t
}

func loadKnown() []Known {
	var ks []Known
	if *fKnown == "" {
		return nil
	}
	f, err := os.Open(*fKnown)
	if err != nil {
		return nil
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if l == "" || strings.HasPrefix(l, "#") || strings.HasPrefix(l, "fixed:") {
			continue
		}
		var k Known
		if err := json.Unmarshal([]byte(l), &k); err != nil {
			fatal("%s: %v", *fKnown, err)
		}
		if k.Property == *fID {
			ks = append(ks, k)
		}
	}
	return ks
}

func (k Known) matches(v *Violation) bool {
	return v.Code == k.Code && strings.Contains(v.Msg, k.Match)
}

func main() {
	flag.Parse()
	if *fReplay != "" {
		os.Exit(replay())
	}
	info, ok := infos[*fID]
	if !ok {
		fatal("unknown property %q", *fID)
	}
	runs := info.Quick
	if *fTier == "thorough" {
		runs = info.Thorough
	}
	if *fRuns > 0 {
		runs = *fRuns
	}
	raceRuns := info.Race
	if *fTier == "thorough" {
		raceRuns *= 10
	}
	if *fRaces >= 0 {
		raceRuns = *fRaces
	}
	if *fRaceW == "" {
		raceRuns = 0
	}
	if *fOne >= 0 {
		ch, err := runChain(*fID, seedOf(*fID, *fSeed, *fOne), *fOne, nil, true)
		for _, l := range ch.Lives {
			for _, s := range l.Log {
				fmt.Println(s)
			}
			fmt.Printf("== hash %d stats %v faults %v sample %s\n", l.Hash, l.Stats, l.Faults, l.Sample)
		}
		fmt.Println(ch.Viol, err)
		os.Exit(0)
	}
	known := loadKnown()
	start := time.Now()
	secs := *fSecs
	if secs == 0 {
		secs = 120
		if *fTier == "thorough" {
			secs = 700
		}
	}
	budget := time.After(time.Duration(secs * float64(time.Second)))

	type out struct {
		run int
		ch  Chain
		err error
	}
	workers := runtime.NumCPU()
	jobs := make(chan int)
	outs := make(chan out, 64)
	var stop sync.Once
	stopc := make(chan struct{})
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range jobs {
				ch, err := runChain(*fID, seedOf(*fID, *fSeed, i), i, nil, false)
				if err == nil && (i%40 == 0) {
					// determinism: the same seed again must be the same execution
					ch2, err2 := runChain(*fID, seedOf(*fID, *fSeed, i), i, nil, false)
					if err2 != nil {
						err = err2
					} else if ch2.hash() != ch.hash() || (ch.Viol == nil) != (ch2.Viol == nil) {
						err = fmt.Errorf("run %d is not deterministic: %x %x", i, ch.hash(), ch2.hash())
					}
				}
				outs <- out{i, ch, err}
			}
		}()
	}
	go func() {
		defer close(jobs)
		for i := -raceRuns; i < runs; i++ {
			run := i
			if i < 0 {
				if time.Since(start).Seconds() > secs*0.4 {
					continue
				}
				run = raceBase + raceRuns + i
			}
			select {
			case jobs <- run:
			case <-stopc:
				return
			case <-budget:
				return
			}
		}
	}()
	go func() { wg.Wait(); close(outs) }()

	stats, faults := map[string]int64{}, map[string]int64{}
	hashes := map[uint64]bool{}
	var evals, raced, lives, simNS, steps, points, switches, replays int64
	var samples []string
	var errs []error
	knownHits := map[int]int{}
	viols := map[int]Chain{}
	classes := map[string]int{}
	for o := range outs {
		if o.err != nil {
			errs = append(errs, o.err)
			stop.Do(func() { close(stopc) })
			continue
		}
		evals++
		if o.run >= raceBase {
			raced++
		}
		if o.run%40 == 0 {
			replays++
		}
		trivial := false
		for _, l := range o.ch.Lives {
			lives++
			simNS += l.SimNS
			steps += l.Steps
			points += l.Points
			switches += l.Switches
			for k, v := range l.Stats {
				stats[k] += v
			}
			for k, v := range l.Faults {
				faults[k] += v
			}
			if l.Trivial {
				trivial = true
			}
			if l.Sample != "" && len(samples) < 6 && o.run%7 == 0 {
				samples = append(samples, fmt.Sprintf("run %d seed %d: %s", o.run, seedOf(*fID, *fSeed, o.run), l.Sample))
			}
		}
		if !trivial {
			hashes[o.ch.hash()] = true
		}
		if o.ch.Viol != nil {
			hit := false
			for i, k := range known {
				if k.matches(o.ch.Viol) {
					knownHits[i]++
					hit = true
					break
				}
			}
			if !hit {
				classes[o.ch.Viol.Code]++
				viols[o.run] = o.ch
				if !*fAll {
					stop.Do(func() { close(stopc) })
				}
			}
		}
	}
	wall := time.Since(start).Seconds()

	if *fAll {
		seen := map[string]bool{}
		var rs []int
		for r := range viols {
			rs = append(rs, r)
		}
		sort.Ints(rs)
		for _, r := range rs {
			v := viols[r].Viol
			if !seen[v.Code] {
				seen[v.Code] = true
				fmt.Printf("run %d [%s x%d]: %s\n", r, v.Code, classes[v.Code], clip(v.Msg, 1500))
			}
		}
	}
	for _, e := range errs {
		fmt.Fprintln(os.Stderr, "driver:", e)
		if len(errs) > 5 {
			break
		}
	}

	ev := map[string]interface{}{
		"property": *fID, "tier": *fTier, "seed": *fSeed, "level": "exploration",
		"wall_s": wall, "violations": len(viols),
		"assumptions": info.Assume,
		"coverage": map[string]interface{}{
			"evaluations":              evals,
			"distinct_nontrivial":      len(hashes),
			"rule":                     info.Rule,
			"samples":                  samples,
			"simulated_lives":          lives,
			"seeds_per_hour":           int64(float64(evals) / wall * 3600),
			"simulated_seconds":        float64(simNS) / 1e9,
			"statements_executed":      steps,
			"scheduling_points":        points,
			"task_switches":            switches,
			"faults_fired":             faults,
			"probes":                   stats,
			"distinct_measure":         "hash over the order of task switches (task, statement), system calls with their results, and recorded operation outcomes of a run",
			"determinism_rechecks":     replays,
			"runs_under_race_detector": raced,
			"components_real":          info.Real,
			"components_stubbed":       info.Stub,
			"known_finding_hits":       len(knownHits),
			"scheduler_strategies":     "random switching at six rates, PCT priorities with 1-6 change points, or priorities that drop at some statements, drawn per run",
			"violation_classes_found":  classes,
		},
	}
	writeEvidence := func() {
		if *fEv == "" {
			return
		}
		b, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(filepath.Dir(*fEv), 0o755)
		if err := os.WriteFile(*fEv, append(b, '\n'), 0o644); err != nil {
			fatal("%v", err)
		}
	}
	if len(viols) == 0 && len(errs) > 0 {
		fatal("%d runs failed in the simulator", len(errs))
	}
	if len(viols) > 0 {
		best := -1
		for r := range viols {
			if best < 0 || r < best {
				best = r
			}
		}
		if *fAll {
			writeEvidence()
			os.Exit(1)
		}
		code := report(best, viols[best])
		writeEvidence()
		os.Exit(code)
	}
	for i, k := range known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", *fID, k.What)
		if knownHits[i] == 0 {
			fmt.Printf("note: not met in this run\n")
		}
	}
	writeEvidence()
	if n := stats["unpackable"]; n*2 > int64(evals) {
		fmt.Printf("driver: %d of %d runs could not pack their module, which says nothing about %s\n", n, evals, *fID)
		os.Exit(3)
	}
	fmt.Printf("ok property=%s tier=%s races=%d runs=%d distinct=%d faults=%v wall=%.1fs\n", *fID, *fTier, raced, evals, len(hashes), faults, wall)
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// report minimises a violation, writes the replay file, and checks that the
// file reproduces it in fresh processes.
func report(run int, ch Chain) int {
	seed := seedOf(*fID, *fSeed, run)
	code := ch.Viol.Code
	fmt.Printf("violation found in run %d (seed %d): [%s] %s\n", run, seed, code, clip(ch.Viol.Msg, 3000))
	// lives before the last one only report tapes on request: replay to get them
	tapes := ch.tapes()
	if full := collect(run, seed); full != nil {
		tapes = full
	}
	again, err := runChain(*fID, seed, run, tapes, false)
	if err != nil || again.Viol == nil || again.Viol.Code != code {
		got := "no violation"
		if err != nil {
			got = err.Error()
		} else if again.Viol != nil {
			got = again.Viol.Code
		}
		// a death of the process leaves no tapes, and the race detector
		// remembers only so much of what it saw: replay by seed
		if code == "fatal" || code == "race" {
			tapes = nil
			again, err = runChain(*fID, seed, run, nil, false)
			if err != nil || again.Viol == nil || again.Viol.Code != code {
				fatal("violation of run %d does not replay (%s)", run, got)
			}
		} else {
			fatal("violation of run %d does not replay (%s)", run, got)
		}
	}
	var best []*Tapes
	if tapes != nil {
		best = minimise(run, seed, again.tapes(), code)
	}
	final, err := runChain(*fID, seed, run, best, true)
	if err != nil || final.Viol == nil || final.Viol.Code != code {
		fatal("minimised violation of run %d does not replay", run)
	}
	rp := Replay{Property: *fID, Tier: *fTier, VerifSeed: *fSeed, Run: run, Seed: seed, Violation: final.Viol, Lives: best}
	for i, l := range final.Lives {
		rp.Log = append(rp.Log, fmt.Sprintf("=== life %d", i+1))
		rp.Log = append(rp.Log, l.Log...)
	}
	os.MkdirAll(*fOut, 0o755)
	path := filepath.Join(*fOut, fmt.Sprintf("%s-seed%d-run%d.json", *fID, *fSeed, run))
	b, _ := json.MarshalIndent(rp, "", " ")
	if err := os.WriteFile(path, b, 0o644); err != nil {
		fatal("%v", err)
	}
	n := 0
	for _, t := range best {
		n += len(t.S) + len(t.F)
	}
	fmt.Printf("minimised: %d schedule and fault decisions, [%s] %s\n", n, final.Viol.Code, clip(final.Viol.Msg, 3000))
	fmt.Printf("VIOLATION property=%s replay=%s\n", *fID, path)
	return 1
}

// collect re-runs a seed asking every life for its tapes.
func collect(run int, seed uint64) []*Tapes {
	ch, err := runChain(*fID, seed, run, nil, true)
	if err != nil || ch.Viol == nil {
		return nil
	}
	return ch.tapes()
}

func clone(t []*Tapes) []*Tapes {
	var out []*Tapes
	for _, x := range t {
		y := &Tapes{}
		y.W = append(y.W, x.W...)
		y.S = append(y.S, x.S...)
		y.F = append(y.F, x.F...)
		out = append(out, y)
	}
	return out
}

func minimise(run int, seed uint64, best []*Tapes, code string) []*Tapes {
	deadline := time.Now().Add(40 * time.Second)
	budget := 1500
	// try candidates in parallel, take the first (in order) that still fails
	try := func(cands [][]*Tapes) int {
		if len(cands) == 0 || budget <= 0 || time.Now().After(deadline) {
			return -1
		}
		budget -= len(cands)
		res := make([]*Chain, len(cands))
		var wg sync.WaitGroup
		sem := make(chan struct{}, runtime.NumCPU())
		for i := range cands {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				sem <- struct{}{}
				defer func() { <-sem }()
				ch, err := runChain(*fID, seed, run, cands[i], false)
				if err == nil && ch.Viol != nil && ch.Viol.Code == code {
					res[i] = &ch
				}
			}(i)
		}
		wg.Wait()
		for i := range cands {
			if res[i] != nil {
				best = res[i].tapes()
				return i
			}
		}
		return -1
	}
	cut := func(get func(t *Tapes) int, del func(t *Tapes, i, n int)) {
		for life := len(best) - 1; life >= 0; life-- {
			if life >= len(best) {
				continue
			}
			n := get(best[life])
			for size := (n + 1) / 2; size >= 1; size /= 2 {
				for i := 0; life < len(best) && i < get(best[life]); {
					var cands [][]*Tapes
					var at []int
					for j := i; j < get(best[life]) && len(cands) < 8; j += size {
						c := clone(best)
						m := size
						if j+m > get(c[life]) {
							m = get(c[life]) - j
						}
						del(c[life], j, m)
						cands = append(cands, c)
						at = append(at, j)
					}
					k := try(cands)
					if k >= 0 {
						i = at[k]
					} else {
						i = at[len(at)-1] + size
					}
					if budget <= 0 || time.Now().After(deadline) {
						return
					}
				}
			}
		}
	}
	lenF := func(t *Tapes) int { return len(t.F) }
	delF := func(t *Tapes, i, n int) { t.F = append(t.F[:i:i], t.F[i+n:]...) }
	lenS := func(t *Tapes) int { return len(t.S) }
	delS := func(t *Tapes, i, n int) { t.S = append(t.S[:i:i], t.S[i+n:]...) }
	lenW := func(t *Tapes) int { return len(t.W) }
	delW := func(t *Tapes, i, n int) { t.W = append(t.W[:i:i], t.W[i+n:]...) }
	zeroW := func(t *Tapes, i, n int) {
		for k := i; k < i+n; k++ {
			t.W[k] = 0
		}
	}
	for pass := 0; pass < 2; pass++ {
		cut(lenF, delF)
		cut(lenS, delS)
		cut(lenW, delW)
		cut(lenW, zeroW)
	}
	return best
}

func replay() int {
	b, err := os.ReadFile(*fReplay)
	if err != nil {
		fatal("%v", err)
	}
	var rp Replay
	if err := json.Unmarshal(b, &rp); err != nil {
		fatal("%v", err)
	}
	*fID = rp.Property
	*fTier = rp.Tier
	ch, err := runChain(rp.Property, rp.Seed, rp.Run, rp.Lives, true)
	if err != nil {
		fatal("%v", err)
	}
	for i, l := range ch.Lives {
		fmt.Printf("=== life %d\n", i+1)
		for _, s := range l.Log {
			fmt.Println(s)
		}
	}
	if ch.Viol == nil {
		fmt.Println("the violation did not occur")
		return 0
	}
	fmt.Printf("[%s] %s\n", ch.Viol.Code, ch.Viol.Msg)
	fmt.Printf("VIOLATION property=%s replay=%s\n", rp.Property, *fReplay)
	return 1
}
