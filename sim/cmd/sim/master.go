package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verifsim/simrt"
)

// CheckDef says which scenarios decide a property and how much of each is run.
type CheckDef struct {
	Parts []Part
	Rule  string
	Real  []string // components that run their real code
	Stub  []string // components replaced by the simulator
	Assum []string
}

type Part struct {
	Scen  string
	Quick int // runs in the quick tier
}

var checks = map[string]*CheckDef{}

type job struct {
	Scen string `json:"scen"`
	Seed uint64 `json:"seed"`
	Idx  int    `json:"idx"`
	Rep  bool   `json:"rep,omitempty"`
}

func hashName(s string) uint64 { return strHash(s) }

func seedOf(base int64, prop, scen string, idx int) uint64 {
	return simrt.Mix(simrt.Mix(uint64(base), hashName(prop+"/"+scen)), uint64(idx)) >> 1
}

// ------------------------------------------------------------------ worker

func cmdWorker(args []string) {
	prop := args[0]
	hushStdout()
	debug.SetMaxStack(256 << 20)
	debug.SetGCPercent(200)
	in := bufio.NewReader(os.Stdin)
	enc := json.NewEncoder(out)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var j job
		if json.Unmarshal(line, &j) != nil {
			os.Exit(5)
		}
		r := safeRun(prop, j)
		r.Idx = j.Idx
		enc.Encode(r)
	}
}

func safeRun(prop string, j job) *Result {
	sc := scenarios[j.Scen]
	if sc == nil {
		return &Result{Err: "no scenario " + j.Scen}
	}
	p := sc.gen(prop, j.Seed)
	r := runPlan(p, nil)
	if len(r.Viol) > 0 {
		r.Plan = p
	} else {
		r.Devs = nil
	}
	return r
}

// ------------------------------------------------------------------ pool

type proc struct {
	cmd *exec.Cmd
	in  *json.Encoder
	out *bufio.Reader
	err *bytes.Buffer
}

func startWorker(prop string) (*proc, error) {
	self, _ := os.Executable()
	c := exec.Command(self, "worker", prop)
	c.Env = append(os.Environ(), "TZ=UTC", "GOMAXPROCS=1", "GOTRACEBACK=single", "GOMEMLIMIT=3GiB")
	w, err := c.StdinPipe()
	if err != nil {
		return nil, err
	}
	o, err := c.StdoutPipe()
	if err != nil {
		return nil, err
	}
	p := &proc{cmd: c, in: json.NewEncoder(w), out: bufio.NewReaderSize(o, 1<<20), err: &bytes.Buffer{}}
	c.Stderr = &limitBuf{b: p.err}
	return p, c.Start()
}

type limitBuf struct{ b *bytes.Buffer }

func (l *limitBuf) Write(p []byte) (int, error) {
	if l.b.Len() < 1<<16 {
		l.b.Write(p)
	}
	return len(p), nil
}

var runWall = 60 * time.Second

// do runs one job; a run that exceeds its wall clock is killed.
func (p *proc) do(j job) (*Result, error) {
	if err := p.in.Encode(j); err != nil {
		return nil, err
	}
	tm := time.AfterFunc(runWall, func() { p.cmd.Process.Kill() })
	line, err := p.out.ReadBytes('\n')
	if !tm.Stop() && err != nil {
		err = fmt.Errorf("killed after %v of wall clock", runWall)
	}
	if err != nil {
		return nil, err
	}
	var r Result
	if err := json.Unmarshal(line, &r); err != nil {
		return nil, err
	}
	return &r, nil
}

func (p *proc) stop() {
	p.cmd.Process.Kill()
	p.cmd.Wait()
}

type agg struct {
	sync.Mutex
	runs, nontriv          int64
	steps, sim, sw, pauses int64
	distinct, swd          map[uint64]struct{}
	states                 map[uint64]struct{}
	faults, counts         map[string]int64
	perScen                map[string]int64
	samples                []string
	viol                   map[string]*Result // by kind, lowest index
	violN                  map[string]int64
	known                  map[string]int64
	hashes                 map[int]uint64
	errs                   []string
	modes                  map[string]int64
}

func (a *agg) add(j job, r *Result, kf []finding) {
	a.Lock()
	defer a.Unlock()
	if j.Rep {
		a.counts["determinism-reruns"]++
		if h, ok := a.hashes[j.Idx]; ok && h != r.Hash {
			a.errs = append(a.errs, fmt.Sprintf("seed %d of scenario %s is not deterministic: %x then %x", j.Seed, j.Scen, h, r.Hash))
		}
		return
	}
	a.hashes[j.Idx] = r.Hash
	if r.Err != "" {
		a.errs = append(a.errs, fmt.Sprintf("seed %d of scenario %s: %s", j.Seed, j.Scen, r.Err))
		return
	}
	a.runs++
	a.perScen[j.Scen]++
	a.steps += r.Steps
	a.sim += r.SimNS
	a.sw += r.Switches
	a.pauses += r.Pauses
	a.modes[r.Mode]++
	if r.NonTriv {
		a.nontriv++
		a.distinct[r.Hash] = struct{}{}
		a.swd[r.SwHash] = struct{}{}
	}
	for _, s := range r.States {
		a.states[s] = struct{}{}
	}
	for k, n := range r.Faults {
		a.faults[k] += n
	}
	for k, n := range r.Counts {
		a.counts[k] += n
	}
	if len(a.samples) < 5 && r.NonTriv && r.Sample != "" {
		a.samples = append(a.samples, fmt.Sprintf("%s seed %d: %s; %s", j.Scen, j.Seed, r.Sample, r.summary()))
	}
	for i := range r.Viol {
		v := &r.Viol[i]
		if f := matchFinding(kf, v); f != nil {
			a.known[f.key()]++
			continue
		}
		a.violN[v.Kind]++
		if o := a.viol[v.Kind]; o == nil || j.Idx < o.Idx {
			a.viol[v.Kind] = r
		}
	}
}

// ------------------------------------------------------------------ known findings

type finding struct {
	Property string `json:"property"`
	Kind     string `json:"kind"`
	Match    string `json:"match"` // regular expression over the violation's text
	What     string `json:"what"`
	Status   string `json:"status"` // "open", or "fixed: ..." (suppresses nothing)
	re       *regexp.Regexp
}

func (f *finding) key() string { return f.Property + "|" + f.Kind + "|" + f.What }

func loadFindings(dir, prop string) ([]finding, error) {
	b, err := os.ReadFile(filepath.Join(dir, "known-findings.json"))
	if err != nil {
		if os.IsNotExist(err) {
			return nil, nil
		}
		return nil, err
	}
	var all struct {
		Open []finding `json:"open"`
	}
	if err := json.Unmarshal(b, &all); err != nil {
		return nil, err
	}
	var out []finding
	for _, f := range all.Open {
		if f.Property != prop {
			continue
		}
		f.re, err = regexp.Compile(f.Match)
		if err != nil {
			return nil, err
		}
		out = append(out, f)
	}
	return out, nil
}

func matchFinding(kf []finding, v *Violation) *finding {
	for i := range kf {
		if kf[i].Kind == v.Kind && kf[i].re.MatchString(v.Msg) {
			return &kf[i]
		}
	}
	return nil
}

// ------------------------------------------------------------------ check

func die(code int, f string, a ...any) {
	fmt.Fprintf(os.Stderr, "CHECK ERROR: "+f+"\n", a...)
	fmt.Printf("CHECK ERROR: "+f+"\n", a...)
	os.Exit(code)
}

func cmdCheck(args []string) {
	if len(args) < 1 {
		die(2, "usage: sim check PROP")
	}
	prop := args[0]
	def := checks[prop]
	if def == nil {
		die(2, "no check for %s", prop)
	}
	tier := os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	base := int64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		n, err := strconv.ParseInt(s, 10, 64)
		if err != nil {
			die(2, "VERIF_SEED=%q", s)
		}
		base = n
	}
	dir := os.Getenv("VERIF_DIR")
	if dir == "" {
		dir = "/verif"
	}
	kf, err := loadFindings(dir, prop)
	if err != nil {
		die(2, "known findings: %v", err)
	}
	nw := 8
	if s := os.Getenv("VERIF_WORKERS"); s != "" {
		nw, _ = strconv.Atoi(s)
	}
	mult := 1
	var until time.Time
	t0 := time.Now()
	if tier == "thorough" {
		mult = 1 << 20
		d := 10 * time.Minute
		if s := os.Getenv("VERIF_BUDGET_S"); s != "" {
			n, _ := strconv.Atoi(s)
			d = time.Duration(n) * time.Second
		}
		until = t0.Add(d)
	}
	if s := os.Getenv("VERIF_RUNS_X"); s != "" { // scale the quick tier
		f, _ := strconv.ParseFloat(s, 64)
		for i := range def.Parts {
			def.Parts[i].Quick = max(1, int(float64(def.Parts[i].Quick)*f))
		}
	}
	fmt.Printf("check %s tier=%s seed=%d\n", prop, tier, base)
	a := &agg{distinct: map[uint64]struct{}{}, swd: map[uint64]struct{}{}, states: map[uint64]struct{}{}, faults: map[string]int64{}, counts: map[string]int64{}, perScen: map[string]int64{},
		viol: map[string]*Result{}, violN: map[string]int64{}, known: map[string]int64{}, hashes: map[int]uint64{}, modes: map[string]int64{}}
	jobs := make(chan job, 4*nw)
	stopAll := make(chan struct{})
	var stopOnce sync.Once
	halt := func() { stopOnce.Do(func() { close(stopAll) }) }
	go func() {
		defer close(jobs)
		idx := 0
		total := 0
		for _, p := range def.Parts {
			total += p.Quick
		}
		// interleave the parts
		done := make([]int, len(def.Parts))
		for round := 0; round < mult; round++ {
			for k := range done {
				done[k] = 0
			}
			for n := 0; n < total; n++ {
				best, bv := -1, 2.0
				for k, p := range def.Parts {
					if done[k] >= p.Quick {
						continue
					}
					if v := float64(done[k]) / float64(p.Quick); v < bv {
						best, bv = k, v
					}
				}
				p := def.Parts[best]
				done[best]++
				j := job{Scen: p.Scen, Idx: idx, Seed: seedOf(base, prop, p.Scen, idx)}
				idx++
				select {
				case jobs <- j:
				case <-stopAll:
					return
				}
				if idx%61 == 1 { // determinism spot check: again, some time later, in whichever process
					jr := j
					jr.Rep = true
					select {
					case jobs <- jr:
					case <-stopAll:
						return
					}
				}
				if !until.IsZero() && time.Now().After(until) {
					return
				}
			}
		}
	}()
	var wg sync.WaitGroup
	var fatal *fatalRun
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var p *proc
			defer func() {
				if p != nil {
					p.stop()
				}
			}()
			n := 0
			for j := range jobs {
				select {
				case <-stopAll:
					return
				default:
				}
				if p == nil || n >= 2000 { // recycle
					if p != nil {
						p.stop()
					}
					var err error
					if p, err = startWorker(prop); err != nil {
						a.Lock()
						a.errs = append(a.errs, "cannot start a worker: "+err.Error())
						a.Unlock()
						halt()
						return
					}
					n = 0
				}
				n++
				r, err := p.do(j)
				if err != nil {
					p.stop()
					msg := p.err.String()
					p = nil
					a.Lock()
					if fatal == nil {
						fatal = &fatalRun{j, err.Error(), msg}
					}
					a.Unlock()
					halt()
					return
				}
				a.add(j, r, kf)
				a.Lock()
				stop := len(a.errs) > 0
				if len(a.viol) > 0 && tier == "quick" {
					// a few more runs for a better (lower) witness are not needed
					stop = true
				}
				if len(a.viol) > 0 && tier != "quick" {
					stop = true
				}
				a.Unlock()
				if stop {
					halt()
				}
			}
		}()
	}
	wg.Wait()
	halt()
	runWallS := time.Since(t0).Seconds()

	var vio *Result
	if fatal != nil {
		vio = confirmFatal(prop, fatal)
		if vio == nil {
			die(3, "a worker process was lost in scenario %s seed %d: %s\n%s", fatal.j.Scen, fatal.j.Seed, fatal.err, tail(fatal.stderr, 3000))
		}
		a.violN[vio.first()]++
	}
	if len(a.errs) > 0 {
		die(3, "%s", strings.Join(a.errs[:min(len(a.errs), 5)], "\n"))
	}
	if a.runs == 0 && vio == nil {
		die(3, "no run completed")
	}
	evDir := filepath.Join(dir, "evidence")
	os.MkdirAll(evDir, 0755)
	exit := 0
	replay := ""
	kind := ""
	if vio == nil && len(a.viol) > 0 {
		ks := sortedKeys(a.viol)
		sort.Slice(ks, func(i, j int) bool { return a.viol[ks[i]].Idx < a.viol[ks[j]].Idx })
		kind = ks[0]
		vio = a.viol[kind]
	} else if vio != nil {
		kind = vio.first()
	}
	if vio != nil {
		exit = 1
		var err error
		replay, err = reportViolation(prop, kind, vio, evDir, tier)
		if err != nil {
			die(4, "the violation %s (scenario %s seed %d) could not be reproduced: %v", kind, vio.Plan.Scen, vio.Seed, err)
		}
	}
	for _, k := range sortedKeys(a.known) {
		ps := strings.SplitN(k, "|", 3)
		fmt.Printf("KNOWN-FINDING: property=%s %s (seen in %d runs)\n", prop, ps[2], a.known[k])
	}
	writeEvidence(filepath.Join(evDir, prop+".json"), prop, tier, base, def, a, runWallS, time.Since(t0).Seconds(), exit)
	fmt.Printf("%s: %d runs (%d distinct non-trivial), %.0f s simulated, %d scheduling decisions, %.1f s wall\n", prop, a.runs, len(a.distinct), float64(a.sim)/1e9, a.sw, time.Since(t0).Seconds())
	if exit == 1 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, replay)
	}
	os.Exit(exit)
}

type fatalRun struct {
	j      job
	err    string
	stderr string
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

// confirmFatal re-runs a job that took its worker process down with a Go runtime fatal error (stack
// exhaustion, memory exhaustion). Twice the same in fresh processes is a violation; anything else
// is trouble of the harness.
func confirmFatal(prop string, f *fatalRun) *Result {
	why := ""
	for i := 0; i < 2; i++ {
		p, err := startWorker(prop)
		if err != nil {
			return nil
		}
		_, err = p.do(f.j)
		p.stop()
		if err == nil {
			return nil
		}
		w := fatalWhy(p.err.String())
		if w == "" || (why != "" && w != why) {
			return nil
		}
		why = w
	}
	pl := scenarios[f.j.Scen].gen(prop, f.j.Seed)
	return &Result{Seed: f.j.Seed, Idx: f.j.Idx, Plan: pl, Fatal: true, Viol: []Violation{{prop, prop + "/fatal", "the Go runtime ended the process: " + why}}}
}

func fatalWhy(s string) string {
	for _, w := range []string{"stack overflow", "out of memory", "goroutine stack exceeds"} {
		if strings.Contains(s, w) && strings.Contains(s, "scouterx") {
			return "stack or memory exhausted in agent code"
		}
	}
	return ""
}

func writeEvidence(path, prop, tier string, seed int64, def *CheckDef, a *agg, runS, wall float64, exit int) {
	if len(a.samples) == 0 {
		a.samples = []string{"no non-trivial run completed"}
	}
	// "distinct interleavings": distinct sequences of (from point, to point, to goroutine, step)
	cov := map[string]any{
		"evaluations":                 a.runs,
		"distinct_nontrivial":         len(a.distinct),
		"rule":                        def.Rule,
		"samples":                     a.samples,
		"runs_per_scenario":           a.perScen,
		"runs_per_hour":               int64(float64(a.runs) / runS * 3600),
		"seeds_per_hour":              int64(float64(a.runs) / runS * 3600),
		"simulated_seconds":           float64(a.sim) / 1e9,
		"simulated_s_per_wall_s":      float64(a.sim) / 1e9 / runS,
		"simulator_steps":             a.steps,
		"context_switches":            a.sw,
		"distinct_interleavings":      len(a.swd),
		"interleaving_measure":        "distinct hashes over the whole sequence of context switches (from-point, to-point, goroutine, step) among non-trivial runs",
		"distinct_end_states":         len(a.states),
		"faults_injected":             a.faults,
		"probes":                      a.counts,
		"scheduler_modes":             a.modes,
		"components_real":             def.Real,
		"components_stubbed":          def.Stub,
		"determinism_reruns_compared": a.counts["determinism-reruns"],
	}
	ev := map[string]any{"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "wall_s": wall, "violations": exit, "assumptions": def.Assum}
	b, _ := json.MarshalIndent(ev, "", " ")
	tmp := path + ".tmp"
	if err := os.WriteFile(tmp, append(b, '\n'), 0644); err != nil {
		die(3, "evidence: %v", err)
	}
	if err := os.Rename(tmp, path); err != nil {
		die(3, "evidence: %v", err)
	}
}
