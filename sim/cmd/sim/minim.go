package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"verifsim/simrt"
)

// Replay file: everything needed to reproduce one violation exactly.
type Replay struct {
	Property  string      `json:"property"`
	Kind      string      `json:"kind"`
	Violation string      `json:"violation"`
	Seed      uint64      `json:"original_seed"`
	Plan      *Plan       `json:"plan"`
	Mode      string      `json:"mode"` // "deviations": plan + devs; "seeded": plan with its own scheduler; "fatal"
	Devs      []simrt.Dev `json:"schedule_deviations"`
	Hash      uint64      `json:"history_hash"`
	Faults    []string    `json:"fault_trace,omitempty"`
	Log       []string    `json:"event_log,omitempty"`
	Notes     string      `json:"notes"`
}

func (rp *Replay) exec() *Result {
	if rp.Mode == "seeded" || rp.Mode == "fatal" {
		return runPlan(rp.Plan.clone(), nil)
	}
	devs := append([]simrt.Dev{}, rp.Devs...)
	return runPlan(rp.Plan.clone(), devs)
}

// reportViolation minimises in a child process, replays the result in another one and returns the
// replay file's path.
func reportViolation(prop, kind string, r *Result, evDir, tier string) (string, error) {
	dir := filepath.Join(evDir, "replays")
	os.MkdirAll(dir, 0755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%d.json", prop, r.Seed))
	v := r.has(kind)
	rp := &Replay{Property: prop, Kind: kind, Violation: v.Msg, Seed: r.Seed, Plan: r.Plan, Mode: "deviations", Devs: r.Devs, Hash: r.Hash}
	if r.Fatal {
		rp.Mode = "fatal"
	}
	if rp.Devs == nil {
		rp.Devs = []simrt.Dev{}
	}
	b, _ := json.MarshalIndent(rp, "", " ")
	if err := os.WriteFile(path, b, 0644); err != nil {
		return "", err
	}
	self, _ := os.Executable()
	run := func(lim time.Duration, args ...string) (string, int) {
		c := exec.Command(self, args...)
		c.Env = append(os.Environ(), "TZ=UTC", "GOMAXPROCS=1", "GOTRACEBACK=single", "GOMEMLIMIT=3GiB")
		tm := time.AfterFunc(lim, func() { c.Process.Kill() })
		defer tm.Stop()
		o, err := c.CombinedOutput()
		code := 0
		if err != nil {
			code = 99
			if ee, ok := err.(*exec.ExitError); ok {
				code = ee.ExitCode()
			}
		}
		return string(o), code
	}
	if !r.Fatal {
		mpath := path + ".min"
		if o, code := run(150*time.Second, "minimise", path, mpath); code == 0 {
			if _, code := run(120*time.Second, "replay", mpath); code == 1 {
				os.Rename(mpath, path)
			} else {
				os.Remove(mpath)
			}
		} else {
			fmt.Printf("minimisation ended with %d: %s\n", code, tail(o, 500))
			os.Remove(mpath)
		}
	}
	o, code := run(120*time.Second, "replay", path)
	if r.Fatal {
		if fatalWhy(o) == "" {
			return path, fmt.Errorf("replay ended with %d: %s", code, tail(o, 800))
		}
	} else if code != 1 {
		return path, fmt.Errorf("replay ended with %d: %s", code, tail(o, 800))
	}
	for _, l := range strings.Split(tail(o, 6000), "\n") {
		if l != "" {
			fmt.Println("  " + l)
		}
	}
	return path, nil
}

func loadReplay(path string) *Replay {
	b, err := os.ReadFile(path)
	if err != nil {
		die(2, "%v", err)
	}
	rp := &Replay{}
	if err := json.Unmarshal(b, rp); err != nil {
		die(2, "%v", err)
	}
	return rp
}

// cmdReplay re-executes a replay file: exit 1 if the violation shows with the recorded history,
// 0 if it does not show, 3 if something else happens.
func cmdReplay(args []string) {
	rp := loadReplay(args[0])
	hushStdout()
	logRuns = true
	r := rp.exec()
	v := r.has(rp.Kind)
	if len(args) > 1 && args[1] == "-v" {
		for _, l := range r.Log {
			fmt.Fprintln(out, l)
		}
	}
	fmt.Fprintf(out, "replay of %s: %s\n", rp.Kind, r.summary())
	if v == nil {
		fmt.Fprintf(out, "the violation does not occur (%d other violations)\n", len(r.Viol))
		for _, x := range r.Viol {
			fmt.Fprintf(out, "  %s: %s\n", x.Kind, x.Msg)
		}
		os.Exit(0)
	}
	fmt.Fprintf(out, "%s: %s\n", v.Kind, v.Msg)
	fmt.Fprintf(out, "plan: %d tasks, %d operations, %d timeline events, %d network faults, %d disk faults, %d scheduling deviations\n", len(rp.Plan.Tasks), countOps(rp.Plan.Tasks), len(rp.Plan.Ev), len(rp.Plan.Net), len(rp.Plan.FS), len(rp.Devs))
	if r.Hash != rp.Hash {
		fmt.Fprintf(out, "the history differs from the recorded one (%x, recorded %x)\n", r.Hash, rp.Hash)
		os.Exit(3)
	}
	os.Exit(1)
}

type minimiser struct {
	kind  string
	until time.Time
	n     int
	best  *Plan
	devs  []simrt.Dev
}

func (m *minimiser) over() bool { return time.Now().After(m.until) }

// try runs a candidate in seeded mode, with a few scheduler seeds.
func (m *minimiser) try(p *Plan) bool {
	for k := 0; k < 5; k++ {
		if m.over() {
			return false
		}
		q := p.clone()
		if k > 0 {
			q.Sched.Seed = simrt.Mix(p.Sched.Seed+uint64(k), 99) >> 1
		}
		m.n++
		r := runPlan(q, nil)
		if r.has(m.kind) != nil {
			m.best = q
			m.devs = r.Devs
			return true
		}
		if len(r.Devs) == 0 && q.Sched.Mode == "sticky" {
			return false
		}
	}
	return false
}

// ddList tries to remove chunks of a list of n elements; apply builds the candidate keeping the
// elements for which keep is true.
func (m *minimiser) ddList(n int, apply func(keep []bool) *Plan) {
	keep := make([]bool, n)
	for i := range keep {
		keep[i] = true
	}
	for size := n; size >= 1 && !m.over(); size /= 2 {
		for at := 0; at < n && !m.over(); at += size {
			c := append([]bool{}, keep...)
			any := false
			for i := at; i < at+size && i < n; i++ {
				any = any || c[i]
				c[i] = false
			}
			if !any {
				continue
			}
			if p := apply(c); p != nil && m.try(p) {
				keep = c
			}
		}
	}
}

func keepOps(l []Op, keep []bool) (o []Op) {
	for i := range l {
		if keep[i] {
			o = append(o, l[i])
		}
	}
	return
}

// opLists enumerates every list of operations in the plan.
func opLists(p *Plan) []*[]Op {
	var out []*[]Op
	var walk func(l *[]Op)
	walk = func(l *[]Op) {
		out = append(out, l)
		for i := range *l {
			if len((*l)[i].Sub) > 0 {
				walk(&(*l)[i].Sub)
			}
		}
	}
	for i := range p.Tasks {
		walk(&p.Tasks[i])
	}
	walk(&p.Ev)
	return out
}

func (m *minimiser) plan() {
	for round := 0; round < 3 && !m.over(); round++ {
		n0 := size(m.best)
		b := m.best.clone()
		m.ddList(len(b.Tasks), func(k []bool) *Plan {
			q := b.clone()
			q.Tasks = nil
			q.Sched = m.best.Sched
			for i := range b.Tasks {
				if k[i] {
					q.Tasks = append(q.Tasks, b.Tasks[i])
				}
			}
			return q
		})
		for li := 0; li < len(opLists(m.best)) && !m.over(); li++ {
			b := m.best.clone()
			l := *opLists(b)[li]
			if len(l) == 0 {
				continue
			}
			m.ddList(len(l), func(k []bool) *Plan {
				q := b.clone()
				q.Sched = m.best.Sched
				x := opLists(q)[li]
				*x = keepOps(*x, k)
				return q
			})
		}
		b2 := m.best.clone()
		m.ddList(len(b2.Net), func(k []bool) *Plan {
			q := b2.clone()
			q.Sched = m.best.Sched
			q.Net = nil
			for i := range b2.Net {
				if k[i] {
					q.Net = append(q.Net, b2.Net[i])
				}
			}
			return q
		})
		b3 := m.best.clone()
		m.ddList(len(b3.FS), func(k []bool) *Plan {
			q := b3.clone()
			q.Sched = m.best.Sched
			q.FS = nil
			for i := range b3.FS {
				if k[i] {
					q.FS = append(q.FS, b3.FS[i])
				}
			}
			return q
		})
		b4 := m.best.clone()
		cks := sortedKeys(b4.Conf)
		m.ddList(len(cks), func(k []bool) *Plan {
			q := b4.clone()
			q.Sched = m.best.Sched
			for i, c := range cks {
				if !k[i] && c != "net_collector_ip" {
					delete(q.Conf, c)
				}
			}
			return q
		})
		b5 := m.best.clone()
		m.ddList(len(b5.Env), func(k []bool) *Plan {
			q := b5.clone()
			q.Sched = m.best.Sched
			q.Env = nil
			for i := range b5.Env {
				if k[i] {
					q.Env = append(q.Env, b5.Env[i])
				}
			}
			return q
		})
		if size(m.best) >= n0 {
			break
		}
	}
	// a calmer scheduler, if it will do
	if m.best.Sched.Mode != "sticky" {
		q := m.best.clone()
		q.Sched = simrt.SchedCfg{Mode: "sticky"}
		m.try(q)
	}
}

func size(p *Plan) int {
	return len(p.Tasks) + countOps(p.Tasks) + countOps([][]Op{p.Ev}) + len(p.Net) + len(p.FS) + len(p.Conf) + len(p.Env)
}

// devsMin removes scheduling deviations one chunk at a time.
func (m *minimiser) devsMin() {
	p := m.best
	cur := m.devs
	ok := func(d []simrt.Dev) bool {
		m.n++
		r := runPlan(p.clone(), append([]simrt.Dev{}, d...))
		return r.has(m.kind) != nil
	}
	if !ok(cur) {
		return
	}
	n := 2
	for len(cur) > 0 && !m.over() {
		sz := (len(cur) + n - 1) / n
		removed := false
		for at := 0; at < len(cur) && !m.over(); at += sz {
			c := append([]simrt.Dev{}, cur[:at]...)
			if at+sz < len(cur) {
				c = append(c, cur[at+sz:]...)
			}
			if ok(c) {
				cur = c
				removed = true
				n = max(n-1, 2)
				break
			}
		}
		if !removed {
			if sz == 1 {
				break
			}
			n = min(n*2, len(cur))
		}
	}
	m.devs = cur
}

func cmdMinimise(args []string) {
	rp := loadReplay(args[0])
	hushStdout()
	m := &minimiser{kind: rp.Kind, until: time.Now().Add(35 * time.Second), best: rp.Plan, devs: rp.Devs}
	m.plan()
	m.until = time.Now().Add(25 * time.Second)
	m.devsMin()
	logRuns = true
	r := runPlan(m.best.clone(), append([]simrt.Dev{}, m.devs...))
	v := r.has(m.kind)
	if v == nil {
		fmt.Fprintln(out, "the minimised plan does not reproduce")
		os.Exit(3)
	}
	var ft []string
	for _, k := range sortedKeys(r.Faults) {
		ft = append(ft, fmt.Sprintf("%s x%d", k, r.Faults[k]))
	}
	lg := r.Log
	if len(lg) > 200 {
		lg = lg[len(lg)-200:]
	}
	devs := m.devs
	if devs == nil {
		devs = []simrt.Dev{}
	}
	o := &Replay{Property: rp.Property, Kind: rp.Kind, Violation: v.Msg, Seed: rp.Seed, Plan: m.best, Mode: "deviations", Devs: devs, Hash: r.Hash, Faults: ft, Log: lg,
		Notes: fmt.Sprintf("minimised from %d plan elements and %d deviations in %d executions", size(rp.Plan), len(rp.Devs), m.n)}
	b, _ := json.MarshalIndent(o, "", " ")
	if err := os.WriteFile(args[1], b, 0644); err != nil {
		fmt.Fprintln(out, err)
		os.Exit(3)
	}
	os.Exit(0)
}
