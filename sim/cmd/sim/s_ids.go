package main

import (
	"fmt"

	"verifsim/simrt"
)

// Scenario "ids": several agent processes, started at the same or nearly the same wall-clock time
// (on different hosts, or again after a crash with the clock stepped back).
func init() {
	scenarios["ids"] = &Scenario{gen: genIds, run: runIds}
	defCheck("C16", "a case is one application run, or several agent processes started at chosen wall-clock times, from one seed; non-trivial when ids of services and calls were compared", Part{"trace", 9000}, Part{"ids", 6000})
}

func genIds(prop string, seed uint64) *Plan {
	g := newGen(seed)
	p := basePlan(prop, "ids", seed, g)
	g.width, g.never, g.api, g.go_ = 3, 20, 30, 10
	g.maxSleep = 30 * ms
	n := 2 + g.r.N(4)
	mode := g.r.N(4)
	for i := 0; i < n; i++ {
		ev := Op{K: "start"}
		switch mode {
		case 0: // exactly the same instant
		case 1: // within a second
			ev.N = int64(g.r.N(1000)) * ms
		case 2: // nanoseconds apart
			ev.N = int64(g.r.N(3))
		case 3: // seconds or minutes apart, in any order
			ev.N = int64(g.r.N(600)-300) * sec
		}
		ev.M = int64(g.r.N(2)) // kill at once, or later
		p.Ev = append(p.Ev, ev)
	}
	p.Tasks = g.tasks(1+g.r.N(4), 3)
	if g.pct(1) { // a fleet started at once: ids of few effective bits meet
		p.Lite = true
		p.P["fleet"] = 300
		p.Ev = nil
		for i := 0; i < 300; i++ {
			ev := Op{K: "start"}
			if mode == 1 {
				ev.N = int64(g.r.N(1000)) * ms
			}
			p.Ev = append(p.Ev, ev)
		}
		p.Tasks = [][]Op{{{K: "svc", S: "/fleet"}}}
		return p
	}
	if g.pct(10) {
		p.P["crand_fail"] = 1
		for i := range p.Ev { // without entropy, a process can only tell itself apart by time and pid
			p.Ev[i].N = int64(i) * 17 * ms
		}
	}
	return p
}

func runIds(w *World) {
	p := w.p
	for i := range p.Ev {
		simrt.JumpWall(p.Wall + p.Ev[i].N - simrt.Wall())
		if !w.bootAgent(30 * sec) {
			w.fail("C16", "boot", "process %d did not start", i)
			return
		}
		a := newApp(w)
		ts := a.spawnTasks(p.Tasks)
		if p.Ev[i].M == 1 {
			simrt.Sleep(int64(w.rng.N(300)) * ms)
			w.faults["crash"]++
		} else {
			if !a.waitAll(ts, 600*sec) && !w.dead() {
				w.fail("C16", "app-stuck", "the application's goroutines did not finish")
			}
		}
		w.killAgent()
		w.faults["restart"]++
		simrt.Sleep(ms)
	}
	w.nontriv = len(w.ids) > 1
	fmt.Fprintf(&w.sample, "%d processes, %d ids", len(p.Ev), len(w.ids))
	w.state(fmt.Sprint(len(w.ids)))
}
