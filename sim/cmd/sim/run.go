package main

import (
	"fmt"
	"time"

	"verifsim/simrt"
)

// Scenario: how plans are made and executed.
type Scenario struct {
	gen func(prop string, seed uint64) *Plan
	run func(w *World) // the director
	// post runs after the simulation has stopped
	post    func(w *World)
	maxStep int64
	maxSpin int64
}

var scenarios = map[string]*Scenario{}

// runPlan executes one plan. replay: recorded deviations, or nil to search.
func runPlan(p *Plan, replay []simrt.Dev) *Result {
	t0 := time.Now()
	sc := scenarios[p.Scen]
	if sc == nil {
		return &Result{Seed: p.Seed, Err: "no scenario " + p.Scen}
	}
	cfg := p.Sched
	if replay != nil {
		cfg.Mode = "replay"
	}
	ms_, sp := sc.maxStep, sc.maxSpin
	if ms_ == 0 {
		ms_ = 20_000_000
	}
	if sp == 0 {
		sp = 4_000_000
	}
	var w *World
	s := simrt.Run(p.Seed, cfg, replay, p.Wall, ms_, sp, func() {
		w = newWorld(p)
		W = w
		simrt.S.OnCrash = func(c simrt.Crash) {
			w.crash = append(w.crash, c)
			w.logf("CRASH %s: %s (%s)", c.Kind, c.Msg, c.Stack)
			// the kernel closes what the process had open, once the harness runs again
			simrt.After(0, func() { w.closeSockets(c.Proc) })
		}
		if len(p.Conf) > 0 {
			w.disk.HWrite(confPath, []byte(confText(p.Conf)))
		}
		sc.run(w)
	})
	r := &Result{Seed: p.Seed, Mode: p.Sched.Mode, Steps: s.Step, SimNS: s.NowNS(), Switches: s.Switches, Pauses: s.Pauses, EndWhy: s.EndWhy, SwHash: s.SwHash}
	if w == nil {
		r.Err = "world not built"
		return r
	}
	if s.EndWhy == "done" {
		for _, f := range w.final {
			f()
		}
		if sc.post != nil {
			sc.post(w)
		}
	} else if s.IsLivelock() || s.EndWhy == "deadlock" {
		w.fail(p.Prop, "hang", "the process makes no progress: %s", s.EndWhy)
	} else {
		r.Err = s.EndWhy
	}
	if !w.quietCrash {
		for _, c := range w.crash {
			w.fail("C06", "crash", "the host process died: %s: %s (%s)", c.Kind, c.Msg, c.Stack)
			if p.Prop != "C06" {
				w.fail(p.Prop, "crash", "the host process died: %s: %s (%s)", c.Kind, c.Msg, c.Stack)
			}
		}
	}
	for _, v := range w.viol {
		if v.Prop == p.Prop {
			r.Viol = append(r.Viol, v)
		}
	}
	w.note(uint64(s.Step), s.SwHash, uint64(s.NowNS()))
	r.Hash = w.h
	r.Faults, r.Counts = w.faults, w.counts
	if s.Pauses > 0 {
		r.Faults["goroutine-stall"] += s.Pauses
	}
	for h := range w.states {
		r.States = append(r.States, h)
	}
	r.NonTriv = w.nontriv
	r.Sample = w.sample.String()
	r.Devs = s.GetDevs()
	r.Pairs = len(s.Pairs())
	r.Log = w.log
	r.WallMS = float64(time.Since(t0).Microseconds()) / 1000
	return r
}

func (r *Result) first() string {
	if len(r.Viol) == 0 {
		return ""
	}
	return r.Viol[0].Kind
}

func (r *Result) has(kind string) *Violation {
	for i := range r.Viol {
		if r.Viol[i].Kind == kind {
			return &r.Viol[i]
		}
	}
	return nil
}

func (r *Result) summary() string {
	return fmt.Sprintf("seed %d: %d steps, %.1f s simulated, %d switches, end %s", r.Seed, r.Steps, float64(r.SimNS)/1e9, r.Switches, r.EndWhy)
}
