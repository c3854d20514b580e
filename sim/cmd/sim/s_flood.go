package main

import (
	"context"
	"fmt"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace"
	"verifsim/simrt"
)

// Scenario "flood": far more services end than the agent can send, for the collector's host name
// cannot be resolved or the socket takes nothing; then the trouble ends, and what ends from then on
// must be recorded again.
func init() {
	scenarios["flood"] = &Scenario{gen: genFlood, run: runFlood, maxStep: 200_000_000, maxSpin: 60_000_000}
}

func genFlood(prop string, seed uint64) *Plan {
	g := newGen(seed)
	p := basePlan(prop, "flood", seed, g)
	p.Sched = simrt.SchedCfg{Mode: "rand", P: []float64{0.02, 0.002}[g.r.N(2)]}
	p.Conf["net_collector_ip"] = "collector.example"
	n := 1 + g.r.N(2)
	for i := 0; i < n; i++ {
		p.Ev = append(p.Ev, Op{K: g.pick("stall", "stall", "nx", "timeout", "refused", "none"), N: int64([]int{300, 3000, 4600, 4600, 6000}[g.r.N(5)]), M: int64(1 + g.r.N(4)), At: int64(g.r.N(3)) * 7 * sec})
	}
	if g.pct(50) {
		p.P["early"] = 1 // before the agent ever had a socket
	}
	if g.pct(30) {
		p.P["errors"] = 1
	}
	if g.pct(30) {
		p.Conf["send_queue_size"] = "10"
	}
	if g.pct(20) {
		p.Conf["profile_step_max_keep_in_memory_count"] = "2"
	}
	return p
}

func runFlood(w *World) {
	p, c := w.p, w.col
	c.ips["collector.example"] = "10.0.0.1"
	set := func(k string) {
		c.udpErr, c.dnsBad, c.udpStall = "", "", 0
		switch k {
		case "stall":
			c.udpStall = forever
			w.faults["udp-stuck"]++
		case "nx", "timeout":
			c.dnsBad = k
		case "refused":
			c.udpErr = k
		}
	}
	if p.p("early") != 0 && len(p.Ev) > 0 {
		set(p.Ev[0].K)
	}
	if !w.bootAgent(60 * sec) {
		w.fail(p.Prop, "boot", "the process did not finish initialisation")
		return
	}
	var one func(tag string, i int) int64
	one = func(tag string, i int) (id int64) {
		var ctx context.Context
		w.api("StartService", func() { ctx = strace.StartService(context.Background(), fmt.Sprintf("/%s/%d", tag, i%7), "10.2.3.4") })
		if tc := tctxOf(ctx); tc != nil {
			id = tc.Txid
		}
		w.api("AddMessageStep", func() { strace.AddMessageStep(ctx, "m") })
		if p.p("errors") != 0 {
			w.api("MarkAsError", func() { strace.MarkAsError(ctx, fmt.Sprint("failed ", i%5)) })
		}
		w.api("EndService", func() { strace.EndService(ctx) })
		return
	}
	started := map[int64]bool{}
	total := 0
	for _, ev := range p.Ev {
		simrt.Sleep(ev.At)
		set(ev.K)
		var ts []*Task
		for t := int64(0); t < ev.M; t++ {
			n := int(ev.N / ev.M)
			ts = append(ts, w.task("flood", func() {
				for i := 0; i < n; i++ {
					started[one("flood", i)] = true
					total++
					if i%50 == 49 {
						simrt.Sleep(ms)
					}
				}
			}))
		}
		if !w.wait(600*sec, ts...) {
			if !w.dead() {
				w.fail(p.Prop, "app-stuck", "the application's goroutines did not finish")
			}
			return
		}
		if ev.At > 0 {
			simrt.Sleep(ev.At)
		}
	}
	set("none")
	w.calmDown()
	simrt.Sleep(45 * sec)
	if w.dead() {
		return
	}
	t0 := simrt.Now()
	after := map[int64]int{}
	var order []int64
	for i := 0; i < 40; i++ {
		id := one("after", i)
		after[id], started[id] = i, true
		order = append(order, id)
		if i%10 == 9 {
			simrt.Sleep(300 * ms)
		}
	}
	simrt.Sleep(10*sec + simrt.S.PausedTotal - simrt.S.PausedDone)
	if w.dead() {
		return
	}
	recs, profs, late := map[int64]int{}, map[int64]int{}, 0
	for i, d := range c.dg {
		for _, pk := range parseDgrams(c.dg[i:i+1], nil) {
			switch x := pk.V.(type) {
			case *xlogRec:
				recs[x.Txid]++
				if !started[x.Txid] {
					w.fail(p.Prop, "unknown-record", "a record was sent for transaction %x, which the application never started", uint64(x.Txid))
				}
				if recs[x.Txid] == 2 {
					w.fail(p.Prop, "twice", "two records were sent for transaction %x", uint64(x.Txid))
				}
			case *profRec:
				profs[x.Txid]++
			}
		}
		if d.T >= t0 {
			late++
		}
	}
	miss, missP := 0, 0
	for _, id := range order {
		if recs[id] == 0 {
			miss++
		}
		if profs[id] == 0 {
			missP++
		}
	}
	if miss > 0 || missP > 0 {
		w.fail(p.Prop, "not-recovered", "of 40 services ended 45 s and more after the trouble (%v) was over %d have no record, %d no profile (%d datagrams since)", floodText(p.Ev), miss, missP, late)
	}
	w.nontriv = total > 0
	w.counts["flooded-services"] += int64(total)
	w.counts["flooded-recorded"] += int64(len(recs))
	fmt.Fprintf(&w.sample, "%s: %d services, %d records, sched %s", floodText(p.Ev), total, len(recs), p.Sched.Mode)
	w.state(fmt.Sprint(total, len(recs), len(c.dg)))
}

func floodText(ev []Op) (s string) {
	for _, e := range ev {
		s += fmt.Sprintf("[%s %d by %d]", e.K, e.N, e.M)
	}
	return
}
