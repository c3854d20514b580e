package main

import (
	"context"
	"fmt"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/netdata"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace"

	"verifsim/simrt"
)

// Scenario "trace": an instrumented application on several goroutines, a healthy collector (the
// network may lose or delay datagrams: what counts is what the agent hands to the kernel).
func init() {
	scenarios["trace"] = &Scenario{gen: genTrace, run: runTrace}
}

func genTrace(prop string, seed uint64) *Plan {
	g := newGen(seed)
	p := basePlan(prop, "trace", seed, g)
	nt, ns := 1+g.r.N(5), 3
	if g.pct(25) {
		p.P["after"] = 1
	}
	switch prop {
	case "C01":
		g.dbl, g.go_ = 30, 10
		g.width = 3
	case "C02":
		g.errs, g.go_, g.inherit, g.api = 25, 12, 5, 15
		if g.pct(50) {
			g.fan, g.par, g.late = true, 8, 3
		}
		if g.pct(40) {
			p.Conf["trace_http_client_ip_header_key"] = "X-Forwarded-For"
		}
	case "C03":
		g.method, g.api, g.par = 22, 12, 4
		g.manySteps = []int{0, 10, 40, 120}[g.r.N(4)]
		g.bigText = g.pct(20)
		if g.pct(60) {
			p.Conf["profile_step_max_count"] = fmt.Sprint([]int{1, 2, 3, 5, 7, 10, 16, 50}[g.r.N(8)])
		}
		if g.pct(60) {
			p.Conf["profile_step_max_keep_in_memory_count"] = fmt.Sprint([]int{1, 2, 3, 5, 8, 10, 16, 33, 64}[g.r.N(9)])
		}
		if g.pct(30) {
			p.Conf["profile_http_header_enabled"] = "true"
			if g.pct(50) {
				p.Conf["profile_http_header_keys"] = g.pick("X-A", "X-A,X-B", "X-A, X-B", "Nope,X-B", "x-b", "x-B ,X-a,user-agent")
			}
		}
		if g.pct(30) {
			p.Conf["profile_http_querystring_enabled"] = "true"
		}
		if g.pct(20) {
			p.Conf["udp_max_bytes"] = fmt.Sprint([]int{100, 200, 1000}[g.r.N(3)])
		}
		nt, ns = 1+g.r.N(3), 2
	case "C04":
		g.errs, g.go_ = 30, 8
		g.bigText = g.pct(15)
		if g.pct(60) {
			g.dict = 5 + g.r.N(40)
		}
		if g.pct(50) {
			p.Conf["send_queue_size"] = fmt.Sprint([]int{1, 2, 3, 5, 10}[g.r.N(5)])
		}
		for i := g.r.N(4); i > 0; i-- {
			p.Ev = append(p.Ev, Op{K: "reset", At: int64(g.r.N(4000)) * ms})
		}
		if g.pct(30) {
			for i := g.r.N(4); i > 0; i-- {
				p.Net = append(p.Net, Fault{K: "stall", N: g.r.N(60), D: int64(g.r.N(2000)) * ms})
			}
		}
	case "C07":
		p.P["ctxvals"] = 1
		p.P["cancel"] = int64(g.r.N(2))
		if g.pct(30) {
			p.Conf["profile_http_header_enabled"] = "true"
			if g.pct(50) {
				p.Conf["profile_http_header_keys"] = g.pick("X-A", "X-A,X-B", "X-A, X-B", "Nope,X-B", "x-b", "x-B ,X-a,user-agent")
			}
		}
		if g.pct(15) {
			p.Conf["profile_http_querystring_enabled"] = "true"
		}
		if g.pct(40) {
			p.P["gopanic"] = int64(1 + g.r.N(3))
		}
		g.go_, g.panics = 15, 15
	case "C16":
		g.width = 2
		nt, ns = 3+g.r.N(6), 4
	}
	if g.pct(25) {
		p.P["reqctx"] = int64(1 + g.r.N(3))
	}
	if prop != "C04" && g.pct(40) {
		for i := g.r.N(6); i > 0; i-- {
			k := g.pick("drop", "dup", "delay", "refused", "nobufs", "stall")
			if (k == "refused" || k == "nobufs") && (g.bigText || p.Conf["udp_max_bytes"] != "") {
				k = "drop" // a failed fragment costs the whole packet: C05's business
			}
			p.Net = append(p.Net, Fault{K: k, N: g.r.N(60), D: int64(g.r.N(500)) * ms})
		}
	}
	if g.pct(20) {
		p.Ev = append(p.Ev, Op{K: "clock", At: int64(g.r.N(3000)) * ms, N: []int64{-3600, -5, 5, 86400, 3600}[g.r.N(5)] * sec})
		if g.pct(40) {
			g.suspend(p, 100, 3*sec, 100*sec)
		}
	}
	if prop == "C01" && g.pct(30) {
		p.Conf["send_queue_size"] = fmt.Sprint([]int{1, 2, 10}[g.r.N(3)])
	}
	p.Tasks = g.tasks(nt, ns)
	return p
}

func countOps(ts [][]Op) int {
	var f func(o []Op) int
	f = func(o []Op) int {
		n := len(o)
		for i := range o {
			n += f(o[i].Sub)
		}
		return n
	}
	n := 0
	for _, t := range ts {
		n += f(t)
	}
	return n
}

func (w *World) objHash(proc int) int32 { return textHashOf("/simhost/" + w.objName()) }
func (w *World) objName() string {
	if n := w.p.Conf["obj_name"]; n != "" {
		return n
	}
	return "go1"
}

func runTrace(w *World) {
	p := w.p
	if !w.bootAgent(30 * sec) {
		w.fail(p.Prop, "boot", "the process did not finish initialisation")
		return
	}
	a := newApp(w)
	var resets [][2]int64
	for i := range p.Ev {
		ev := p.Ev[i]
		switch ev.K {
		case "clock":
			simrt.After(ev.At, func() { simrt.JumpWall(ev.N); w.faults["clock-jump"]++ })
		case "suspend":
			simrt.After(ev.At, func() { simrt.Suspend(ev.N); w.faults["suspended"]++ })
		case "reset":
			simrt.Spawn(0, "resetter", func() {
				simrt.Sleep(ev.At)
				if c := w.col.call("OBJECT_RESET_CACHE", nil, 20*sec); c != nil {
					resets = append(resets, [2]int64{c.T, c.DoneT})
					w.counts["cache-resets"]++
				}
			})
		}
	}
	ts := a.spawnTasks(p.Tasks)
	if !a.waitAll(ts, 120*sec) && !w.dead() {
		for i, t := range ts {
			if !t.Done {
				w.fail("C06", "app-stuck", "application goroutine %d never finished: %s", i, t.G.Where())
				w.fail(p.Prop, "app-stuck", "application goroutine %d never finished: %s", i, t.G.Where())
			}
		}
	}
	w.calmDown()
	w.settle(6 * sec)
	if p.Prop == "C04" {
		// once the overload is over, what could not be delivered is on the next use: a last
		// service uses every text again
		a2 := replayTexts(w, a)
		w.settle(8 * sec)
		_ = a2
	}
	wi := collect(w.col.sent("C05"))
	w.counts["services"] += int64(len(a.svcs))
	w.counts["datagrams"] += int64(len(w.col.dg))
	var ended int
	for _, s := range a.svcs {
		if s.ended {
			ended++
		}
	}
	w.nontriv = ended > 0
	oracleExactlyOnce(w, a, wi, func(s *svc) (bool, bool) { return s.ended, s.ended })
	oracleFidelity(w, a, wi, w.objHash)
	maxc := int(atoi(p.Conf["profile_step_max_count"], 1024))
	oracleProfile(w, a, wi, func(s *svc) bool { return s.ended }, func() int { return maxc })
	if p.Prop == "C04" {
		oracleTextsEventually(w, a, wi)
	}
	if p.Conf["send_queue_size"] == "" {
		oracleTexts(w, a, wi, resets, 20*sec)
	}
	for _, k := range sortedKeys(a.fnWant) {
		if n := a.fnRuns[k]; n != 1 {
			w.fail("C07", "fn-runs", "the function given to GoWithTrace (%s) ran %d times", k, n)
		}
	}
	oracleRepeats(w, wi, resets)
	if x := p.p("gopanic"); x != 0 && len(w.crash) == 0 {
		// a panic of the application's own code outside the agent ends the process, as without the agent
		w.task("gopanic", func() {
			ctx := context.Background()
			if x > 1 {
				w.api("StartService", func() { ctx = strace.StartService(ctx, "/gopanic", "1.1.1.1") })
			}
			w.api("GoWithTrace", func() {
				strace.GoWithTrace(ctx, "gopanic", func(c context.Context) {
					if x == 3 {
						var st *netdata.MethodStep
						w.api("StartMethod", func() { st = strace.StartMethod(c) })
						defer w.api("EndMethod", func() { strace.EndMethod(c, st) })
					}
					panic(userPanic{77})
				})
			})
		})
		simrt.Sleep(5 * sec)
		w.quietCrash = true
		if len(w.crash) == 0 {
			w.fail("C07", "panic-swallowed", "a panic of the function given to GoWithTrace did not end the process")
		}
		for _, c := range w.crash {
			if c.Kind != "panic" || c.Val != (userPanic{77}) || c.Msg != fmt.Sprint(userPanic{77}) {
				w.fail("C07", "panic-changed", "the function given to GoWithTrace panicked with %v, the process died of %s %s (%T)", userPanic{77}, c.Kind, c.Msg, c.Val)
			}
		}
	}
	if w.sample.Len() == 0 {
		fmt.Fprintf(&w.sample, "%d tasks, %d ops, %d services (%d ended), %d packs in %d datagrams, sched %s", len(p.Tasks), countOps(p.Tasks), len(a.svcs), ended, len(wi.packs), len(w.col.dg), p.Sched.Mode)
	}
	w.state(fmt.Sprint(len(a.svcs), ended, len(wi.packs)))
}

// replayTexts lets one more service use every text the application ever used, one at a time,
// after the load is gone.
func replayTexts(w *World, a *App) *App {
	seen := map[string]bool{}
	type tx struct{ typ, text string }
	var all []tx
	add := func(typ, text string) {
		if text != "" && text != "*" && !seen[typ+"/"+text] {
			seen[typ+"/"+text] = true
			all = append(all, tx{typ, text})
		}
	}
	for _, s := range a.svcs {
		for _, n := range s.names {
			add("service", n)
		}
		for _, e := range s.errs {
			add("error", e)
		}
		for _, st := range s.steps {
			add(st.ttype, st.text)
		}
		add("ua", s.ua)
		add("referer", s.ref)
	}
	for _, u := range a.dicts {
		add(u.typ, u.text)
	}
	a2 := newApp(w)
	var ops []Op
	gap := Op{K: "sleep", N: 700 * ms}
	for _, t := range all {
		one := func(o Op) Op { return Op{K: "svc", S: "again", U: "1.1.1.1", Sub: []Op{gap, o, gap}} }
		switch t.typ {
		case "service":
			ops = append(ops, Op{K: "svc", S: t.text, U: "1.1.1.1"})
		case "error":
			ops = append(ops, one(Op{K: "errf", S: t.text}))
		case "method":
			ops = append(ops, one(Op{K: "method", S: t.text}))
		case "hmsg":
			ops = append(ops, one(Op{K: "hmsg", S: t.text}))
		case "apicall":
			ops = append(ops, one(Op{K: "api", S: t.text}))
		default:
			ops = append(ops, gap, Op{K: "dict", U: t.typ, S: t.text})
		}
		ops = append(ops, gap)
	}
	ts := a2.spawnTasks([][]Op{ops})
	a2.waitAll(ts, 3600*sec)
	a.dicts = append(a.dicts, a2.dicts...)
	for _, s := range a2.svcs {
		a.svcs = append(a.svcs, s)
		a.byTx[s.txid] = s
		s.id = len(a.svcs) - 1
	}
	return a2
}

// oracleRepeats: a text that reached the kernel is not sent again while the cache stands.
func oracleRepeats(w *World, wi *wire, resets [][2]int64) {
	margin := 3*sec + simrt.S.PausedTotal
	for _, f := range w.p.Net {
		margin += f.D
	}
	// two users of a text at once, one of whose copies is dropped by a full queue, make a third
	// user send it again: as many repetitions as there are users are no flood
	spare := 0
	if w.p.Conf["send_queue_size"] != "" {
		spare = len(w.p.Tasks) + 3
	}
	for _, k := range sortedKeys(wi.texts) {
		left := spare
		var last map[int]int64 = map[int]int64{}
		for _, p := range wi.texts[k] {
			t, ok := last[p.Proc]
			last[p.Proc] = p.T
			if !ok || p.T-t < margin {
				continue
			}
			again := false
			for _, r := range resets {
				again = again || r[1] >= t-margin && r[0] <= p.T
			}
			if left--; !again && left < 0 {
				w.fail("C04", "text-repeated", "dictionary entry %s was sent at %d ms and again at %d ms without a cache reset in between", k, t/ms, p.T/ms)
			}
		}
	}
}

// oracleTextsEventually: whatever overload there was, every text the application used has reached
// the dictionary by the end of the calm phase.
func oracleTextsEventually(w *World, a *App, wi *wire) {
	chk := func(typ, text, what string) {
		if text == "" || text == "*" {
			return
		}
		if len(wi.texts[typ+"/"+fmt.Sprint(textHashOf(text))]) == 0 {
			w.fail("C04", "text-never-sent", "%s text %.60q was used again after the send queue had drained, and still never sent (%s)", typ, text, what)
		}
	}
	for _, s := range a.svcs {
		for _, n := range s.names {
			chk("service", n, s.String())
		}
		for _, e := range s.errs {
			chk("error", e, s.String())
		}
		for _, st := range s.steps {
			chk(st.ttype, st.text, s.String())
		}
		chk("ua", s.ua, s.String())
		chk("referer", s.ref, s.String())
	}
	for _, u := range a.dicts {
		chk(u.typ, u.text, "direct use")
	}
}

func atoi(s string, d int64) int64 {
	var n int64
	if s == "" {
		return d
	}
	if _, err := fmt.Sscan(s, &n); err != nil {
		return d
	}
	return n
}
