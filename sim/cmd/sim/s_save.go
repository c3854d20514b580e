package main

import (
	"fmt"
	"strings"

	"verifsim/simrt"
)

// Scenario "save": the collector saves configuration texts while the disk fails, the process is
// killed or the machine loses power, at any file operation of the save.
func init() {
	scenarios["save"] = &Scenario{gen: genSave, run: runSave}
	defCheck("C11", "a case is a history of saved texts, disk faults, kills and power losses (at a chosen file operation or moment), restarts, local edits and a scheduler, from one seed; non-trivial when at least one save was carried out or interrupted", Part{"save", 24000})
}

func genSave(prop string, seed uint64) *Plan {
	g := newGen(seed)
	p := basePlan(prop, "save", seed, g)
	if g.pct(20) {
		p.P["few"] = int64(1 + g.r.N(60))
	}
	p.Conf = nil
	p.Env = append(p.Env, "net_collector_ip=10.0.0.1", "net_collector_tcp_so_timeout_ms=20000")
	text := func(o *Op) {
		switch {
		case g.pct(6):
			o.S, o.L = "", nil
		case g.pct(6):
			o.S, o.L = g.confFile(1 + g.r.N(6))
			o.S = "#" + strings.Repeat("가x", 500+g.r.N(15000)) + "\n" + o.S
		default:
			o.S, o.L = g.confFile(1 + g.r.N(12))
		}
	}
	if g.pct(75) {
		o := Op{K: "edit"}
		text(&o)
		p.Ev = append(p.Ev, o)
	}
	if g.pct(20) {
		p.P["path"] = int64(1 + g.r.N(2))
	}
	at := int64(0)
	for n := 1 + g.r.N(4); n > 0; n-- {
		at += []int64{0, int64(g.r.N(3000)) * ms, int64(g.r.N(12000)) * ms}[g.r.N(3)]
		o := Op{K: "save", At: at, ID: n}
		text(&o)
		switch g.r.N(8) {
		case 0, 1, 2: // the process dies or power fails before the N-th file operation of the save
			o.N = int64(1 + g.r.N(12))
			o.U = g.pick("kill", "power", "power")
		case 3: // ... at some moment
			o.M = int64(g.r.N(4000)) * ms / 100
			o.U = g.pick("kill", "power")
		case 4: // ... just after the answer
			o.U = g.pick("kill", "power", "power") + "-after"
		}
		if g.pct(35) {
			f := Fault{K: g.pick("EIO", "ENOSPC", "EDQUOT", "EACCES", "EROFS", "EMFILE", "EINTR", "short", "stall"), Op: g.pick("", "", "open", "write", "sync", "rename", "close", "stat", "write,sync", "remove", "chmod"), Path: "conf", N: 1 + g.r.N(8), Cnt: g.r.N(4), Part: float64(g.r.N(100)) / 100}
			if f.Op != "" {
				f.N = 1 + g.r.N(3)
			}
			if f.K == "stall" {
				f.D, f.Cnt = int64(1+g.r.N(2000))*ms, 1+g.r.N(3)
			}
			f.Key = n
			p.FS = append(p.FS, f)
		}
		p.Ev = append(p.Ev, o)
		if g.pct(20) {
			o := Op{K: "edit", At: at + int64(g.r.N(3000))*ms}
			text(&o)
			p.Ev = append(p.Ev, o)
		}
	}
	return p
}

func runSave(w *World) {
	p, c := w.p, w.col
	path := w.confAt()
	env := pairs(p.Env)
	const absent = "\x00absent"
	may := map[string]bool{absent: true}
	meaning := map[string]map[string]string{absent: {}}
	cur := absent
	read := func() string {
		if b, ok := w.disk.HRead(path); ok {
			return string(b)
		}
		return absent
	}
	lbl := func(s string) string {
		if s == absent {
			return "no file"
		}
		if len(s) > 120 {
			return fmt.Sprintf("%q… (%d bytes)", s[:120], len(s))
		}
		return fmt.Sprintf("%q (%d bytes)", s, len(s))
	}
	judge := func(when string) {
		if x := read(); !may[x] {
			var l []string
			for _, s := range sortedKeys(may) {
				l = append(l, lbl(s))
			}
			w.fail("C11", "torn", "%s the file holds %s; %s expected", when, lbl(x), strings.Join(l, " or "))
			may[x] = true
		}
	}
	ops, die, dying := 0, 0, false
	w.onFS = func(op, f string) bool { // before each operation of the agent on files
		judge("at " + op + " of " + f)
		if die > 0 && strings.Contains(f, "conf") {
			ops++
			if ops == die {
				dying = true
			}
		}
		return dying
	}
	if !w.bootAgent(60 * sec) {
		if !w.dead() {
			w.fail("C11", "boot", "the process did not finish initialisation within 60 s")
		}
		return
	}
	rng := simrt.NewRng(simrt.Mix(p.Seed, 77))
	saves, cuts := 0, 0
	down := func(how string) bool {
		w.killAgent()
		cuts++
		w.faults[how]++
		if how == "power" {
			w.disk.Crash(rng)
		}
		dying, die = false, 0
		judge("after " + how)
		simrt.Sleep(int64(rng.N(3000)) * ms)
		w.fsKey = 0
		if !w.bootAgent(60*sec) && !w.dead() {
			w.fail("C11", "boot", "the process did not start again after %s with %s", how, lbl(read()))
			return false
		}
		return !w.dead()
	}
	for _, ev := range p.Ev {
		if d := ev.At - simrt.Now(); d > 0 {
			simrt.Sleep(d)
		}
		if w.dead() {
			return
		}
		if ev.K == "edit" {
			meaning[ev.S] = pairs(ev.L)
			w.disk.HReplace(path, []byte(ev.S), 0)
			may = map[string]bool{ev.S: true}
			cur = ev.S
			continue
		}
		for end := simrt.Now() + 60*sec; c.cur() == nil && simrt.Now() < end && !w.dead(); {
			simrt.Sleep(10 * ms)
		}
		if c.cur() == nil {
			if !w.dead() {
				w.fail("C11", "no-connection", "no connection for 60 s")
			}
			return
		}
		saves++
		meaning[ev.S] = pairs(ev.L)
		before := read()
		may[ev.S] = true
		w.fsKey = ev.ID
		ops, die = 0, 0
		if ev.N > 0 {
			die = int(ev.N)
		}
		cmd := c.cur().send("SET_CONFIGURE_WAS", map[string]any{"setConfig": ev.S}, nil, 0)
		end := simrt.Now() + 30*sec + simrt.S.PausedTotal
		if ev.N == 0 && ev.M > 0 {
			end = simrt.Now() + ev.M
		}
		for !cmd.Done && !dying && !cmd.P.closed && simrt.Now() < end && !w.dead() {
			simrt.Sleep(ms / 10)
		}
		if w.dead() {
			return
		}
		if dying || ev.N == 0 && ev.M > 0 && !cmd.Done {
			if !down(ev.U) {
				return
			}
			w.counts["saves-interrupted"]++
			continue
		}
		die = 0
		ok := false
		switch {
		case !cmd.Done && cmd.P.closed:
			w.counts["saves-unanswered"]++
			w.fsKey = 0
			continue
		case !cmd.Done:
			w.fail("C11", "no-answer", "a save is not answered within 30 s")
			return
		default:
			r := cmd.m()["result"]
			ok = fmt.Sprint(r) == "true"
			if !ok && fmt.Sprint(r) != "false" {
				w.fail("C11", "answer", "a save is answered with %v", r)
			}
		}
		w.fsKey = 0
		if ok {
			w.counts["saves-good"]++
			may = map[string]bool{ev.S: true}
			cur = ev.S
			judge("after a save reported as done")
		} else {
			w.counts["saves-failed"]++
			may[before] = true
			if w.fsFired[ev.ID] == 0 {
				w.fail("C11", "refused", "a save fails though no disk fault occurred")
			}
			judge("after a save reported as failed")
		}
		if strings.HasSuffix(ev.U, "-after") {
			if !down(strings.TrimSuffix(ev.U, "-after")) {
				return
			}
		}
	}
	_ = cur
	w.fsKey = 0
	w.calmDown()
	simrt.Sleep(15*sec + simrt.S.PausedTotal)
	if w.dead() {
		return
	}
	text := read()
	shown := text
	if text == absent {
		shown = ""
	}
	cmd := c.ask("LIST_CONFIGURE_WAS", nil, 100*sec)
	g := c.ask("GET_CONFIGURE_WAS", nil, 100*sec)
	if w.dead() {
		return
	}
	judge("at the end")
	if cmd == nil || g == nil || cmd.m() == nil || g.m() == nil {
		w.fail("C11", "no-answer", "the configuration is not shown within 100 s")
		return
	}
	if g.m()["agentConfig"] != shown {
		w.fail("C11", "shown", "GET_CONFIGURE_WAS shows %s, the file holds %s", lbl(fmt.Sprint(g.m()["agentConfig"])), lbl(text))
	}
	want, known := meaning[text]
	m := cmd.m()
	ks, _ := m["key"].([]any)
	vs, _ := m["value"].([]any)
	for _, k := range confKeys {
		if !known {
			break
		}
		x := confWant(k, want, env)
		for i := range ks {
			if i < len(vs) && ks[i] == k.key && fmt.Sprint(vs[i]) != x {
				w.fail("C11", "not-used", "%s is %q, the file in place (%s) means %q", k.key, vs[i], lbl(text), x)
				return
			}
		}
	}
	w.nontriv = saves > 0
	fmt.Fprintf(&w.sample, "%d saves, %d kills and power losses, %d disk faults planned, sched %s", saves, cuts, len(p.FS), p.Sched.Mode)
	w.state(fmt.Sprint(saves, cuts, w.counts, len(may)))
}
