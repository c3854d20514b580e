package main

import (
	"fmt"
	"math"
	"regexp"
	"sort"
	"strings"

	"verifsim/simrt"
)

// Scenarios "stuck" (C12), "active" (C13) and "meter" (C14): services of many lengths, observed
// while they run and counted when they end.
func init() {
	scenarios["stuck"] = &Scenario{gen: genStuck, run: runStuck}
	scenarios["active"] = &Scenario{gen: genActive, run: runActive}
	scenarios["meter"] = &Scenario{gen: genMeter, run: runMeter}
	defCheck("C12", "a case is a workload of services around the stuck limit, a history of limits and switches, clock jumps, late ends and a scheduler, from one seed; non-trivial when at least one service outlived its limit or ended just before it", Part{"stuck", 12000})
	defCheck("C13", "a case is a workload of services, a history of queries and sampling instants and a scheduler, from one seed; non-trivial when at least one service was active at a query or sampling instant", Part{"active", 24000})
	defCheck("C14", "a case is a workload of bursts and idle periods, clock jumps and a scheduler, from one seed; non-trivial when at least one window counted a service", Part{"meter", 8000})
}

// unique gives every service of a workload a name of its own.
func unique(ts [][]Op) {
	n := 0
	var f func(ops []Op)
	f = func(ops []Op) {
		for i := range ops {
			o := &ops[i]
			switch o.K {
			case "http", "svc", "go":
				n++
				o.S = fmt.Sprintf("/u%05d/%s", n, strings.TrimLeft(o.S, "/"))
			case "name":
				n++
				o.S = fmt.Sprintf("/n%05d/x", n)
			}
			f(o.Sub)
		}
	}
	for i := range ts {
		f(ts[i])
	}
}

// long makes services (and some traced goroutines) of a workload last about as long as drawn.
func (g *gen) long(ts [][]Op, draw func() int64) {
	var f func(ops []Op, in bool)
	f = func(ops []Op, in bool) {
		for i := range ops {
			o := &ops[i]
			f(o.Sub, true)
			if (o.K == "http" || o.K == "svc" || o.K == "go" || o.K == "inherit") && (!in || g.pct(40)) {
				if d := draw(); d > 0 {
					k := g.r.N(len(o.Sub) + 1)
					o.Sub = append(o.Sub[:k:k], append([]Op{{K: "sleep", N: d}}, o.Sub[k:]...)...)
				}
			}
		}
	}
	for i := range ts {
		f(ts[i], false)
	}
}

func (g *gen) lifeConf(p *Plan) {
	g.http, g.late, g.inherit = 40, 1, 0 // an inherited service has its parent's name
	if g.pct(20) {
		for i := g.r.N(4); i > 0; i-- {
			p.Net = append(p.Net, Fault{K: g.pick("drop", "dup", "delay", "stall"), N: g.r.N(60), D: int64(g.r.N(500)) * ms})
		}
	}
	if g.pct(25) {
		for i := 1 + g.r.N(2); i > 0; i-- {
			p.Ev = append(p.Ev, Op{K: "clock", At: int64(g.r.N(30000)) * ms, N: []int64{-86400, -3600, -40, -5, -1, 1, 5, 40, 86400, 3600}[g.r.N(10)] * sec})
		}
	}
}

func (p *Plan) sortEv() {
	sort.SliceStable(p.Ev, func(i, j int) bool { return p.Ev[i].At < p.Ev[j].At })
}

// ---- C12

func genStuck(prop string, seed uint64) *Plan {
	g := newGen(seed)
	p := basePlan(prop, "stuck", seed, g)
	g.width = 3
	g.never = 12
	g.lifeConf(p)
	lim := int64(500+g.r.N(12000)) * ms
	p.Conf["stuck_service_base_time_ms"] = fmt.Sprint(lim / ms)
	if g.pct(25) {
		p.Conf["stuck_service_remove_enabled"] = "false"
	}
	if g.pct(20) {
		p.Conf["stuck_service_alert_enabled"] = "false"
	}
	if g.pct(10) {
		p.Conf["xlog_sampling_enabled"] = "true"
		p.Conf["xlog_sampling_step1_rate_pct"] = "100"
		p.Conf["xlog_sampling_step2_rate_pct"] = "100"
		p.Conf["xlog_sampling_step3_rate_pct"] = "100"
		p.Conf["xlog_sampling_over_rate_pct"] = "100"
	}
	p.Tasks = g.tasks(1+g.r.N(6), 2)
	g.long(p.Tasks, func() int64 {
		switch g.r.N(6) {
		case 0:
			return 0
		case 1: // just before
			return max(0, lim-int64(g.r.N(300))*ms)
		case 2: // while it is about to be detected
			return lim + int64(g.r.N(2200))*ms
		case 3:
			return lim + int64(g.r.N(9000))*ms
		case 4:
			return int64(g.r.N(int(lim/ms))) * ms
		}
		return lim*2 + 3*sec
	})
	unique(p.Tasks)
	if g.pct(2) { // a crowd, all stuck at once
		p.P["bulk"] = int64(200 + g.r.N(1700))
		if g.pct(60) {
			p.P["bulk"], p.Tasks = 2000-int64(g.r.N(2)), nil
		}
	}
	if g.pct(25) {
		for n := 1 + g.r.N(2); n > 0; n-- {
			o := Op{K: "conf", At: int64(g.r.N(25000)) * ms, S: "stuck_service_base_time_ms", U: fmt.Sprint(500 + g.r.N(12000))}
			if g.pct(25) {
				o.S, o.U = g.pick("stuck_service_remove_enabled", "stuck_service_alert_enabled"), g.pick("true", "false")
			}
			p.Ev = append(p.Ev, o)
		}
	}
	if g.pct(12) { // the object is renamed
		p.Ev = append(p.Ev, Op{K: "conf", At: int64(g.r.N(25000)) * ms, S: "obj_name", U: g.pick("second", "third")})
	}
	g.suspend(p, 15, 25*sec, forever)
	p.sortEv()
	return p
}

// confSpan: values a setting may have in force during [a,b] (b < 0: to the end).
type confHist struct {
	t []int64
	v []string
}

func (h *confHist) during(a, b, slack int64) []string {
	var out []string
	for i := range h.t {
		end := int64(math.MaxInt64)
		if i+1 < len(h.t) {
			end = h.t[i+1] + slack
		}
		if h.t[i] <= b && end >= a {
			out = append(out, h.v[i])
		}
	}
	return out
}

// timeline runs the workload and the plan's events; probe events go to fn.
func (w *World) timeline(a *App, hist map[string]*confHist, fn func(ev Op)) []*Task {
	p := w.p
	conf := map[string]string{}
	for k, v := range p.Conf {
		conf[k] = v
	}
	ts := a.spawnTasks(p.Tasks)
	start := simrt.Now()
	for _, ev := range p.Ev {
		if d := start + ev.At - simrt.Now(); d > 0 {
			simrt.Sleep(d)
		}
		if w.dead() {
			return ts
		}
		switch ev.K {
		case "clock":
			simrt.JumpWall(ev.N)
			w.faults["clock-jump"]++
		case "suspend":
			w.faults["suspended"]++
			simrt.Suspend(ev.N)
		case "conf":
			conf[ev.S] = ev.U
			w.faults["conf-change"]++
			w.disk.HReplace(confPath, []byte(confText(conf)), 0)
			if h := hist[ev.S]; h != nil {
				h.t, h.v = append(h.t, simrt.Now()), append(h.v, ev.U)
			}
		default:
			if fn != nil {
				fn(ev)
			}
		}
	}
	return ts
}

// suspend now and then stops the whole process for a while somewhere before span.
func (g *gen) suspend(p *Plan, pct int, span, longest int64) {
	if !g.pct(pct) {
		return
	}
	for i := 1 + g.r.N(5)/4; i > 0; i-- {
		d := []int64{int64(g.r.N(3000)) * ms, int64(g.r.N(40)) * sec, int64(29000+g.r.N(3000)) * ms, int64(298000+g.r.N(5000)) * ms, int64(g.r.N(2000)) * sec, int64(g.r.N(400000)) * sec}[g.r.N(6)]
		p.Ev = append(p.Ev, Op{K: "suspend", At: int64(g.r.U64() % uint64(span/ms) * uint64(ms)), N: min(d, longest) + int64(g.r.N(1000))*1000})
	}
}

const forever = int64(1) << 60

// endBracket: the earliest and latest moment a service's end took effect, by the application.
func (w *World) endBracket(s *svc) (int64, int64) {
	if !s.ended {
		return forever, forever
	}
	if s.e1 < 0 {
		return s.e0, s.e0 + 10*ms + simrt.S.PausedTotal - s.pz
	}
	return s.e0, s.e1
}

func atoi64(s string) int64 {
	var n int64
	fmt.Sscan(s, &n)
	return n
}

var alertElapsed = regexp.MustCompile(`elapsed: (-?\d+)`)

func runStuck(w *World) {
	p := w.p
	get := func(k, def string) *confHist {
		if v, ok := p.Conf[k]; ok {
			def = v
		}
		return &confHist{t: []int64{0}, v: []string{def}}
	}
	hist := map[string]*confHist{
		"stuck_service_base_time_ms":   get("stuck_service_base_time_ms", "300000"),
		"stuck_service_remove_enabled": get("stuck_service_remove_enabled", "true"),
		"stuck_service_alert_enabled":  get("stuck_service_alert_enabled", "true"),
		"obj_name":                     get("obj_name", "go1"),
	}
	w.disk.HReplace(confPath, []byte(confText(p.Conf)), 0)
	if !w.bootAgent(60 * sec) {
		return
	}
	a := newApp(w)
	p = w.bulk()
	a.onEnd = func(s *svc) { s.pz = simrt.S.PausedDone }
	ts := w.timeline(a, hist, nil)
	if !a.waitAll(ts, 400*sec) {
		if !w.dead() {
			w.fail("C12", "app-stuck", "the application's goroutines did not finish")
		}
		return
	}
	w.calmDown()
	maxLim := int64(0)
	for _, v := range hist["stuck_service_base_time_ms"].v {
		maxLim = max(maxLim, atoi64(v)*ms)
	}
	simrt.Sleep(maxLim + 25*sec)
	if w.dead() {
		return
	}
	pz := simrt.S.PausedTotal
	q0 := simrt.Now()
	list := w.col.ask("OBJECT_ACTIVE_SERVICE_LIST", nil, 100*sec)
	if w.dead() {
		return
	}
	if list == nil || list.m() == nil {
		w.fail("C12", "no-answer", "the active services are not listed within 100 s")
		return
	}
	listed := map[string]int{}
	names, _ := list.m()["service"].([]any)
	for _, n := range names {
		listed[fmt.Sprint(n)]++
	}
	now := simrt.Now()
	wi := collect(parseDgrams(w.col.dg, nil))
	var alerts []packRec
	for _, pk := range wi.packs {
		if al, ok := pk.V.(*alertRec); ok {
			alerts = append(alerts, pk)
			if strings.Contains(al.Msg, "%!") {
				w.fail("C12", "alert-text", "an alert reads %.200q", al.Msg)
			}
		}
	}
	used := map[int]bool{}
	slack := 15*sec + pz // a changed setting is in force
	const tick = 5 * sec // detection is due every two seconds
	nontriv := 0
	for _, s := range a.svcs {
		e0, e1 := w.endBracket(s)
		end := min(e1, now)
		lims := hist["stuck_service_base_time_ms"].during(s.a0, end, slack)
		lo, hi := forever, int64(0)
		for _, l := range lims {
			lo, hi = min(lo, atoi64(l)*ms), max(hi, atoi64(l)*ms)
		}
		lo -= ms // whole milliseconds
		removes := hist["stuck_service_remove_enabled"].during(s.a0, end, slack)
		alertOn := hist["stuck_service_alert_enabled"].during(s.a0, end, slack)
		always := func(l []string, v string) bool {
			for _, x := range l {
				if x != v {
					return false
				}
			}
			return true
		}
		who := fmt.Sprintf("service %d (%s), started at %d ms, ended at %d ms, limit %v ms", s.id, s.name, s.a0/ms, e0/ms, lims)
		var mine []packRec
		for i, pk := range alerts {
			msg := pk.V.(*alertRec).Msg
			for _, n := range s.names {
				if strings.Contains(msg, n) {
					mine = append(mine, pk)
					used[i] = true
					if m := alertElapsed.FindStringSubmatch(msg); m != nil && s.txid != 0 {
						if el := atoi64(m[1]); el < lo/ms-1 || el > (pk.T-s.a0)/ms+1 {
							w.fail("C12", "alert-elapsed", "%s was announced at %d ms as stuck after %d ms", who, pk.T/ms, el)
						}
					}
					break
				}
			}
		}
		recs := wi.xlogs[s.txid]
		recT := wi.xT[s.txid]
		must := end-s.a1 >= hi+tick+pz // alive long enough to have been detected
		not := end-s.a0 <= lo
		if must || end-s.a0 >= lo-sec {
			nontriv++
		}
		marked := false
		if len(recs) > 0 && recs[0].Error != 0 {
			for _, t := range wi.texts[fmt.Sprintf("error/%d", recs[0].Error)] {
				marked = marked || strings.Contains(strings.ToLower(t.V.(*textRec).Text), "stuck")
			}
		}
		if not {
			w.counts["services-below-limit"]++
			if len(mine) > 0 {
				w.fail("C12", "false-alert", "%s was announced as stuck at %d ms: %.200q", who, mine[0].T/ms, mine[0].V.(*alertRec).Msg)
			}
			if marked {
				w.fail("C12", "false-mark", "%s has a record marked as stuck", who)
			}
			if s.ended && len(recs) != 1 || !s.ended && len(recs) != 0 {
				w.fail("C12", "records", "%s has %d records", who, len(recs))
			}
			continue
		}
		for _, al := range mine {
			if al.T < s.a0+lo {
				w.fail("C12", "early", "%s was announced as stuck at %d ms", who, al.T/ms)
			}
			if al.T > e1+tick+pz {
				w.fail("C12", "late-alert", "%s was announced as stuck at %d ms", who, al.T/ms)
			}
			okObj := false
			for _, n := range hist["obj_name"].during(al.T, al.T, slack) {
				okObj = okObj || al.V.(*alertRec).Obj == textHashOf("/simhost/"+n)
			}
			if r := al.V.(*alertRec); !okObj || r.ObjType != "golang" {
				w.fail("C12", "alert-object", "%s was announced as a service of the object %d of type %q, this is %v of type golang", who, r.Obj, r.ObjType, hist["obj_name"].v)
			} else if always(alertOn, "true") && r.Level < 2 || always(alertOn, "false") && r.Level > 1 {
				w.fail("C12", "alert-level", "%s was announced by an alert of level %d, stuck alerts enabled: %v", who, r.Level, alertOn)
			}
			if !strings.Contains(al.V.(*alertRec).Title+al.V.(*alertRec).Msg, "STUCK") {
				w.fail("C12", "alert-title", "%s was announced as %q %.100q", who, al.V.(*alertRec).Title, al.V.(*alertRec).Msg)
			}
		}
		if always(removes, "true") && len(mine) > 1 {
			w.fail("C12", "repeated-alert", "%s was announced as stuck %d times, at %d and %d ms ...", who, len(mine), mine[0].T/ms, mine[1].T/ms)
		}
		if len(recs) > 1 {
			w.fail("C12", "records", "%s has %d records, at %d and %d ms", who, len(recs), recT[0].T/ms, recT[1].T/ms)
		}
		if always(removes, "false") {
			if s.ended && len(recs) != 1 || !s.ended && len(recs) != 0 || marked {
				w.fail("C12", "removed", "%s has %d records (marked as stuck: %v) though removal is off", who, len(recs), marked)
			} else if len(recs) == 1 && recT[0].T < e0 {
				w.fail("C12", "removed", "%s has a record at %d ms though removal is off", who, recT[0].T/ms)
			}
		}
		if !must {
			w.counts["services-near-limit"]++
			if s.ended && len(recs) != 1 {
				w.fail("C12", "records", "%s has %d records", who, len(recs))
			}
			if marked && len(mine) == 0 && always(alertOn, "true") {
				w.fail("C12", "no-alert", "%s was finished as stuck without an alert", who)
			}
			continue
		}
		w.counts["services-stuck"]++
		if always(alertOn, "true") && len(mine) == 0 {
			w.fail("C12", "no-alert", "%s was never announced as stuck", who)
		}
		if len(mine) > 0 && always(alertOn, "true") && mine[0].T > s.a1+hi+tick+pz {
			w.fail("C12", "late-alert", "%s was announced as stuck only at %d ms", who, mine[0].T/ms)
		}
		if always(removes, "true") {
			due := s.a1 + hi + tick + pz
			if len(recs) != 1 {
				w.fail("C12", "not-finished", "%s has %d records", who, len(recs))
				continue
			}
			r := recs[0]
			own := false
			for _, t := range s.everErrs {
				own = own || r.Error == textHashOf(t)
			}
			if recT[0].T > due+sec {
				w.fail("C12", "not-finished", "%s has its record only at %d ms", who, recT[0].T/ms)
			}
			if !marked && !own {
				w.fail("C12", "not-marked", "%s has a record without any mark of being stuck (error %d)", who, r.Error)
			}
			if s.errAt > 0 && s.errAt < s.a0+lo-sec && !own && !s.shared {
				w.fail("C12", "own-error", "%s recorded an error of its own at %d ms, its record has another (%d)", who, s.errAt/ms, r.Error)
			}
			if int64(r.Elapsed)*ms < lo-ms || int64(r.Elapsed)*ms > due-s.a0+sec {
				w.fail("C12", "elapsed", "%s has a record with %d ms", who, r.Elapsed)
			}
			for _, n := range s.names {
				if listed[n] > 0 {
					w.fail("C12", "still-active", "%s, finished as stuck, is still listed as active", who)
				}
			}
		}
	}
	for i, al := range alerts {
		if !used[i] {
			w.fail("C12", "foreign-alert", "an alert names no service of this application: %.200q", al.V.(*alertRec).Msg)
		}
	}
	_ = q0
	w.nontriv = nontriv > 0
	fmt.Fprintf(&w.sample, "%d services, limits %v, %d over or near, %d alerts, sched %s", len(a.svcs), hist["stuck_service_base_time_ms"].v, nontriv, len(alerts), p.Sched.Mode)
	w.state(fmt.Sprint(len(a.svcs), nontriv, len(alerts), w.counts))
}

// ---- C13

// bulk adds a crowd of services that never end to the plan.
func (w *World) bulk() *Plan {
	p := w.p
	if n := int(p.p("bulk")); n > 0 {
		var ops []Op
		for i := 0; i < n; i++ {
			ops = append(ops, Op{K: "svc", S: fmt.Sprintf("/bulk%05d/x", i), U: "1.2.3.4", M: 3})
		}
		p = p.clone()
		p.Tasks = append(p.Tasks, ops)
		w.p = p
	}
	return p
}

func genActive(prop string, seed uint64) *Plan {
	g := newGen(seed)
	p := basePlan(prop, "active", seed, g)
	g.width = 3
	g.never = 15
	g.go_ = 12
	g.lifeConf(p)
	g.inherit = []int{0, 4, 12}[g.r.N(3)]
	if g.pct(70) {
		y := 1 + g.r.N(4000)
		p.Conf["trace_activeservice_yellow_time"] = fmt.Sprint(y)
		p.Conf["trace_activeservice_red_time"] = fmt.Sprint(y + g.r.N(6000))
	}
	p.Tasks = g.tasks(1+g.r.N(8), 3)
	g.long(p.Tasks, func() int64 {
		switch g.r.N(4) {
		case 0:
			return 0
		case 1:
			return int64(g.r.N(1000)) * ms
		case 2:
			return int64(g.r.N(6000)) * ms
		}
		return int64(g.r.N(15000)) * ms
	})
	unique(p.Tasks)
	for n := g.r.N(8); n > 0; n-- {
		at := int64(g.r.N(20000)) * ms
		if g.pct(30) {
			at = int64(g.r.N(3000)) * ms
		}
		p.Ev = append(p.Ev, Op{K: g.pick("list", "list", "detail"), At: at})
	}
	if g.pct(1) {
		p.P["bulk"] = int64(1500 + g.r.N(400))
		if g.pct(60) { // the limit
			p.P["bulk"], p.Tasks = 2000-int64(g.r.N(2)), nil
		}
	}
	g.suspend(p, 15, 20*sec, 100*sec) // never long enough for a service to count as stuck
	p.sortEv()
	return p
}

func runActive(w *World) {
	p, c := w.p, w.col
	w.disk.HReplace(confPath, []byte(confText(p.Conf)), 0)
	if !w.bootAgent(60 * sec) {
		return
	}
	yellow, red := int64(3000), int64(8000)
	if v, ok := p.Conf["trace_activeservice_yellow_time"]; ok {
		yellow, red = atoi64(v), atoi64(p.Conf["trace_activeservice_red_time"])
	}
	a := newApp(w)
	a.onEnd = func(s *svc) { s.pz = simrt.S.PausedDone }
	p = w.bulk()
	seen := 0
	query := func(kind string) {
		for end := simrt.Now() + 60*sec; c.cur() == nil && simrt.Now() < end && !w.dead(); {
			simrt.Sleep(ms)
		}
		if c.cur() == nil || w.dead() {
			return
		}
		var pick *svc
		stray := false
		cmdName, param := "OBJECT_ACTIVE_SERVICE_LIST", map[string]any(nil)
		if kind == "detail" {
			if len(a.svcs) == 0 {
				return
			}
			pick = a.svcs[int(simrt.Mix(p.Seed, uint64(simrt.Now()))%uint64(len(a.svcs)))]
			for i := 0; i < 5 && pick.ended; i++ { // mostly one that is active
				pick = a.svcs[int(simrt.Mix(p.Seed, uint64(simrt.Now())+uint64(i))%uint64(len(a.svcs)))]
			}
			if pick.txid == 0 {
				return
			}
			id := pick.txid
			if simrt.Mix(p.Seed^5, uint64(simrt.Now()))%8 == 0 { // one that is none of the application's
				id = []int64{-id, id ^ 1, id &^ 0xffffffff, int64(int32(id))}[simrt.Mix(p.Seed^6, uint64(simrt.Now()))%4]
				for _, s := range a.svcs {
					if s.txid == id {
						id = pick.txid
					}
				}
				stray = id != pick.txid
			}
			cmdName, param = "OBJECT_THREAD_DETAIL", map[string]any{"txid": id}
		}
		q0, k0 := simrt.Now(), a.tick()
		cmd := c.cur().send(cmdName, param, nil, 0)
		for end := simrt.Now() + 60*sec; !cmd.Done && !cmd.P.closed && simrt.Now() < end && !w.dead(); {
			simrt.Sleep(ms)
		}
		if w.dead() || !cmd.Done && cmd.P.closed {
			return
		}
		m := cmd.m()
		if !cmd.Done || m == nil {
			w.fail("C13", "no-answer", "%s is not answered with one map within 60 s", cmdName)
			return
		}
		q1, k1 := cmd.DoneT, a.tick()
		w.counts["queries-"+kind]++
		// definite: active throughout; possible: at some moment
		state := func(s *svc) (def, pos bool) {
			e0, e1 := w.endBracket(s)
			def = s.txid != 0 && s.a1 > 0 && s.a1 <= q0 && e0 > q1 && (s.ended || s.ends == 0 || e0 > q1)
			if s.ends > 0 && !s.ended { // its end is under way
				def, pos = false, true
				return
			}
			pos = s.a0 <= q1 && e1 >= q0
			return
		}
		elapsedOK := func(s *svc, el int64) bool {
			return el >= (q0-s.a1)/ms-2 && el <= (q1-s.a0)/ms+2
		}
		nameOK := func(s *svc, n string) bool {
			for _, x := range s.names {
				if x == n {
					return true
				}
			}
			return false
		}
		// the name it has: the last one set, or one being set just now
		nameNow := func(s *svc, n string) bool {
			if s.weak {
				return nameOK(s, n)
			}
			for _, x := range marksAt(append([]mark{{text: s.names[0]}}, s.nameSets...), k0, k1, true) {
				if x == n {
					return true
				}
			}
			return false
		}
		if kind == "detail" {
			def, pos := state(pick)
			if stray {
				w.counts["queries-stray"]++
				if _, ok := m["Service Name"]; ok || fmt.Sprint(m["State"]) != "end" {
					w.fail("C13", "detail-stray", "asked for a transaction id that none of the application's services has, at %d ms, the detail shows %v", q0/ms, m)
				}
				return
			}
			who := fmt.Sprintf("service %d (%s), started at %d ms, ended at %d ms", pick.id, pick.name, pick.a0/ms, pick.e0/ms)
			name, isActive := m["Service Name"]
			if isActive && !pos {
				w.fail("C13", "detail-ended", "%s: the detail asked for at %d ms shows it as active", who, q0/ms)
			}
			if !isActive && def {
				w.fail("C13", "detail-missing", "%s: the detail asked for at %d ms does not find it: %v", who, q0/ms, m)
			}
			if st := fmt.Sprint(m["State"]); (st == "end") == isActive || strings.Contains(fmt.Sprint(m["Thread Name"]), "[No Goroutine]") == isActive {
				w.fail("C13", "detail-state", "%s: the detail asked for at %d ms has the state %q and the goroutine %q", who, q0/ms, st, m["Thread Name"])
			}
			if isActive {
				seen++
				el, ok := m["Service Elapsed"].(int64)
				if !nameNow(pick, fmt.Sprint(name)) || m["Service Txid"] != xlog32(pick.txid) || !ok || !elapsedOK(pick, el) {
					w.fail("C13", "detail", "%s: its detail, asked for at %d..%d ms, is %v", who, q0/ms, q1/ms, m)
				}
				last, ok := m["Last trace method"]
				if l := presentStep(pick, k0, k1); !ok || !presentStepOK(l, fmt.Sprint(last)) {
					w.fail("C13", "detail-step", "%s: its detail shows the step %q, it was at %q", who, last, l)
				}
			}
			return
		}
		cols := map[string][]any{}
		for _, k := range []string{"id", "elapsed", "service", "name", "txid", "ip", "stat", "cpu", "sql", "subcall"} {
			cols[k], _ = m[k].([]any)
			if len(cols[k]) != len(cols["id"]) {
				w.fail("C13", "torn", "the active list of %d ms has %d ids and %d entries in column %s", q0/ms, len(cols["id"]), len(cols[k]), k)
				return
			}
		}
		if m["complete"] != true {
			w.fail("C13", "incomplete", "the active list of %d ms is not marked complete", q0/ms)
		}
		byTx := map[string]*svc{}
		for _, s := range a.svcs {
			byTx[xlog32(s.txid)] = s
		}
		times := map[*svc]int{}
		for i, tx := range cols["txid"] {
			s := byTx[fmt.Sprint(tx)]
			row := fmt.Sprintf("%v %v %v ms %v %v", cols["txid"][i], cols["service"][i], cols["elapsed"][i], cols["ip"][i], cols["name"][i])
			if s == nil {
				// started within the query: the application has not been told its id yet
				known := false
				for _, s := range a.svcs {
					known = known || s.txid == 0 && nameOK(s, fmt.Sprint(cols["service"][i]))
				}
				for _, t := range p.Tasks {
					known = known || namesIn(t, strings.Split(fmt.Sprint(cols["service"][i]), "<")[0])
				}
				if !known {
					w.fail("C13", "foreign", "the active list of %d ms shows an unknown service: %s", q0/ms, row)
				}
				continue
			}
			times[s]++
			seen++
			if times[s] > 1 {
				w.fail("C13", "repeated", "the active list of %d ms shows twice: %s", q0/ms, row)
			}
			if _, pos := state(s); !pos {
				w.fail("C13", "ended", "the active list of %d ms shows service %d (%s), started at %d ms, ended at %d ms: %s", q0/ms, s.id, s.name, s.a0/ms, s.e0/ms, row)
			}
			if s.goid != 0 && fmt.Sprint(cols["id"][i]) != fmt.Sprint(s.goid) {
				w.fail("C13", "goroutine", "the active list shows service %d, which goroutine %d started, as %s", s.id, s.goid, row)
			}
			el, _ := cols["elapsed"][i].(int64)
			if !elapsedOK(s, el) || !nameNow(s, fmt.Sprint(cols["service"][i])) || fmt.Sprint(cols["name"][i]) != fmt.Sprintf("[goroutine] %v", cols["id"][i]) {
				w.fail("C13", "entry", "the active list of %d..%d ms shows service %d (%s), started at %d..%d ms, as %s", q0/ms, q1/ms, s.id, s.name, s.a0/ms, s.a1/ms, row)
			}
			if h := strings.Split(s.ip, ":")[0]; plainIP(h) && fmt.Sprint(cols["ip"][i]) != h {
				w.fail("C13", "entry-ip", "the active list shows service %d, called from %s, as %s", s.id, s.ip, row)
			}
		}
		for _, s := range a.svcs {
			if def, _ := state(s); def && times[s] == 0 {
				w.fail("C13", "missing", "the active list of %d..%d ms lacks service %d (%s), started at %d ms, end called at %d ms", q0/ms, q1/ms, s.id, s.name, s.a1/ms, s.e0/ms)
			}
		}
	}
	ts := w.timeline(a, nil, func(ev Op) { query(ev.K) })
	if !a.waitAll(ts, 400*sec) {
		if !w.dead() {
			w.fail("C13", "app-stuck", "the application's goroutines did not finish")
		}
		return
	}
	w.calmDown()
	simrt.Sleep(5 * sec)
	query("list")
	if w.dead() {
		return
	}
	// the counts by elapsed time in the periodic counters
	prev := int64(0)
	prevPz := int64(0)
	for i, d := range c.dg {
		for _, pk := range parseDgrams(c.dg[i:i+1], nil) {
			pr, ok := pk.V.(*perfRec)
			if !ok || pr.TT != 1 {
				continue
			}
			t1 := d.T
			t0 := t1 - (d.Pz - prevPz) - ms
			prev, prevPz = t1, d.Pd
			sp, _ := pr.Data["ActiveSpeed"].([]any)
			if len(sp) != 3 {
				w.fail("C13", "bands", "the counters of %d ms carry the bands %v", t1/ms, pr.Data["ActiveSpeed"])
				continue
			}
			var lo, hi [3]int64
			tlo := int64(0)
			for _, s := range a.svcs {
				e0, e1 := w.endBracket(s)
				if s.ends > 0 && !s.ended {
					e0, e1 = s.e0, forever
				}
				if s.a0 > t1 || e1 < t0 {
					continue
				}
				def := s.a1 <= t0 && e0 > t1
				band := func(el int64) int {
					el /= ms
					if el <= yellow {
						return 0
					} else if el <= red {
						return 1
					}
					return 2
				}
				x, y := band(max(0, t0-s.a1-2*ms)), band(t1-s.a0+2*ms)
				for b := x; b <= y; b++ {
					hi[b]++
				}
				if def {
					tlo++
					if x == y {
						lo[x]++
					}
				}
			}
			tot, thi := int64(0), hi[0]+hi[1]+hi[2]
			bad := false
			for b := 0; b < 3; b++ {
				n, _ := sp[b].(int64)
				tot += n
				bad = bad || n < lo[b] || n > hi[b]
			}
			if bad || tot < tlo || tot > thi {
				w.fail("C13", "bands", "the counters of %d..%d ms show %v active services up to %d, %d and more ms; between %v and %v (%d at least in total) are", t0/ms, t1/ms, sp, yellow, red, lo, hi, tlo)
			}
			w.counts["samples"]++
			if tot > 0 {
				seen++
			}
		}
	}
	_ = prev
	w.nontriv = seen > 0
	fmt.Fprintf(&w.sample, "%d services, %d queries, %d samples, sched %s", len(a.svcs), w.counts["queries-list"]+w.counts["queries-detail"], w.counts["samples"], p.Sched.Mode)
	w.state(fmt.Sprint(len(a.svcs), seen, w.counts))
}

func namesIn(ops []Op, n string) bool {
	for i := range ops {
		if ops[i].S == n || namesIn(ops[i].Sub, n) {
			return true
		}
	}
	return false
}

func plainIP(s string) bool {
	var a, b, c, d int
	n, err := fmt.Sscanf(s, "%d.%d.%d.%d", &a, &b, &c, &d)
	return err == nil && n == 4 && a|b|c|d < 256 && a >= 0 && b >= 0 && c >= 0 && d >= 0 && fmt.Sprintf("%d.%d.%d.%d", a, b, c, d) == s
}

// presentStep tells which methods may be shown as the one begun last at a moment of k0..k1.
func presentStep(s *svc, k0, k1 int64) (l []string) {
	last := int64(-1) // start of the latest call that was over by k0
	for _, m := range s.opens {
		if m.k1 < k0 {
			last = max(last, m.k0)
		}
	}
	if last < 0 {
		l = append(l, "")
	}
	for _, m := range s.opens {
		if m.k0 <= k1 && m.k1 > last {
			l = append(l, m.text)
		}
	}
	return
}

func presentStepOK(l []string, name string) bool {
	for _, x := range l {
		if x == name || x == "*" && strings.Contains(name, "(*env)") { // StartMethod names the calling function
			return true
		}
	}
	return false
}

// ---- C14

func genMeter(prop string, seed uint64) *Plan {
	g := newGen(seed)
	p := basePlan(prop, "meter", seed, g)
	g.width = 2
	g.never = 2
	g.errs = 60
	g.lifeConf(p)
	g.inherit = []int{0, 4}[g.r.N(2)]
	switch g.r.N(5) {
	case 0: // everything discarded
		p.Conf["xlog_discard_service_patterns"] = "*"
	case 1:
		p.Conf["xlog_sampling_enabled"] = "true"
	}
	if g.pct(15) {
		p.Conf["stuck_service_base_time_ms"] = fmt.Sprint(500 + g.r.N(3000))
	}
	p.Tasks = g.tasks(1+g.r.N(5), 6)
	span := []int64{5, 40, 100}[g.r.N(3)]
	for i := range p.Tasks { // idle periods between the services
		var ops []Op
		for _, o := range p.Tasks[i] {
			if g.pct(60) {
				d := int64(g.r.U64()%uint64(span)) * sec
				if g.pct(7) {
					d = int64(g.r.N(700)) * sec
				}
				ops = append(ops, Op{K: "sleep", N: d + int64(g.r.N(1000))*ms})
			}
			ops = append(ops, o)
		}
		p.Tasks[i] = ops
	}
	g.long(p.Tasks, func() int64 {
		if g.pct(50) {
			return 0
		}
		return int64(g.r.N(4000)) * ms
	})
	unique(p.Tasks)
	p.P["tail"] = []int64{5, 35, 70, 320}[g.r.N(4)]
	g.suspend(p, 20, 100*sec, forever)
	p.sortEv()
	return p
}

func runMeter(w *World) {
	p, c := w.p, w.col
	w.disk.HReplace(confPath, []byte(confText(p.Conf)), 0)
	if !w.bootAgent(60 * sec) {
		return
	}
	lim := int64(300 * sec)
	if v, ok := p.Conf["stuck_service_base_time_ms"]; ok {
		lim = atoi64(v) * ms
	}
	a := newApp(w)
	a.onEnd = func(s *svc) { s.pz = simrt.S.PausedDone }
	ts := w.timeline(a, nil, nil)
	if !a.waitAll(ts, 12000*sec) {
		if !w.dead() {
			w.fail("C14", "app-stuck", "the application's goroutines did not finish")
		}
		return
	}
	w.calmDown()
	simrt.Sleep(p.p("tail") * sec)
	if w.dead() {
		return
	}
	// the ends, as the counters should have seen them
	type end struct {
		e0, e1   int64
		l0, l1   int64 // elapsed, ms
		err, may bool  // recorded as an error; may also not be, or not count at all
		mayErr   bool  // it may have inherited an error
		s        *svc
	}
	var ends []end
	for _, s := range a.svcs {
		e0, e1 := w.endBracket(s)
		if s.ends > 0 && !s.ended {
			e0, e1 = s.e0, forever
		}
		x := end{e0: e0, e1: e1, s: s, err: len(s.errs) > 0 || s.errForce != ""}
		for q := s; q.kind == kInherit && q.parent != nil; q = q.parent {
			if q.a1-q.parent.a0 > lim-ms { // its parent may have been finished as stuck before
				x.mayErr = true
			}
		}
		if e1-s.a0 > lim-ms { // it may be, or was, finished as stuck before that
			x.e0 = min(e0, s.a0+lim-ms)
			x.may = true
			if s.ended { // the one that finishes it as stuck may still be at it when the application's call has returned
				e1 = max(e1, s.e0+10*ms+simrt.S.PausedTotal-s.pz)
				x.e1 = e1
			}
			if e0-s.a1 > lim+5*sec+simrt.S.PausedTotal {
				x.e1 = min(e1, s.a1+lim+5*sec+simrt.S.PausedTotal)
				x.may, x.err = x.e1 == forever, true
			}
		} else if e0 == forever {
			continue
		}
		x.l0, x.l1 = (x.e0-s.a1)/ms-1, (x.e1-s.a0)/ms+1
		if x.l0 < 0 {
			x.l0 = 0
		}
		ends = append(ends, x)
	}
	for _, x := range ends {
		w.logf("end of service %d: %d..%d us, start %d..%d us, elapsed %d..%d", x.s.id, x.e0/1000, x.e1/1000, x.s.a0/1000, x.s.a1/1000, x.l0, x.l1)
	}
	prevPz := map[byte]int64{}
	var sums []struct {
		t int64
		v int64
	}
	seen := 0
	for i, d := range c.dg {
		for _, pk := range parseDgrams(c.dg[i:i+1], nil) {
			pr, ok := pk.V.(*perfRec)
			if !ok {
				continue
			}
			period := int64(30)
			if pr.TT == 3 {
				period = 300
			}
			t1 := d.T
			t0 := t1 - (d.Pz - prevPz[pr.TT]) - ms
			prevPz[pr.TT] = d.Pd
			f := func(k string) float64 {
				switch v := pr.Data[k].(type) {
				case float32:
					return float64(v)
				case float64:
					return v
				case int64:
					return float64(v)
				}
				w.fail("C14", "absent", "the counters (kind %d) of %d ms lack %s: %v", pr.TT, t1/ms, k, pr.Data)
				return -1
			}
			tps, el, er := f("GoTPS"), f("GoElapsedTime"), f("GoErrorRate")
			if tps < 0 || el < 0 || er < 0 {
				continue
			}
			nlo, nhi, elo, ehi, rlo, rhi := 0, 0, int64(0), int64(0), 0, 0
			mn, mx := forever, int64(0)
			for _, x := range ends {
				if x.e0 > t1 || x.e1 <= t0-period*sec {
					continue
				}
				nhi++
				mn, mx = min(mn, x.l0), max(mx, x.l1)
				ehi += x.l1
				sure := x.e0 > t1-(period-1)*sec && x.e1 <= t0 && (!x.may || x.e1 < forever)
				if x.err || x.may || x.mayErr {
					rhi++
				}
				if sure {
					nlo++
					elo += x.l0
					if x.err {
						rlo++
					}
				}
			}
			n := int(math.Round(tps * float64(period)))
			where := fmt.Sprintf("the counters (%d s) of %d ms", period, t1/ms)
			if n < nlo || n > nhi || math.Abs(tps*float64(period)-float64(n)) > 0.01 {
				w.fail("C14", "count", "%s show %g/s = %d services; %d to %d ended in the window", where, tps, n, nlo, nhi)
				continue
			}
			if n > 0 {
				seen++
				w.counts["windows-counted"]++
			} else {
				w.counts["windows-empty"]++
				if el != 0 || er != 0 {
					w.fail("C14", "empty", "%s show no service, %g ms and %g %% errors", where, el, er)
				}
				continue
			}
			if nlo == nhi {
				if el < math.Floor(float64(elo)/float64(n))-1 || el > float64(ehi)/float64(n)+1 {
					w.fail("C14", "elapsed", "%s show %g ms on average; %d to %d ms in %d services is right", where, el, elo, ehi, n)
				}
			} else if el < float64(mn)-1 || el > float64(mx)+1 {
				w.fail("C14", "elapsed", "%s show %g ms on average; the services took %d to %d ms", where, el, mn, mx)
			}
			k := er * float64(n) / 100
			if math.Abs(k-math.Round(k)) > 1e-4*float64(n) || int(math.Round(k)) < rlo || int(math.Round(k)) > rhi {
				w.fail("C14", "errors", "%s show %g %% of %d services failing; %d to %d did", where, er, n, rlo, rhi)
			}
			_ = sums
		}
	}
	// the average number of active services is that of the samples in its window
	type averaged struct {
		t, pz  int64
		tt     byte
		before int // samples sent before it
		got    float64
	}
	var avgs []averaged
	for i, d := range c.dg {
		for _, pk := range parseDgrams(c.dg[i:i+1], nil) {
			pr, ok := pk.V.(*perfRec)
			if !ok {
				continue
			}
			got, ok := pr.Data["GoActiveService"].(float32)
			if !ok {
				w.fail("C14", "absent", "the counters (kind %d) of %d ms lack GoActiveService: %v", pr.TT, d.T/ms, pr.Data)
				continue
			}
			if pr.TT == 1 {
				sp, _ := pr.Data["ActiveSpeed"].([]any)
				t := int64(0)
				for _, x := range sp {
					n, _ := x.(int64)
					t += n
				}
				sums = append(sums, struct {
					t int64
					v int64
				}{d.T, t})
			}
			avgs = append(avgs, averaged{t: d.T, pz: d.Pz, tt: pr.TT, before: len(sums), got: float64(got)})
		}
	}
	pzTot := simrt.S.PausedTotal
	for _, x := range avgs {
		period, l0, l1 := int64(30), x.before, x.before
		if x.tt == 3 { // samples on their way while it was made up
			period, l0, l1 = 300, max(0, x.before-1-int(pzTot/(2*sec))), min(len(sums), x.before+1)
		}
		match := false
		var may []float64
		for last := l1; last >= l0 && !match; last-- {
			s, n := int64(0), int64(0)
			for k := last - 1; k >= -1; k-- {
				if k < 0 || sums[k].t <= x.t-(period-1)*sec+ms+pzTot {
					avg := 0.0
					if n > 0 {
						avg = float64(s) / float64(n)
					}
					may = append(may, avg)
					match = match || math.Abs(avg-x.got) <= 1e-4*math.Max(1, avg)
				}
				if k < 0 || sums[k].t < x.t-period*sec-ms-pzTot {
					break
				}
				s, n = s+sums[k].v, n+1
			}
		}
		if !match {
			w.fail("C14", "active-average", "the counters (%d s) of %d ms show %g active services on average; the samples give %v", period, x.t/ms, x.got, may)
		}
	}
	w.nontriv = seen > 0
	fmt.Fprintf(&w.sample, "%d services, %d windows with services, %d without, sched %s", len(a.svcs), w.counts["windows-counted"], w.counts["windows-empty"], p.Sched.Mode)
	w.state(fmt.Sprint(len(a.svcs), w.counts))
}
