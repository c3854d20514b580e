package main

import (
	"fmt"
	"math"
	"strings"

	"verifsim/simrt"
)

func init() {
	scenarios["sample"] = &Scenario{gen: genSample, run: runSample}
	defCheck("C15", "a case is a sampling and discarding configuration (rates, ranges, patterns), services of all durations, errors and names, settings changed while they run and a scheduler, from one seed; non-trivial when at least one decision was judged", Part{"sample", 16000})
}

var sampGroups = []string{"", "patterned_", "patterned2_", "patterned3_"}

// shortName draws names whose parts repeat and overlap.
func (g *gen) shortName() string {
	parts := []string{"a", "b", "ab", "ba", "aa", "/", "/", "o", "-1", "é"}
	s := "/"
	for n := 1 + g.r.N(5); n > 0; n-- {
		s += parts[g.r.N(len(parts))]
	}
	return s
}

// pattern turns a name into a pattern that may or may not match it.
func (g *gen) pattern(names []string) string {
	n := names[g.r.N(len(names))]
	at := func(i int) int { // not inside a character
		for i < len(n) && n[i]&0xc0 == 0x80 {
			i++
		}
		return i
	}
	cut := func() (int, int) {
		i, j := at(g.r.N(len(n)+1)), at(g.r.N(len(n)+1))
		return min(i, j), max(i, j)
	}
	i, j := cut()
	switch g.r.N(10) {
	case 0:
		return n
	case 1:
		return n[:i] + "*"
	case 2:
		return "*" + n[i:]
	case 3:
		return "*" + n[i:j] + "*"
	case 4:
		return n[:j] + "*" + n[i:] // the parts overlap in the name
	case 5:
		return n[:i] + "*" + n[j:]
	case 6:
		return "*" + n[j:] + "*" + n[:i] + "*" // the wrong way round, mostly
	case 7:
		return "*" + n[:i] + "*" + n[j:] + "*"
	case 8:
		k := at(i + g.r.N(len(n)-i+1))
		return g.pick(n[:i]+"*"+n[min(i, j):k]+"*", "*"+n[i:k]+"*"+n[min(k, j):], n[:i]+"*"+n[i:k]+"*"+n[k:])
	}
	return g.pick("*", "**", g.shortName(), "x"+n, n+"x", "*"+n+"?*", "")
}

func (g *gen) patterns(names []string) string {
	var l []string
	for n := []int{1, 1, 1, 2, 3}[g.r.N(5)]; n > 0; n-- {
		l = append(l, g.pattern(names))
	}
	return strings.Join(l, ",")
}

func (g *gen) sampConf(conf map[string]string, names []string) {
	bit := func(k string, pct int) {
		if g.pct(pct) {
			conf[k] = g.pick("true", "true", "false")
		}
	}
	for i, grp := range sampGroups {
		pre := "xlog_" + grp + "sampling_"
		if !g.pct([]int{70, 50, 30, 30}[i]) {
			if i > 0 && g.pct(20) { // patterns of a group that is off
				conf[pre+"service_patterns"] = g.patterns(names)
			}
			continue
		}
		conf[pre+"enabled"] = "true"
		bit(pre+"only_profile", 50)
		for _, s := range []string{"step1", "step2", "step3", "over"} {
			if g.pct(85) {
				conf[pre+s+"_rate_pct"] = []string{"0", "0", "100", "100", "3000", "50", "1", "99", "-5"}[g.r.N(9)]
			}
		}
		if g.pct(70) {
			t := []int{g.r.N(60), g.r.N(300), g.r.N(1500)}
			for k := range t {
				if k > 0 && g.pct(90) {
					t[k] += t[k-1]
				}
				if g.pct(4) { // so long that it means always (or so short)
					t[k] = []int{1 << 31, 3000000000, 1 << 33, 99999999999, -1, -3000000000}[g.r.N(6)]
				}
				conf[pre+fmt.Sprintf("step%d_ms", k+1)] = fmt.Sprint(t[k])
			}
		}
		if i > 0 {
			conf[pre+"service_patterns"] = g.patterns(names)
			if before := conf["xlog_"+sampGroups[i-1]+"sampling_service_patterns"]; before != "" && g.pct(25) { // the same services
				conf[pre+"service_patterns"] = before
			}
		}
	}
	if g.pct(30) {
		conf["xlog_sampling_exclude_patterns"] = g.patterns(names)
	}
	if g.pct(40) {
		conf["xlog_discard_service_patterns"] = g.patterns(names)
	}
	if g.pct(30) {
		conf["xlog_discard_service_show_error"] = g.pick("false", "false", "true")
	}
}

func genSample(prop string, seed uint64) *Plan {
	g := newGen(seed)
	p := basePlan(prop, "sample", seed, g)
	g.http, g.late, g.never, g.inherit = 40, 1, 2, 1
	g.errs = 25
	var names []string
	for n := 1 + g.r.N(5); n > 0; n-- {
		s := g.shortName()
		if g.pct(8) { // long ones differ late
			s = "/" + strings.Repeat("part/", 12+g.r.N(40)) + s
		}
		names = append(names, s)
	}
	g.sampConf(p.Conf, append(names, names[0]+"<GET>"))
	if g.pct(20) {
		p.Conf["profile_step_max_keep_in_memory_count"] = fmt.Sprint(1 + g.r.N(6))
	}
	p.Tasks = g.tasks(1+g.r.N(5), 5)
	var f func(ops []Op)
	f = func(ops []Op) {
		for i := range ops {
			switch o := &ops[i]; o.K {
			case "http", "svc", "go", "name":
				o.S = names[g.r.N(len(names))]
			}
			f(ops[i].Sub)
		}
	}
	for i := range p.Tasks {
		f(p.Tasks[i])
	}
	g.long(p.Tasks, func() int64 {
		if g.pct(40) {
			return 0
		}
		return []int64{50, 300, 2000}[g.r.N(3)] * ms * int64(g.r.N(100)) / 100
	})
	if g.pct(40) { // the settings change
		was, at := p.Conf, int64(g.r.N(8000))*ms
		for n := []int{1, 1, 2, 3}[g.r.N(4)]; n > 0; n-- {
			c2 := map[string]string{}
			switch x := g.r.N(10); {
			case x < 2: // few things change
				for k, v := range was {
					c2[k] = v
				}
			case x < 4: // back again
				for k, v := range p.Conf {
					c2[k] = v
				}
			default:
				g.sampConf(c2, append(names, names[0]+"<POST>"))
			}
			if g.pct(30) { // only the patterns
				for k, v := range was {
					if !strings.HasSuffix(k, "_patterns") {
						c2[k] = v
					}
				}
			}
			if g.pct(30) { // a group takes over the patterns of another
				i := g.r.N(4)
				if was["xlog_"+sampGroups[i]+"sampling_service_patterns"] == "" {
					i = g.r.N(4)
				}
				j := []int{g.r.N(4), (i + 1) % 4, (i + 1) % 4}[g.r.N(3)]
				from, to := "xlog_"+sampGroups[i]+"sampling_service_patterns", "xlog_"+sampGroups[j]+"sampling_service_patterns"
				if i == 0 {
					from = "xlog_discard_service_patterns"
				}
				if j == 0 {
					to = "xlog_discard_service_patterns"
				}
				if was[from] != "" {
					c2[to] = was[from]
					if i > 0 && j > 0 && g.pct(50) {
						c2["xlog_"+sampGroups[i]+"sampling_enabled"], c2["xlog_"+sampGroups[j]+"sampling_enabled"] = "false", "true"
					}
					if g.pct(70) {
						c2[from] = was[from]
					}
				}
			}
			keys := map[string]bool{}
			for _, c := range []map[string]string{was, c2} {
				for k := range c {
					keys[k] = strings.HasPrefix(k, "xlog_")
				}
			}
			for _, k := range sortedKeys(keys) {
				if v, ok := c2[k]; keys[k] && (!ok || v != was[k]) {
					p.Ev = append(p.Ev, Op{K: "conf", At: at, S: k, U: v}) // empty: the default again
				}
			}
			was = c2
			at += int64(4000+g.r.N(8000)) * ms
		}
		for i := range p.Tasks {
			k := g.r.N(len(p.Tasks[i]) + 1)
			wait := []int64{0, 0, 6, 18, 22, 26}[g.r.N(6)] * sec
			p.Tasks[i] = append(p.Tasks[i][:k:k], append([]Op{{K: "sleep", N: wait + int64(g.r.N(4000))*ms}}, p.Tasks[i][k:]...)...)
		}
		if g.pct(15) { // the first service ends just as the first change is read
			for i := range p.Ev {
				p.Ev[i].At %= 4900 * ms
			}
			for i := range p.Tasks {
				late := append([]Op{{K: "sleep", N: 36 * sec}}, p.Tasks[i]...)
				if i == 0 {
					late = append([]Op{{K: "sleep", N: 5*sec - int64(g.r.N(6000)-2000)*1000}, {K: "svc", S: names[0], U: "1.2.3.4"}}, late...)
				}
				p.Tasks[i] = late
			}
			if g.pct(70) {
				p.Sched = simrt.SchedCfg{Mode: "sites", P: 0.5, SiteFrac: 0.3, PauseP: 0.2, PauseMax: 20 * ms}
			}
		}
	} else if g.pct(30) {
		p.P["bulk"] = int64(100 + g.r.N(300))
		r := fmt.Sprint(1 + g.r.N(99))
		if g.pct(20) {
			r = g.pick("1", "99", "99")
		}
		if g.pct(4) { // many, decided by one rate
			p.P["bulk"] = int64(6000 + g.r.N(3000))
			r = g.pick("1", "99", "99")
			for _, k := range sortedKeys(p.Conf) {
				if strings.HasPrefix(k, "xlog_") {
					delete(p.Conf, k)
				}
			}
			pre := "xlog_" + sampGroups[g.r.N(4)] + "sampling_"
			p.Conf[pre+"enabled"], p.Conf[pre+"step1_rate_pct"], p.Conf[pre+"service_patterns"] = "true", r, "/b*"
		}
		for _, grp := range sampGroups {
			pre := "xlog_" + grp + "sampling_"
			if g.pct(50) && p.Conf[pre+"service_patterns"] != "" {
				p.Conf[pre+"service_patterns"] += ",/bulk"
			}
			if g.pct(50) && p.Conf[pre+"enabled"] != "" {
				k := g.r.N(4)
				for i := 1; i < 4; i++ {
					p.Conf[pre+fmt.Sprintf("step%d_ms", i)] = []string{"0", "1000"}[min(1, i/(k+1))]
				}
			}
		}
		for _, k := range sortedKeys(p.Conf) { // all the same
			if i := strings.Index(k, "_step1_rate_pct"); i > 0 && (p.P["bulk"] >= 3000 || g.pct(80)) {
				for _, s := range []string{"step1", "step2", "step3", "over"} {
					p.Conf[k[:i]+"_"+s+"_rate_pct"] = r
				}
			}
		}
	}
	g.suspend(p, 8, 30*sec, 100*sec)
	p.sortEv()
	return p
}

// glob: every * stands for any text, also none.
func glob(pat, s string) bool {
	if pat == "" {
		return s == ""
	}
	if pat[0] == '*' {
		for i := 0; i <= len(s); i++ {
			if glob(pat[1:], s[i:]) {
				return true
			}
		}
		return false
	}
	return s != "" && s[0] == pat[0] && glob(pat[1:], s[1:])
}

func globs(list, s string) bool {
	for _, p := range strings.Split(list, ",") {
		if p != "" && s != "" && glob(p, s) {
			return true
		}
	}
	return false
}

const (
	dNone = 1 << iota
	dAll
	dProfile
	dForce
)

// sampModel says what may become of a service (a set of d...), by the documented settings.
func sampModel(conf map[string]string, name string, elapsed int64, failed bool) (set int, rate int64) {
	num := func(k string, def int64) int64 {
		if v := conf[k]; v != "" {
			return atoi64(v)
		}
		return def
	}
	rate = -1
	if globs(conf["xlog_discard_service_patterns"], name) {
		if failed && conf["xlog_discard_service_show_error"] != "false" {
			return dNone, rate
		}
		return dForce, rate
	}
	if failed {
		return dNone, rate
	}
	on := func(grp string) bool { return conf["xlog_"+grp+"sampling_enabled"] == "true" }
	if on("") && globs(conf["xlog_sampling_exclude_patterns"], name) {
		return dNone, rate
	}
	for _, grp := range []string{"patterned_", "patterned2_", "patterned3_", ""} {
		pre := "xlog_" + grp + "sampling_"
		if !on(grp) || grp != "" && !globs(conf[pre+"service_patterns"], name) {
			continue
		}
		switch {
		case elapsed < num(pre+"step1_ms", 100):
			rate = num(pre+"step1_rate_pct", 2)
		case elapsed < num(pre+"step2_ms", 500):
			rate = num(pre+"step2_rate_pct", 7)
		case elapsed < num(pre+"step3_ms", 1000):
			rate = num(pre+"step3_rate_pct", 15)
		default:
			rate = num(pre+"over_rate_pct", 3000)
		}
		away := dAll
		if conf[pre+"only_profile"] == "true" {
			away = dProfile
		}
		switch {
		case rate <= 0:
			return away, rate
		case rate >= 100:
			return dNone, rate
		}
		return dNone | away, rate
	}
	return dNone, rate
}

func runSample(w *World) {
	p := w.p
	w.disk.HReplace(confPath, []byte(confText(p.Conf)), 0)
	if !w.bootAgent(60 * sec) {
		return
	}
	hist := map[string]*confHist{}
	for k, v := range p.Conf {
		hist[k] = &confHist{t: []int64{0}, v: []string{v}}
	}
	for _, ev := range p.Ev {
		if ev.K == "conf" && hist[ev.S] == nil {
			hist[ev.S] = &confHist{t: []int64{0}, v: []string{""}}
		}
	}
	a := newApp(w)
	a.onEnd = func(s *svc) { s.pz = simrt.S.PausedDone }
	if n := int(p.p("bulk")); n > 0 {
		name := "/bulk"
		var ops []Op
		for i := 0; i < n; i++ {
			ops = append(ops, Op{K: "svc", S: name, U: "1.2.3.4", Sub: []Op{{K: "msg", S: "m"}}})
			if i%100 == 99 {
				ops = append(ops, Op{K: "sleep", N: ms})
			}
		}
		p = p.clone()
		p.Tasks = append(p.Tasks, ops)
		w.p = p
	}
	ts := w.timeline(a, hist, nil)
	if !a.waitAll(ts, 400*sec) {
		if !w.dead() {
			w.fail("C15", "app-stuck", "the application's goroutines did not finish")
		}
		return
	}
	w.calmDown()
	simrt.Sleep(6 * sec)
	if w.dead() {
		return
	}
	wi := collect(parseDgrams(w.col.dg, nil))
	slack := 15*sec + simrt.S.PausedTotal
	full := atoi64(p.Conf["profile_step_max_keep_in_memory_count"])
	if full <= 0 {
		full = 2048
	}
	judged := 0
	kept, drawn := map[int64]int{}, map[int64]int{}
	for _, s := range a.svcs {
		e0, e1 := w.endBracket(s)
		if !s.ended || s.txid == 0 {
			continue
		}
		conf := map[string]string{}
		sure := true
		for k, h := range hist {
			v := h.during(e0, e1, slack)
			for _, x := range v {
				sure = sure && x == v[0]
			}
			conf[k] = v[0]
		}
		if !sure {
			w.counts["decisions-during-change"]++
			continue
		}
		recs, profs := wi.xlogs[s.txid], wi.profs[s.txid]
		l0, l1 := max(0, (e0-s.a1)/ms-1), (e1-s.a0)/ms+1
		if len(recs) > 0 {
			if x := int64(recs[0].Elapsed); x < l0 || x > l1 {
				w.fail("C15", "elapsed", "service %d (%s) has a record of %d ms, took %d to %d", s.id, s.name, x, l0, l1)
			} else {
				l0, l1 = x, x
			}
		}
		names := []string{s.name}
		if s.shared {
			names = s.names
		}
		fails := []bool{len(s.errs) > 0}
		if s.shared && len(s.everErrs) > 0 {
			fails = []bool{true, false}
		}
		// the elapsed times that matter: the bounds of the ranges
		els := []int64{l0, l1}
		for k, v := range conf {
			if strings.HasSuffix(k, "_ms") {
				if x := atoi64(v); x >= l0 && x <= l1 {
					els = append(els, x, max(l0, x-1))
				}
			}
		}
		for _, x := range []int64{99, 100, 499, 500, 999, 1000} {
			if x >= l0 && x <= l1 {
				els = append(els, x)
			}
		}
		set, rate := 0, int64(-1)
		// a chance is only measured where it is the same for all elapsed times, since sending a
		// service's data lengthens its end
		same := len(names) == 1 && len(fails) == 1
		_, r0 := sampModel(conf, s.name, 0, fails[0])
		for _, k := range append(sortedKeys(conf), "", "1", "2") {
			x := map[string]int64{"": 100, "1": 500, "2": 1000}[k]
			if strings.HasSuffix(k, "_ms") {
				x = atoi64(conf[k])
			}
			_, r := sampModel(conf, s.name, x, fails[0])
			same = same && r == r0
		}
		for _, n := range names {
			for _, f := range fails {
				for _, l := range els {
					x, r := sampModel(conf, n, l, f)
					if set != 0 && r != rate {
						r = -1
					}
					set, rate = set|x, r
				}
			}
		}
		judged++
		who := fmt.Sprintf("service %d (%s, errors %v, %d to %d ms) under %s", s.id, s.name, s.errs, l0, l1, sampText(conf))
		if len(recs) > 1 {
			w.fail("C15", "records", "%s has %d records", who, len(recs))
			continue
		}
		parts, short := 0, false
		for _, pf := range profs {
			n := int64(len(pf.V.(*profRec).Steps))
			parts++
			if n != full {
				short = true
			}
		}
		// which outcome it was
		got := 0
		child := s.gxid != 0 && s.gxid != s.txid
		if len(recs) == 0 {
			got = dForce
			if !child {
				got |= dAll
			}
			w.counts["decisions-discarded"]++
		} else {
			switch recs[0].Discard {
			case 0, 1:
				got = dNone
				w.counts["decisions-kept"]++
			case 3:
				got = dProfile
				w.counts["decisions-without-profile"]++
			case 2:
				if child {
					got = dAll
				}
				w.counts["decisions-child-record-only"]++
			}
		}
		if got&set == 0 {
			w.fail("C15", "decision", "%s: %d records (discard type %v), %d profile parts; allowed outcomes %s", who, len(recs), discards(recs), parts, outcomes(set))
			continue
		}
		if got&dNone == 0 && short {
			w.fail("C15", "profile-sent", "%s: its profile was sent although it was sampled away or discarded", who)
		}
		if got == dNone && parts == 0 && !s.shared {
			for _, st := range s.steps {
				if !st.optional {
					w.fail("C15", "profile-missing", "%s: its record is kept, its profile is not", who)
					break
				}
			}
		}
		if rate > 0 && rate < 100 && same {
			drawn[rate]++
			if got == dNone {
				kept[rate]++
			}
		}
	}
	for r, n := range drawn {
		f := float64(r) / 100
		if d := math.Abs(float64(kept[r]) - f*float64(n)); n >= 60 && d > 6*math.Sqrt(f*(1-f)*float64(n))+1 {
			w.fail("C15", "rate", "of %d services sampled at %d %% %d were kept", n, r, kept[r])
		}
		if n >= 60 {
			w.counts["rates-measured"]++
		}
	}
	w.nontriv = judged > 0
	fmt.Fprintf(&w.sample, "%d services, %d judged, %s, sched %s", len(a.svcs), judged, sampText(p.Conf), p.Sched.Mode)
	w.state(fmt.Sprint(len(a.svcs), judged, w.counts))
}

func discards(recs []*xlogRec) (l []byte) {
	for _, r := range recs {
		l = append(l, r.Discard)
	}
	return
}

func outcomes(set int) string {
	var l []string
	for i, n := range []string{"kept", "sampled away", "record only", "discarded"} {
		if set&(1<<i) != 0 {
			l = append(l, n)
		}
	}
	return strings.Join(l, " or ")
}

func sampText(conf map[string]string) string {
	var l []string
	for _, k := range sortedKeys(conf) {
		if strings.HasPrefix(k, "xlog_") && conf[k] != "" {
			l = append(l, strings.TrimPrefix(k, "xlog_")+"="+conf[k])
		}
	}
	return strings.Join(l, " ")
}
