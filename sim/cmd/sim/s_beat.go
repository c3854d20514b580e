package main

import (
	"fmt"
	"math"
	"strings"

	simruntime "verifsim/shadow/runtime"
	"verifsim/simrt"
)

// Scenario "beat": minutes of heartbeats and performance counters while the application works, the
// object is renamed, memory figures move, counters fail, the wall clock jumps, and disk, name
// service, UDP and TCP fail for a while.
func init() {
	scenarios["beat"] = &Scenario{gen: genBeat, run: runBeat}
	defCheck("C20", "a case is a workload, a history of renames, memory figures, failing counters and clock jumps, faults of disk, name service, UDP and TCP, and a scheduler, from one seed; non-trivial when at least ten heartbeats were judged", Part{"beat", 16000})
}

func genBeat(prop string, seed uint64) *Plan {
	g := newGen(seed)
	p := basePlan(prop, "beat", seed, g)
	dur := int64(15+g.r.N(75)) * sec
	p.P["main"] = dur / sec
	at := func() int64 { return int64(g.r.N(int(dur/ms))) * ms }
	if g.pct(50) {
		p.Conf["obj_name"] = g.pick("first", "api", "한글 이름", "x.y", "a/b")
	}
	if g.pct(30) {
		p.Conf["obj_type"] = g.pick("golang", "batch", "web-front")
	}
	if g.pct(30) {
		p.Conf["trace_obj_send"] = "true"
	}
	for i := g.r.N(4); i > 0; i-- {
		k := g.pick("obj_name", "obj_name", "obj_type", "trace_obj_send")
		v := map[string]string{"obj_name": g.pick("second", "third", "first", "go1", "네번째"), "obj_type": g.pick("golang", "batch", "other"), "trace_obj_send": g.pick("true", "false")}[k]
		p.Ev = append(p.Ev, Op{K: "conf", At: at(), S: k, U: v})
	}
	big := []uint64{0, 1 << 31, 1<<32 - 40, 1<<40 + 12345}[g.r.N(4)]
	p.P["gc0"] = int64(uint32(big))
	p.P["pause0"] = int64(big * 3)
	for i := g.r.N(30); i > 0; i-- {
		p.Ev = append(p.Ev, Op{K: "mem", At: at(), N: []int64{0, int64(g.r.N(1 << 20)), int64(g.r.N(1<<30)) * 64}[g.r.N(3)], M: int64(g.r.N(40)), ID: g.r.N(500000000)})
	}
	for i := g.r.N(3); i > 0; i-- {
		if g.pct(50) {
			p.Ev = append(p.Ev, Op{K: "clock", At: at(), N: []int64{-86400 * 30, -3600, -40, -5, -2, -1, 1, 2, 5, 40, 3600, 86400 * 30}[g.r.N(12)] * sec})
		}
	}
	if g.pct(30) {
		for i := 1 + g.r.N(3); i > 0; i-- {
			p.Ev = append(p.Ev, Op{K: "panic", At: at(), S: g.pick("goroutines", "cgo", "mem"), N: int64(1 + g.r.N(3))})
		}
	}
	if g.pct(30) { // the collector has a name, and the name service fails
		p.Conf["net_collector_ip"] = "collector.example"
		if g.pct(60) {
			p.P["dns0"] = int64(1 + g.r.N(3))
			p.Ev = append(p.Ev, Op{K: "dns", At: int64(g.r.N(15000)) * ms})
		} else {
			a := at()
			p.Ev = append(p.Ev, Op{K: "dns", At: a, S: g.pick("nx", "timeout", "slow")}, Op{K: "dns", At: a + int64(g.r.N(15000))*ms})
		}
	}
	if g.pct(30) {
		a := at()
		p.Ev = append(p.Ev, Op{K: "udp", At: a, S: g.pick("refused", "nobufs", "unreach", "drop")}, Op{K: "udp", At: a + int64(g.r.N(15000))*ms})
	}
	if g.pct(40) {
		a := at()
		p.Ev = append(p.Ev, Op{K: "tcp", At: a, S: g.pick("refuse", "blackhole", "reset", "garbage")}, Op{K: "tcp", At: a + int64(g.r.N(20000))*ms, S: "up"})
	}
	if g.pct(15) {
		p.P["tcp0"] = int64(1 + g.r.N(3))
	}
	if g.pct(40) {
		for i := 1 + g.r.N(3); i > 0; i-- {
			a := at()
			f := Fault{K: g.pick("EIO", "ENOSPC", "EACCES", "EROFS", "EMFILE", "short", "stall"), Op: g.pick("", "", "open", "write", "read", "stat", "mkdir"), Path: g.pick("", "logs", "conf", "dump"), From: a, To: a + int64(g.r.N(20000))*ms, Part: 0.5}
			if f.K == "stall" {
				f.D, f.Cnt = int64(1+g.r.N(2500))*ms, 1+g.r.N(4)
			}
			p.FS = append(p.FS, f)
		}
	}
	if g.pct(10) {
		p.P["std_err"] = 1
	}
	for i := g.r.N(4); i > 0; i-- {
		p.Ev = append(p.Ev, Op{K: "cmd", At: at(), S: g.pick("OBJECT_ACTIVE_SERVICE_LIST", "OBJECT_ENV", "TRIGGER_THREAD_DUMP", "TRIGGER_BLOCK_PROFILE", "LIST_CONFIGURE_WAS", "NO_SUCH_COMMAND")})
	}
	if g.pct(60) {
		g.lifeConf(p)
		p.Net = nil
		p.Tasks = g.tasks(1+g.r.N(3), 4+g.r.N(12))
		g.long(p.Tasks, func() int64 {
			if g.pct(30) {
				return int64(g.r.N(8000)) * ms
			}
			return 0
		})
	}
	g.suspend(p, 15, dur, forever)
	p.sortEv()
	return p
}

type span struct{ a, b int64 }

func runBeat(w *World) {
	p, c := w.p, w.col
	dnsModes := []string{"", "nx", "timeout", "slow"}
	c.ips["collector.example"] = "10.0.0.1"
	c.dnsBad = dnsModes[p.p("dns0")]
	c.tcpDef = []string{"up", "refuse", "blackhole", "reset"}[p.p("tcp0")]
	w.disk.HReplace(confPath, []byte(confText(p.Conf)), 0)
	name0, type0 := "go1", "golang"
	if v, ok := p.Conf["obj_name"]; ok {
		name0 = v
	}
	if v, ok := p.Conf["obj_type"]; ok {
		type0 = v
	}
	hist := map[string]*confHist{"obj_name": {[]int64{0}, []string{name0}}, "obj_type": {[]int64{0}, []string{type0}}}
	// what the runtime reports, and when it was read
	type panicRec struct {
		t, paus int64
		dark    int
		msg     string
		seen    int
	}

	type memRec struct {
		t     int64
		heap  int64
		gc    uint32
		pause uint64
		cgo   int64
	}
	simruntime.Mem.NumGC = uint32(p.p("gc0"))
	simruntime.Mem.PauseTotalNs = uint64(p.p("pause0"))
	simruntime.Mem.HeapAlloc = 1000
	var mems []memRec
	mark := func() {
		m := &simruntime.Mem
		mems = append(mems, memRec{simrt.Now(), int64(m.HeapAlloc), m.NumGC, m.PauseTotalNs, simruntime.Cgo})
	}
	mark()
	var gor [][2]int64
	panicOn, panicIn := "", int64(0)
	var panics []panicRec
	var dark []span // when no datagram is expected to come out
	simruntime.OnRead = func(kind string, v int64) {
		if kind == "goroutines" {
			gor = append(gor, [2]int64{simrt.Now(), v})
		}
		if kind == panicOn {
			if panicIn--; panicIn <= 0 {
				panicOn = ""
				w.faults["counter-panic"]++
				dark = append(dark, span{simrt.Now() - ms, simrt.Now() + ms})
				m := fmt.Sprintf("injected: the counter %s failed (%d)", kind, len(panics))
				if len(panics)%3 == 1 {
					m += strings.Repeat(" and so on", 400)
				}
				panics = append(panics, panicRec{t: simrt.Now(), paus: simrt.S.PausedTotal, dark: len(dark) - 1, msg: m})
				panic(m)
			}
		}
	}
	var stalls []span
	var fsBad []span
	w.onFault = func(kind, op, path string) {
		if kind == "stall" {
			for _, f := range p.FS {
				if f.K == "stall" {
					stalls = append(stalls, span{simrt.Now(), simrt.Now() + f.D})
				}
			}
		}
	}
	for _, f := range p.FS {
		if f.Path == "" || f.Path == "conf" {
			fsBad = append(fsBad, span{f.From, f.To + f.D*int64(max(f.Cnt, 1))})
		}
	}
	t0 := simrt.Now()
	if c.dnsBad != "" {
		dark = append(dark, span{0, forever})
	}
	if !w.bootAgent(60 * sec) {
		if w.dead() {
			w.fail("C20", "died", "the host process died during initialisation")
		} else {
			w.fail("C20", "boot", "the process did not finish initialisation within 60 s")
		}
		return
	}
	up := simrt.Now()
	for _, s := range fsBad {
		if s.a <= up { // the file may have been unreadable at first
			for k, v := range map[string]string{"obj_name": "go1", "obj_type": "golang"} {
				h := hist[k]
				if h.t[0] == 0 {
					h.t, h.v = append([]int64{-ms}, h.t...), append([]string{v}, h.v...)
				}
			}
		}
	}
	a := newApp(w)
	start := simrt.Now()
	openUDP, openDNS := -1, len(dark)-1
	darkOpen := func(open *int, on bool, tail int64) {
		if on && *open < 0 {
			*open = len(dark)
			dark = append(dark, span{simrt.Now() - ms, forever})
		} else if !on && *open >= 0 {
			dark[*open].b = simrt.Now() + tail
			*open = -1
		}
	}
	ts := w.timeline(a, hist, func(ev Op) {
		switch ev.K {
		case "mem":
			m := &simruntime.Mem
			m.HeapAlloc = uint64(ev.N)
			m.NumGC += uint32(ev.M)
			m.PauseTotalNs += uint64(ev.ID)
			simruntime.Cgo += ev.M % 7
			mark()
		case "panic":
			panicOn, panicIn = ev.S, ev.N
		case "dns":
			c.dnsBad = ev.S
			darkOpen(&openDNS, ev.S != "", 15*sec+simrt.S.PausedTotal)
		case "udp":
			c.udpErr = ev.S
			darkOpen(&openUDP, ev.S != "", 5*sec)
		case "tcp":
			if ev.S == "garbage" {
				if x := c.cur(); x != nil {
					x.raw([]byte(strings.Repeat("\xff\x00garbage", 20)), nil, 0)
					w.faults["tcp-garbage"]++
				}
			} else {
				c.tcpDef = ev.S
				if x := c.cur(); x != nil && ev.S == "reset" {
					x.drop("reset")
				}
			}
		case "cmd":
			if x := c.cur(); x != nil {
				x.send(ev.S, nil, nil, 0)
			}
		}
	})
	if d := start + p.p("main")*sec - simrt.Now(); d > 0 && !w.dead() {
		simrt.Sleep(d)
	}
	if !w.dead() && !a.waitAll(ts, 600*sec) && !w.dead() {
		w.fail("C20", "app-stuck", "the application's goroutines did not finish")
		return
	}
	c.udpErr, c.dnsBad, c.tcpDef, panicOn = "", "", "up", ""
	darkOpen(&openDNS, false, 15*sec+simrt.S.PausedTotal)
	darkOpen(&openUDP, false, 5*sec)
	w.calmDown()
	simrt.Sleep(35*sec + simrt.S.PausedTotal - simrt.S.PausedDone)
	if w.dead() {
		w.fail("C20", "died", "the host process died")
		return
	}
	end := simrt.Now()
	stallIn := func(a, b int64) (n int64) { // disk stalls begun in a..b, or under way at a
		for _, s := range stalls {
			if s.a < b && s.b > a {
				n += s.b - s.a
			}
		}
		return
	}
	darkIn := func(a, b int64) bool {
		for _, s := range dark {
			if s.a < b && s.b > a {
				return true
			}
		}
		return false
	}
	// how much longer than its period a gap may be for datagrams that did not come out: each dark
	// span may swallow what falls into it, and one period more
	darkFor := func(a, b, P int64) (n int64) {
		for _, s := range dark {
			if s.a < b && s.b > a {
				n += min(s.b, b) - max(s.a, a) + P
			}
		}
		return
	}
	// names and types in force: the file's content in the last 15 s, longer if it could not be read
	allowed := func(k string, t int64) []string {
		from := t - 15*sec - simrt.S.PausedTotal
		for i := len(fsBad); i >= 0; i-- {
			for _, s := range fsBad {
				if s.a < t && s.b > from && s.a-15*sec-simrt.S.PausedTotal < from {
					from = s.a - 15*sec - simrt.S.PausedTotal
				}
			}
		}
		return hist[k].during(from, t, 0)
	}
	type beat struct {
		dgram
		v any
	}
	kinds := map[string][]beat{}
	texts := map[int32]string{}
	for i, d := range c.dg {
		for _, pk := range parseDgrams(c.dg[i:i+1], nil) {
			switch v := pk.V.(type) {
			case *objRec:
				kinds["heartbeat"] = append(kinds["heartbeat"], beat{d, v})
			case *perfRec:
				k := "real-time counters"
				if v.TT == 3 {
					k = "five-minute counters"
				} else if v.TT != 1 {
					w.fail("C20", "kind", "performance counters of unknown kind %d", v.TT)
				}
				kinds[k] = append(kinds[k], beat{d, v})
			case *textRec:
				texts[v.Hash] = v.Text
			case *alertRec:
				if v.Title == "Panic" {
					for i := range panics {
						x := &panics[i]
						if strings.HasPrefix(v.Msg, x.msg) && d.T >= x.t {
							if x.seen++; x.seen > 1 {
								w.fail("C20", "panic-repeated", "the failure of a counter at %d ms is reported %d times", x.t/ms, x.seen)
							}
							ok := false
							for _, n := range allowed("obj_name", d.T) {
								ok = ok || textHashOf("/simhost/"+n) == v.Obj
							}
							if v.Level != 3 || !ok {
								w.fail("C20", "panic-report", "the failure of a counter at %d ms is reported with level %d for object %d", x.t/ms, v.Level, v.Obj)
							}
						}
					}
				}
			case *xlogRec:
				ok := false
				for _, n := range allowed("obj_name", d.T) {
					ok = ok || textHashOf("/simhost/"+n) == v.ObjHash
				}
				if !ok {
					w.fail("C20", "record-name", "a record sent at %d ms carries the object hash %d, which is not that of %v", d.T/ms, v.ObjHash, allowed("obj_name", d.T))
				}
			}
		}
	}
	for _, x := range panics { // the failure itself reaches the collector when anything does
		lim := x.t + 2*sec + simrt.S.PausedTotal - x.paus
		lost := x.seen > 0 || lim > end
		for i, s := range dark {
			b := s.b
			if b < end && b-s.a > sec { // pauses since then held up the recovery too
				b += simrt.S.PausedTotal
			}
			lost = lost || i != x.dark && s.a < lim && b > x.t
		}
		if !lost {
			w.fail("C20", "panic-unreported", "a counter failed at %d ms (%s) and the collector was not told", x.t/ms, x.msg)
		}
	}
	period := map[string]int64{"heartbeat": 2 * sec, "real-time counters": 2 * sec, "five-minute counters": 10 * sec}
	for _, k := range sortedKeys(period) {
		P := period[k]
		bs := kinds[k]
		first := P
		if k == "heartbeat" {
			first = 0
		}
		if len(bs) == 0 {
			if end-t0 > first+P+darkFor(t0, end, P)+simrt.S.PausedTotal+stallIn(t0, end) {
				w.fail("C20", "never", "no %s were sent in %d s", k, (end-t0)/sec)
			}
			continue
		}
		if x := bs[0]; x.T > up+first+x.Pz+stallIn(t0, x.T)+darkFor(t0, x.T, P)+50*ms {
			w.fail("C20", "late", "the first %s were sent %d ms after the start", k, (x.T-up)/ms)
		}
		for i := 1; i < len(bs); i++ {
			x, y := bs[i-1], bs[i]
			gap := y.T - x.T
			more := y.Pz - x.Pd + stallIn(x.T, y.T) + 50*ms
			if gap > P+more+darkFor(x.T, y.T, P) {
				w.fail("C20", "gap", "no %s between %d and %d ms", k, x.T/ms, y.T/ms)
			}
			prev, prevT := int64(0), t0
			if i > 1 {
				prev, prevT = bs[i-2].Pd, bs[i-2].T
			}
			if late := x.Pz - prev + stallIn(prevT, x.T) + 50*ms; gap < P-late && !darkIn(prevT, y.T) && (i > 1 || k != "heartbeat") {
				w.fail("C20", "doubled", "%s sent at %d and again at %d ms", k, x.T/ms, y.T/ms)
			}
		}
		if x := bs[len(bs)-1]; end > x.T+P+simrt.S.PausedTotal-x.Pd+stallIn(x.T, end)+darkFor(x.T, end, P)+50*ms {
			w.fail("C20", "gap", "no %s after %d ms (until %d ms)", k, x.T/ms, end/ms)
		}
		w.counts[strings.ReplaceAll(k, " ", "-")] += int64(len(bs))
	}
	for _, b := range kinds["heartbeat"] {
		o := b.v.(*objRec)
		ok := false
		ns := allowed("obj_name", b.T)
		for _, n := range ns {
			ok = ok || o.Name == "/simhost/"+n
		}
		if !ok {
			w.fail("C20", "name", "the heartbeat of %d ms announces %q, the object is called %v", b.T/ms, o.Name, ns)
		}
		if o.Hash != textHashOf(o.Name) {
			w.fail("C20", "hash", "the heartbeat of %d ms announces %q with hash %d, its hash is %d", b.T/ms, o.Name, o.Hash, textHashOf(o.Name))
		}
		ok = false
		for _, n := range allowed("obj_type", b.T) {
			ok = ok || o.Type == n
		}
		if !ok {
			w.fail("C20", "type", "the heartbeat of %d ms announces the type %q, it is %v", b.T/ms, o.Type, allowed("obj_type", b.T))
		}
		if !o.Alive || o.Version == "" {
			w.fail("C20", "heartbeat", "the heartbeat of %d ms is not that of a live agent: %+v", b.T/ms, *o)
		}
		if t, ok := texts[o.Hash]; (!ok || t != o.Name) && b.T < end-30*sec && len(dark) == 0 {
			w.fail("C20", "text", "the name %q was announced and its text never sent", o.Name)
		}
	}
	// the figures
	memAt := func(a, b int64) (l []memRec) {
		for i, m := range mems {
			e := forever
			if i+1 < len(mems) {
				e = mems[i+1].t
			}
			if m.t <= b && e >= a {
				l = append(l, m)
			}
		}
		return
	}
	num := func(v any) (float64, bool) {
		switch x := v.(type) {
		case int64:
			return float64(x), true
		case float32:
			return float64(x), true
		case float64:
			return x, true
		}
		return 0, false
	}
	rts := kinds["real-time counters"]
	var slacks []int64
	for i, b := range rts {
		prev := int64(0)
		if i > 0 {
			prev = rts[i-1].Pd
		}
		slacks = append(slacks, b.Pz-prev+stallIn(b.T-3*sec, b.T)+5*ms)
	}
	judged := 0
	for i, b := range rts {
		r := b.v.(*perfRec)
		T, S := b.T, slacks[i]
		if darkIn(T-S, T) {
			continue
		}
		okN := false
		for _, n := range allowed("obj_name", T) {
			okN = okN || r.Obj == "/simhost/"+n
		}
		if !okN {
			w.fail("C20", "counter-name", "the counters of %d ms carry the name %q, the object is called %v", T/ms, r.Obj, allowed("obj_name", T))
		}
		get := func(k string) float64 {
			v, ok := num(r.Data[k])
			if !ok || math.IsNaN(v) || math.IsInf(v, 0) {
				w.fail("C20", "absent", "the counters of %d ms give %s as %v", T/ms, k, r.Data[k])
				return -1
			}
			return v
		}
		g := get("Goroutine")
		ok := false
		for _, x := range gor {
			ok = ok || x[0] >= T-S && x[0] <= T && float64(x[1]) == g
		}
		if !ok {
			w.fail("C20", "goroutines", "the counters of %d ms show %g goroutines, which was not their number then", T/ms, g)
		}
		h, cg := get("GoHeapUsed"), get("GoCgoCall")
		okH, okC := false, false
		for _, m := range memAt(T-S, T) {
			okH = okH || math.Abs(float64(m.heap)-h) <= 1e-6*math.Abs(h)
			okC = okC || float64(m.cgo) == cg
		}
		if !okH {
			w.fail("C20", "heap", "the counters of %d ms show %g bytes of heap, it was %v", T/ms, h, memAt(T-S, T))
		}
		if !okC {
			w.fail("C20", "cgo", "the counters of %d ms show %g cgo calls, there were %v", T/ms, cg, memAt(T-S, T))
		}
		n, ps := get("GoGcCount"), get("GoGcPause")
		if i == 0 {
			continue
		}
		a := rts[i-1]
		if T-a.T > 3500*ms+S || darkIn(a.T, T) {
			continue
		}
		judged++
		dmin, dmax := float64(T-S-a.T)/1e9, float64(T-a.T+slacks[i-1])/1e9
		if dmin <= 0.01 {
			continue
		}
		m0, m1 := memAt(a.T-slacks[i-1], a.T), memAt(T-S, T)
		lo, hi := float64(uint32(m1[0].gc-m0[len(m0)-1].gc)), float64(uint32(m1[len(m1)-1].gc-m0[0].gc))
		if lo > 1<<31 {
			lo = 0
		}
		if n < lo/dmax*0.999-0.001 || n > hi/dmin*1.001+0.001 {
			w.fail("C20", "gc", "the counters of %d ms show %g collections per second; %g to %g in %.3f to %.3f s took place", T/ms, n, lo, hi, dmin, dmax)
		}
		plo, phi := float64(int64(m1[0].pause-m0[len(m0)-1].pause))/1e6, float64(int64(m1[len(m1)-1].pause-m0[0].pause))/1e6
		if plo < 0 {
			plo = 0
		}
		if ps < plo/dmax*0.999-0.001 || ps > phi/dmin*1.001+0.001 {
			w.fail("C20", "gc-pause", "the counters of %d ms show %g ms of pauses per second; %g to %g ms in %.3f to %.3f s took place", T/ms, ps, plo, phi, dmin, dmax)
		}
	}
	for _, b := range kinds["five-minute counters"] {
		r := b.v.(*perfRec)
		ok := false
		for _, n := range allowed("obj_name", b.T) {
			ok = ok || r.Obj == "/simhost/"+n
		}
		if !ok {
			w.fail("C20", "counter-name", "the five-minute counters of %d ms carry the name %q, the object is called %v", b.T/ms, r.Obj, allowed("obj_name", b.T))
		}
	}
	w.nontriv = len(kinds["heartbeat"]) >= 10 && judged >= 5
	fmt.Fprintf(&w.sample, "%d heartbeats, %d and %d counter packs, %d services, %d events, sched %s", len(kinds["heartbeat"]), len(rts), len(kinds["five-minute counters"]), len(a.svcs), len(p.Ev), p.Sched.Mode)
	w.state(fmt.Sprint(len(kinds["heartbeat"]), len(rts), len(p.Ev), w.faults))
}
