package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	"verifsim/simrt"
)

// Scenario "conf": the configuration file is created, edited, replaced and removed in every way
// editors and deployment tools do it, with read faults, clock jumps and coarse time stamps.
func init() {
	scenarios["conf"] = &Scenario{gen: genConf, run: runConf}
	defCheck("C10", "a case is an environment, a history of configuration file versions and the way each was put in place, read faults, clock jumps, probes and a scheduler, from one seed; non-trivial when at least one version had to be picked up while the agent ran", Part{"conf", 14000})
}

type confKey struct {
	key, typ, def string // typ: int (positive), num (any), bool, str
}

var confKeys = []confKey{
	{"obj_name", "str", "go1"}, {"obj_type", "str", "golang"},
	{"net_collector_udp_port", "port", "6100"},
	{"net_collector_tcp_connection_timeout_ms", "int", "3000"},
	{"udp_max_bytes", "int", "60000"},
	{"send_queue_size", "int", "3000"},
	{"stuck_service_base_time_ms", "int", "300000"}, {"stuck_service_remove_enabled", "bool", "true"}, {"stuck_service_alert_enabled", "bool", "true"},
	{"trace_activeservice_yellow_time", "num", "3000"}, {"trace_activeservice_red_time", "num", "8000"},
	{"profile_step_max_keep_in_memory_count", "int", "2048"}, {"profile_step_max_count", "int", "1024"},
	{"profile_http_querystring_enabled", "bool", "false"}, {"profile_http_header_enabled", "bool", "false"}, {"profile_http_header_keys", "str", ""},
	{"trace_http_client_ip_header_key", "str", ""},
	{"xlog_discard_service_patterns", "str", ""}, {"xlog_discard_service_show_error", "bool", "true"}, {"xlog_sampling_exclude_patterns", "str", ""},
	{"xlog_sampling_enabled", "bool", "false"}, {"xlog_sampling_only_profile", "bool", "false"},
	{"xlog_sampling_step1_ms", "num", "100"}, {"xlog_sampling_step1_rate_pct", "num", "2"}, {"xlog_sampling_step2_ms", "num", "500"}, {"xlog_sampling_step3_rate_pct", "num", "15"}, {"xlog_sampling_over_rate_pct", "num", "3000"},
	{"xlog_patterned_sampling_enabled", "bool", "false"}, {"xlog_patterned_sampling_service_patterns", "str", ""}, {"xlog_patterned2_sampling_step3_ms", "num", "1000"}, {"xlog_patterned3_sampling_service_patterns", "str", ""}, {"xlog_patterned3_sampling_over_rate_pct", "num", "3000"},
	{"trace_obj_send", "bool", "false"},
}

// confReadTimeout: a read timeout changed while a connection is open is the one in force from the
// connection's next command on.
func (w *World) confReadTimeout(path string, v *confVer, so int64) {
	c := w.col
	text := v.text
	if text != "" && !strings.HasSuffix(text, "\n") {
		if strings.HasSuffix(text, "\\") {
			return
		}
		text += "\n"
	}
	w.disk.HReplace(path, []byte(text+fmt.Sprintf("net_collector_tcp_so_timeout_ms=%d\n", so/ms)), 0)
	for i := 0; i < 8; i++ { // the connection open now is kept in use meanwhile
		c.ask("OBJECT_RESET_CACHE", map[string]any{"m": "x"}, 60*sec)
		simrt.Sleep(2 * sec)
	}
	for i := 0; i < 3; i++ {
		cmd := c.ask("OBJECT_RESET_CACHE", map[string]any{"m": "x"}, 60*sec)
		if cmd == nil {
			if !w.dead() {
				w.fail("C10", "no-answer", "no command is answered within 60 s")
			}
			return
		}
		if cmd.P.closed || cmd.P.tc.IsClosed() {
			continue
		}
		pr, t0 := cmd.P, cmd.DoneT
		wait := min(so+2*sec, 26*sec)
		for simrt.Now() < t0+wait && !pr.tc.IsClosed() && !w.dead() {
			simrt.Sleep(50 * ms)
		}
		if w.dead() {
			return
		}
		d := simrt.Now() - t0
		if pr.tc.IsClosed() && d < so-200*ms {
			w.fail("C10", "effect-timeout", "an idle connection is given up after %d ms; net_collector_tcp_so_timeout_ms=%d since 15 s before its last command", d/ms, so/ms)
		}
		if !pr.tc.IsClosed() && wait > so {
			w.fail("C10", "effect-timeout", "an idle connection is kept for %d ms; net_collector_tcp_so_timeout_ms=%d since 15 s before its last command", d/ms, so/ms)
		}
		w.counts["read-timeouts-probed"]++
		return
	}
}

func (g *gen) confVal(k confKey) string {
	switch k.typ {
	case "bool":
		return g.pick("true", "false", "TRUE", "on", "off", "1", "0", "yes", "no", "")
	case "int", "num", "port":
		if g.pct(15) {
			return g.pick("abc", "12x", "", "1.5", "9999999999999999999999", "-", "0x10")
		}
		if k.typ == "int" && g.pct(15) {
			return g.pick("0", "-1", "-60000", "-2147483648")
		}
		switch k.key {
		case "net_collector_udp_port": // a port that cannot be used has no effects to check
			return fmt.Sprint(6100 + g.r.N(4))
		case "udp_max_bytes":
			return fmt.Sprint(500 + g.r.N(60000))
		case "stuck_service_base_time_ms":
			return fmt.Sprint(60000 + g.r.N(600000))
		}
		return fmt.Sprint(1 + g.r.N(5000))
	}
	switch k.key {
	case "obj_name":
		return g.pick("go1", "orders", "shop-1", "주문서비스", "a b", "x=y", "a:b", "")
	case "obj_type":
		return g.pick("golang", "go_web", "x", "")
	case "trace_http_client_ip_header_key":
		return g.pick("X-Forwarded-For", "X-Real-Ip", "")
	case "profile_http_header_keys":
		return g.pick("X-A", "X-A,X-B", "")
	}
	if strings.Contains(k.key, "patterns") {
		return g.pick("/discard/*", "/discard/*,*.css", "/none", "*", "")
	}
	return g.text("v")
}

// confFile renders settings as a properties file in one of the ways people write them, and
// returns what it sets.
func (g *gen) confFile(n int) (string, []string) {
	var b strings.Builder
	var want []string
	nl := "\n"
	if g.pct(10) {
		nl = "\r\n"
	}
	for i := 0; i < n; i++ {
		if g.pct(10) {
			b.WriteString(g.pick("# comment", "! also = a comment", "", "   ", "#obj_name=not", "unknown.key=1", "unknown_key = x", "lonely") + nl)
		}
		k := confKeys[g.r.N(len(confKeys))]
		v := g.confVal(k)
		esc := v
		if g.pct(20) {
			esc = ""
			for _, r := range v {
				if r > 127 || r == '*' {
					esc += fmt.Sprintf("\\u%04x", r)
				} else {
					esc += string(r)
				}
			}
		}
		if nl == "\n" && len(esc) > 4 && g.pct(10) && !strings.Contains(esc, "\\") && !strings.Contains(esc, " ") && esc[0] < 128 {
			esc = esc[:1] + "\\" + nl + "   " + esc[1:]
		}
		sep := g.pick("=", "=", "=", " = ", ":", " : ", "= ")
		if v != "" && g.pct(8) && v[0] != '=' && v[0] != ':' {
			sep = g.pick(" ", "\t")
		}
		b.WriteString(g.pick("", "", "", "  ", "\t") + k.key + sep + esc)
		if i < n-1 || g.pct(70) {
			b.WriteString(nl)
		}
		want = append(want, k.key+"="+v)
	}
	return b.String(), want
}

func genConf(prop string, seed uint64) *Plan {
	g := newGen(seed)
	p := basePlan(prop, "conf", seed, g)
	if g.pct(20) {
		p.P["few"] = int64(1 + g.r.N(60))
	}
	p.Conf = nil
	p.Env = append(p.Env, "net_collector_ip=10.0.0.1", "net_collector_tcp_so_timeout_ms=20000")
	if g.pct(60) {
		for n := g.r.N(6); n > 0; n-- {
			k := confKeys[g.r.N(len(confKeys))]
			p.Env = append(p.Env, k.key+"="+g.confVal(k))
		}
	}
	if g.pct(30) {
		p.Env = append(p.Env, g.pick("PS1=${debian_chroot:+($debian_chroot)}\\u@\\h", "A=${B}", "X=${", "LOOP=${LOOP}", "P=${Q}", "OPTS=-Da=b -Dc=d", "URL=http://h/?a=b&c=d", "EMPTY="))
	}
	if g.pct(15) {
		p.Env = append(p.Env, "P=${Q}", "Q=${P}")
	}
	if g.pct(15) {
		p.Env = append(p.Env, "NOEQUALSIGN")
	}
	if g.pct(25) {
		p.P["path"] = int64(1 + g.r.N(2))
	}
	if g.pct(25) {
		p.P["mtime_tick"] = []int64{sec, 2 * sec, 60 * sec}[g.r.N(3)]
	}
	base, last, want := "", "", []string(nil) // a long file of which one value changes, not the length
	ver := func(k string, at int64) {
		o := Op{K: k, At: at}
		switch {
		case k == "remove":
		case g.pct(6) || base != "" && g.pct(50):
			if base == "" {
				base, want = g.confFile(g.r.N(6))
				pad := "#" + strings.Repeat("x", g.r.N(12000)) + "\n"
				base, last = pad+base, g.pick("", "#"+strings.Repeat("y", g.r.N(9000))+"\n", "obj_type=last")
			}
			v := fmt.Sprintf("type%d", g.r.N(4))
			o.S, o.L = "obj_type="+v+"\n"+base, append([]string{"obj_type=" + v}, want...)
			if i := strings.IndexByte(base, '\n') + 1; g.pct(30) {
				o.S = base[:i] + "obj_type=" + v + "\n" + base[i:]
			}
			if !strings.HasSuffix(o.S, "\n") {
				o.S += "\n"
			}
			o.S += last
			if last == "obj_type=last" {
				o.S, o.L = strings.Replace(o.S, "obj_type=", "obj_name=", 1)+"\n", append(append([]string{"obj_name=" + v}, want...), last)
			}
		case g.pct(5):
			o.K, o.S = "bad", "obj_name=broken\nobj_type=\\uZZZZ\n"
		case g.pct(5):
			// one entry that cannot be expanded
			o.K = "bad"
			o.S, _ = g.confFile(1 + g.r.N(6))
			o.S = g.pick("other=${", "other=${other}", "a.b=${c.d}\nc.d=${a.b}") + "\n" + o.S
		case g.pct(10):
			o.S, o.L = g.confFile(g.r.N(4))
			o.S = "obj_type=${HOME}\n" + o.S
			o.L = append([]string{"obj_type=/home/app"}, o.L...)
		case g.pct(5):
			o.S, o.L = g.confFile(1 + g.r.N(6))
			o.S = "#" + strings.Repeat("x", 500+g.r.N(70000)) + "\n" + o.S
		case g.pct(5):
			o.S = ""
		default:
			o.S, o.L = g.confFile(1 + g.r.N(12))
		}
		p.Ev = append(p.Ev, o)
	}
	if g.pct(75) {
		ver("edit", -1)
	}
	at := int64(0)
	for n := g.r.N(7); n > 0; n-- {
		at += []int64{int64(g.r.N(1000)) * ms, int64(g.r.N(5000)) * ms, int64(g.r.N(12000)) * ms, 20 * sec}[g.r.N(4)]
		switch {
		case g.pct(25):
			p.Ev = append(p.Ev, Op{K: "probe", At: at})
		case g.pct(15):
			p.Ev = append(p.Ev, Op{K: "clock", At: at, N: []int64{-86400, -3600, -7, -1, 1, 3600, 86400 * 400}[g.r.N(7)] * sec})
		default:
			ver(g.pick("edit", "edit", "edit", "inplace", "remove", "older", "samestamp", "touch"), at)
		}
	}
	if g.pct(40) {
		for n := 1 + g.r.N(2); n > 0; n-- {
			f := Fault{K: g.pick("EIO", "EACCES", "EMFILE", "EINTR", "ENOENT", "stall"), Op: g.pick("stat", "open", "read", "open,read", ""), Path: ".conf", From: int64(g.r.N(30000)) * ms}
			f.To = f.From + int64(1+g.r.N(20000))*ms
			if f.K == "stall" {
				f.D = int64(g.r.N(3000)) * ms
			}
			if f.K == "ENOENT" {
				f.Op = g.pick("open", "stat,open")
			}
			p.FS = append(p.FS, f)
		}
	}
	p.Dur = at
	g.suspend(p, 10, at+sec, 600*sec)
	if g.pct(35) {
		p.P["so"] = []int64{1000, 4000, 9000, 40000, 90000}[g.r.N(5)]
	}
	return p
}

type confVer struct {
	at      int64
	present bool
	text    string
	want    map[string]string
	how     string
}

func pairs(l []string) map[string]string {
	m := map[string]string{}
	for _, s := range l {
		if i := strings.IndexByte(s, '='); i > 0 {
			m[s[:i]] = s[i+1:]
		}
	}
	return m
}

// confWant: the documented meaning of a setting.
func confWant(k confKey, file, env map[string]string) string {
	v, ok := file[k.key]
	if !ok {
		v = env[k.key]
	}
	switch k.typ {
	case "bool":
		switch strings.ToLower(v) {
		case "":
			return k.def
		case "1", "true", "yes", "on":
			return "true"
		}
		return "false"
	case "int", "num", "port":
		n, err := strconv.ParseInt(v, 10, 64)
		if err != nil || k.typ == "int" && n <= 0 {
			return k.def
		}
		return fmt.Sprint(n)
	}
	if v == "" {
		return k.def
	}
	return v
}

func runConf(w *World) {
	p := w.p
	c := w.col
	path := w.confAt()
	env := pairs(p.Env)
	vers := []*confVer{{how: "boot"}}
	cur := func() *confVer { return vers[len(vers)-1] }
	n := 0
	put := func(ev Op) {
		n++
		nv := &confVer{at: simrt.Now(), present: true, text: ev.S, want: pairs(ev.L), how: ev.K}
		w.faults["conf-"+ev.K]++
		switch ev.K {
		case "edit":
			w.disk.HReplace(path, []byte(ev.S), 0)
		case "inplace": // as an editor that truncates and writes
			vers = append(vers, &confVer{at: simrt.Now(), present: true, how: "inplace"})
			w.disk.HWrite(path, nil)
			simrt.Sleep(int64(1+len(ev.S)%7) * ms)
			nv.at = simrt.Now()
			w.disk.HWrite(path, []byte(ev.S))
		case "older": // cp -p, a restored backup
			w.disk.HReplace(path, []byte(ev.S), simrt.Wall()-100*86400*sec)
		case "samestamp":
			w.disk.HReplace(path, []byte(ev.S), w.disk.HMtime(path))
		case "touch": // an edit undone: the old text with a new stamp
			if !cur().present {
				return
			}
			nv.text, nv.want, nv.how = cur().text, cur().want, cur().how
			w.disk.HReplace(path, []byte(nv.text), 0)
		case "remove":
			w.disk.HRemove(path)
			nv.present, nv.text, nv.want = false, "", nil
		case "bad": // not a properties file: it changes nothing
			w.disk.HReplace(path, []byte(ev.S), 0)
			nv.want = cur().want
			if len(vers) == 1 {
				nv.want = nil
			}
		}
		vers = append(vers, nv)
	}
	evs := append([]Op{}, p.Ev...)
	sort.SliceStable(evs, func(i, j int) bool { return evs[i].At < evs[j].At })
	for len(evs) > 0 && evs[0].At < 0 {
		put(evs[0])
		evs = evs[1:]
	}
	n = 0
	if !w.bootAgent(60 * sec) {
		w.fail("C10", "boot", "the process did not finish initialisation within 60 s")
		return
	}
	fsf := len(p.FS) > 0
	list := func(final bool) {
		t0 := simrt.Now()
		cmd := c.ask("LIST_CONFIGURE_WAS", nil, 100*sec)
		if cmd == nil || w.dead() {
			if !w.dead() {
				w.fail("C10", "no-answer", "LIST_CONFIGURE_WAS is not answered within 100 s")
			}
			return
		}
		from := t0 - 15*sec - simrt.S.PausedTotal
		flux := false
		var ok []*confVer
		end := func(j int) int64 {
			if j+1 < len(vers) {
				return vers[j+1].at
			}
			return simrt.Now()
		}
		// a version is out once another one was in place for a whole reload period, or, while
		// every version in place lately can be read, once another one has replaced it in time
		bad := false
		for j, v := range vers {
			bad = bad || v.how == "bad" && end(j) >= from
		}
		for i, v := range vers {
			out := false
			for j := i + 1; j < len(vers); j++ {
				out = out || !fsf && vers[j].how != "bad" && end(j)-vers[j].at >= 15*sec+simrt.S.PausedTotal
			}
			if final && !bad {
				out = i+1 < len(vers)
			} else if !fsf && !bad && i+1 < len(vers) && vers[i+1].at < from {
				out = true
			}
			if !out {
				ok = append(ok, v)
			}
			if v.how == "inplace" && v.at >= from {
				flux = true
			}
		}
		if flux && !final {
			return
		}
		w.counts["configuration-listings"]++
		m := cmd.m()
		ks, _ := m["key"].([]any)
		vs, _ := m["value"].([]any)
		got := map[string]string{}
		for i := range ks {
			if i < len(vs) {
				got[fmt.Sprint(ks[i])] = fmt.Sprint(vs[i])
			}
		}
		for _, k := range confKeys {
			match := false
			var may []string
			for _, v := range ok {
				x := confWant(k, v.want, env)
				match = match || got[k.key] == x
				may = append(may, x)
			}
			if !match {
				kind := "third-value"
				if final {
					kind = "not-converged"
				}
				w.fail("C10", kind, "%s is %q; %q expected (version %d of the file: %s at %d ms; t=%d ms)", k.key, got[k.key], may, len(vers)-1, cur().how, cur().at/ms, simrt.Now()/ms)
				return
			}
		}
	}
	start := simrt.Now()
	for _, ev := range evs {
		if d := start + ev.At - simrt.Now(); d > 0 {
			simrt.Sleep(d)
		}
		switch ev.K {
		case "probe":
			list(false)
		case "suspend":
			simrt.Suspend(ev.N)
			w.faults["suspended"]++
		case "clock":
			simrt.JumpWall(ev.N)
			w.faults["clock-jump"]++
		default:
			put(ev)
		}
		if w.dead() {
			return
		}
	}
	// every fault ends
	for _, f := range p.FS {
		if d := f.To - simrt.Now(); d > 0 {
			simrt.Sleep(d)
		}
	}
	w.calmDown()
	simrt.Sleep(15*sec + simrt.S.PausedTotal)
	if w.dead() {
		return
	}
	list(true)
	if len(w.viol) == 0 && cur().how != "bad" && !w.dead() {
		w.confEffects(path, cur(), env)
		if so := p.p("so"); so > 0 && len(w.viol) == 0 && cur().present && !w.dead() {
			w.confReadTimeout(path, cur(), so*ms)
		}
	}
	w.nontriv = n > 0
	fmt.Fprintf(&w.sample, "%d versions, %d while running, %d read faults, %d environment entries, sched %s", len(vers)-1, n, len(p.FS), len(p.Env), p.Sched.Mode)
	w.state(fmt.Sprint(len(vers), n, len(p.FS), len(p.Env), cur().how))
}

// confEffects: the settings in force show in what the agent does.
func (w *World) confEffects(path string, v *confVer, env map[string]string) {
	val := func(key string) string {
		for _, k := range confKeys {
			if k.key == key {
				return confWant(k, v.want, env)
			}
		}
		panic(key)
	}
	if g := w.col.ask("GET_CONFIGURE_WAS", nil, 60*sec); g == nil || g.m() == nil || g.m()["agentConfig"] != v.text {
		if g != nil {
			w.fail("C10", "text-shown", "GET_CONFIGURE_WAS shows %.200q, the file (%s) holds %.200q", g.m()["agentConfig"], path, v.text)
		} else {
			w.fail("C10", "no-answer", "GET_CONFIGURE_WAS is not answered within 60 s")
		}
		return
	}
	t0 := simrt.Now()
	nd := len(w.col.dg)
	a := newApp(w)
	ts := a.spawnTasks([][]Op{{
		{K: "http", S: "/plain/x?q=1", U: "GET", N: 200, L: []string{"@10.9.8.7:1", "X-Forwarded-For:1.1.1.1", "X-Real-Ip:2.2.2.2"}, Sub: []Op{{K: "msg", S: "m"}, {K: "errf", S: "never sampled"}}},
		{K: "svc", S: "/discard/it", U: "1.2.3.4"},
		{K: "svc", S: "/keep/it", U: "1.2.3.4"}}})
	a.waitAll(ts, 30*sec)
	simrt.Sleep(5 * sec)
	if len(a.svcs) != 3 {
		w.fail("C10", "effect-tracing", "%d of 3 services could be started with this configuration", len(a.svcs))
		return
	}
	wi := collect(parseDgrams(w.col.dg[nd:], func(i int, m string) {
		w.fail("C10", "effect-datagram", "with this configuration the agent sends a datagram that cannot be decoded: %s", m)
	}))
	one := func(i int) *xlogRec {
		if l := wi.xlogs[a.svcs[i].txid]; len(l) == 1 {
			return l[0]
		}
		return nil
	}
	mayDrop := val("xlog_discard_service_show_error") != "true" && (val("xlog_sampling_enabled") != "false" || val("xlog_patterned_sampling_enabled") != "false" || strings.Contains(val("xlog_discard_service_patterns"), "*"))
	if x := one(0); x == nil && mayDrop {
		w.counts["errors-not-kept"]++
	} else if x == nil {
		w.fail("C10", "effect-record", "a service with an error leaves no record (udp_max_bytes %s, send_queue_size %s)", val("udp_max_bytes"), val("send_queue_size"))
		return
	} else {
		want := []byte{10, 9, 8, 7}
		switch val("trace_http_client_ip_header_key") {
		case "X-Forwarded-For":
			want = []byte{1, 1, 1, 1}
		case "X-Real-Ip":
			want = []byte{2, 2, 2, 2}
		}
		if string(x.IP) != string(want) {
			w.fail("C10", "effect-ip", "the client address recorded is %v, %v expected with trace_http_client_ip_header_key=%q", x.IP, want, val("trace_http_client_ip_header_key"))
		}
		q := false
		for _, pk := range wi.profs[a.svcs[0].txid] {
			for _, s := range pk.V.(*profRec).Steps {
				q = q || strings.Contains(s.Msg, "q=1")
			}
		}
		if q != (val("profile_http_querystring_enabled") == "true") {
			w.fail("C10", "effect-query", "the query string is in the profile: %v, profile_http_querystring_enabled=%s", q, val("profile_http_querystring_enabled"))
		}
	}
	if val("xlog_sampling_enabled") == "false" && val("xlog_patterned_sampling_enabled") == "false" {
		pat := val("xlog_discard_service_patterns")
		for i, name := range []string{"", "/discard/it", "/keep/it"} {
			if i == 0 {
				continue
			}
			drop := false
			for _, x := range strings.Split(pat, ",") {
				drop = drop || x == "*" || x == "/discard/*" && i == 1
			}
			if (one(i) == nil) != drop {
				w.fail("C10", "effect-discard", "the record of service %s was sent: %v, with xlog_discard_service_patterns=%q", name, one(i) != nil, pat)
			}
		}
	}
	// the heartbeat
	var hb *objRec
	for _, pk := range wi.packs {
		if o, ok := pk.V.(*objRec); ok && pk.T >= t0 {
			hb = o
		}
	}
	if hb == nil {
		w.fail("C10", "effect-heartbeat", "no heartbeat within 5 s")
		return
	}
	if want := "/simhost/" + val("obj_name"); hb.Name != want || hb.Type != val("obj_type") || hb.Hash != textHashOf(want) {
		w.fail("C10", "effect-heartbeat", "the heartbeat announces %q of type %q (%d); %q of type %q is configured", hb.Name, hb.Type, hb.Hash, want, val("obj_type"))
	}
	for _, d := range w.col.dg[nd:] {
		if d.T > t0 && !strings.HasSuffix(d.Remote, ":"+val("net_collector_udp_port")) {
			w.fail("C10", "effect-port", "a datagram goes to %s; net_collector_udp_port=%s", d.Remote, val("net_collector_udp_port"))
			break
		}
	}
}
