package main

import (
	"bytes"
	"context"
	"fmt"
	"net"
	"slices"
	"sort"
	"strings"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/netio"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace/tctxmanager"

	simnet "verifsim/shadow/net"
	"verifsim/simrt"
)

// Scenario "tcp": the collector talks to the agent over TCP: commands of every kind, pipelined,
// cut into segments, malformed, with slow or stalled reading and connection loss.
func init() {
	scenarios["tcp"] = &Scenario{gen: genTCP, run: runTCP}
	scenarios["link"] = &Scenario{gen: genLink, run: runLink}
	defCheck("C08", "a case is a sequence of commands (all kinds, with and without proper parameters), their segmentation, malformed frames, connection losses and a scheduler, from one seed; non-trivial when at least three answers were checked", Part{"tcp", 20000})
	defCheck("C09", "a case is a timeline of collector, network and name service outages and of address, port and object name changes, from one seed; non-trivial when at least one outage or change took effect", Part{"link", 30000})
}

var tcpCmds = []string{"KEEP_ALIVE", "KEEP_ALIVE", "OBJECT_RESET_CACHE", "OBJECT_RESET_CACHE", "GET_CONFIGURE_WAS", "LIST_CONFIGURE_WAS", "CONFIGURE_VALUE_TYPE", "CONFIGURE_DESC",
	"OBJECT_ACTIVE_SERVICE_LIST", "OBJECT_ACTIVE_SERVICE_LIST", "OBJECT_THREAD_DETAIL", "TRIGGER_THREAD_DUMP", "OBJECT_DUMP_FILE_LIST", "OBJECT_LIST_HEAP_DUMP",
	"OBJECT_DUMP_FILE_DETAIL", "OBJECT_DOWNLOAD_HEAP_DUMP", "OBJECT_DELETE_HEAP_DUMP", "TRIGGER_BLOCK_PROFILE", "TRIGGER_MUTEX_PROFILE",
	"OBJECT_CALL_CPU_PROFILE", "OBJECT_CALL_BLOCK_PROFILE", "OBJECT_CALL_MUTEX_PROFILE", "SET_CONFIGURE_WAS", "NO_SUCH_COMMAND", "", "keep_alive", "get_configure_was"}

func genTCP(prop string, seed uint64) *Plan {
	g := newGen(seed)
	p := basePlan(prop, "tcp", seed, g)
	so := []int64{3000, 8000, 60000}[g.r.N(3)]
	p.Conf["net_collector_tcp_so_timeout_ms"] = fmt.Sprint(so)
	p.P["so"] = so
	if g.pct(30) {
		p.Conf["obj_name"] = g.pick("orders", "shop 1", "주문")
	}
	if g.pct(20) {
		p.Conf["_trace"] = "true"
	}
	p.P["hold"] = int64(g.r.N(5))
	p.P["churn"] = int64(g.r.N(3))
	at := 2 * sec
	for n := 3 + g.r.N(14); n > 0; n-- {
		switch {
		case g.pct(12):
			p.Ev = append(p.Ev, Op{K: "bad", At: at, S: g.pick("garbage", "garbage", "cutname", "cutpack", "badtype", "neglen", "zerolen", "hugelen", "neglist", "badvalue"), N: int64(g.r.U64() >> 8), M: int64(g.r.N(3))})
		case g.pct(6):
			p.Ev = append(p.Ev, Op{K: "drop", At: at, S: g.pick("reset", "eof", "reset-later")})
		case g.pct(5):
			p.Ev = append(p.Ev, Op{K: "stall", At: at, N: int64(g.r.N(6000)) * ms, M: int64(g.r.N(3000))})
		default:
			o := Op{K: "cmd", At: at, S: tcpCmds[g.r.N(len(tcpCmds))], N: int64(g.r.N(4)), M: int64(g.r.N(5))}
			if g.pct(40) {
				o.U = "cut"
			}
			if g.pct(10) {
				o.U = "bytes"
			}
			if g.pct(4) { // a long one
				o.L = []string{strings.Repeat("x", []int{250, 4000, 32768, 65530, 65536, 70000, 300000}[g.r.N(7)]+g.r.N(5))}
			}
			p.Ev = append(p.Ev, o)
		}
		if g.pct(70) {
			at += []int64{0, 0, ms, 20 * ms, 300 * ms, 2 * sec}[g.r.N(6)]
		}
	}
	if g.pct(2) { // many commands on one connection
		for n := 60 + g.r.N(300); n > 0; n-- {
			p.Ev = append(p.Ev, Op{K: "cmd", At: at, S: g.pick("KEEP_ALIVE", "OBJECT_RESET_CACHE", "NO_SUCH_COMMAND"), N: 1, M: 1})
			at += []int64{0, 0, ms}[g.r.N(3)]
		}
	}
	p.Dur = at
	return p
}

// packParam is a command parameter: a map pack or a text pack.
func packParam(o *wr, param any) {
	switch t := param.(type) {
	case map[string]any:
		o.u8(10)
		o.mapBody(t)
	case *textRec:
		o.u8(50)
		o.str(t.Type)
		o.i32(t.Hash)
		o.str(t.Text)
	}
}

func framed(body []byte) []byte {
	f := &wr{}
	f.i32(int32(len(body)))
	return append(f.b, body...)
}

// issue sends a command with any parameter pack.
func (p *peer) issue(name string, param any, cuts []int, gap int64) *Cmd {
	o := &wr{}
	o.str(name)
	packParam(o, param)
	cmd := &Cmd{Name: name, P: p, Stream: name == "OBJECT_DUMP_FILE_DETAIL" || name == "OBJECT_DOWNLOAD_HEAP_DUMP"}
	cmd.Param = param
	p.c.cmds = append(p.c.cmds, cmd)
	p.q = append(p.q, cmd)
	p.raw(framed(o.b), cuts, gap)
	cmd.T = p.txAt
	return cmd
}

var confKeysMust = []string{"net_collector_ip", "net_collector_tcp_port", "net_collector_udp_port", "obj_name", "udp_max_bytes", "net_collector_tcp_so_timeout_ms"}

func runTCP(w *World) {
	p := w.p
	c := w.col
	so := 60 * sec // from the configuration: the minimiser may drop a key
	if v, ok := p.Conf["net_collector_tcp_so_timeout_ms"]; ok {
		so = atoi64(v) * ms
	}
	// connection hygiene: the answers of a connection come in order; a lost one is replaced
	if !w.bootAgent(30 * sec) {
		w.fail("C08", "boot", "the process did not finish initialisation")
		return
	}
	objName := "/simhost/" + p.Conf["obj_name"]
	if p.Conf["obj_name"] == "" {
		objName = "/simhost/go1"
	}
	wantHash := textHashOf(objName)
	// services that stay active throughout, and some that come and go
	type held struct {
		name string
		txid int64
	}
	var holds []*held
	stop := false
	for i := int64(0); i < p.p("hold"); i++ {
		h := &held{name: fmt.Sprintf("/held/%d", i)}
		w.task(h.name, func() {
			var ctx context.Context
			w.api("StartService", func() { ctx = strace.StartService(context.Background(), h.name, "10.1.1.1") })
			if tc := tctxOf(ctx); tc != nil {
				h.txid = tc.Txid
			}
			holds = append(holds, h)
			for !stop {
				simrt.Sleep(50 * ms)
			}
			w.api("EndService", func() { strace.EndService(ctx) })
		})
	}
	for i := int64(0); i < p.p("churn"); i++ {
		w.task("churn", func() {
			for k := 0; !stop; k++ {
				var ctx context.Context
				w.api("StartService", func() { ctx = strace.StartService(context.Background(), fmt.Sprintf("/churn/%d", i), "10.1.1.2") })
				simrt.Sleep(int64(3+k%90) * ms)
				w.api("EndService", func() { strace.EndService(ctx) })
				simrt.Sleep(int64(1+k%40) * ms)
			}
		})
	}
	simrt.Sleep(sec)
	nCmd, nBad, nDrop := 0, 0, 0
	curConf := confText(p.Conf)
	confs := []confAt{{0, curConf}}
	steady := append([]*held{}, holds...)
	rng := simrt.NewRng(simrt.Mix(p.Seed, 4711))
	var all []*Cmd
	evs := append([]Op{}, p.Ev...)
	sort.SliceStable(evs, func(i, j int) bool { return evs[i].At < evs[j].At })
	start := simrt.Now()
	for i := range evs {
		ev := evs[i]
		if d := start + ev.At - simrt.Now(); d > 0 {
			simrt.Sleep(d)
		}
		pr := c.cur()
		if pr == nil {
			lim := simrt.Now() + 30*sec + so
			for simrt.Now() < lim+simrt.S.PausedTotal && pr == nil && !w.dead() {
				simrt.Sleep(sec)
				pr = c.cur()
			}
			if pr == nil {
				w.fail("C08", "no-reconnect", "no connection %d s after the last one was lost", 30+so/sec)
				return
			}
		}
		if pr.hash != wantHash {
			w.fail("C08", "hello-hash", "the hello carries object hash %d, the object is %s (%d)", pr.hash, objName, wantHash)
		}
		switch ev.K {
		case "cmd":
			var param any
			switch ev.S {
			case "OBJECT_RESET_CACHE":
				param = map[string]any{"mark": int64(i), "x": []any{"a", int64(rng.N(1 << 30)), rng.N(2) == 0}}
			case "OBJECT_THREAD_DETAIL":
				m := map[string]any{"txid": int64(12345)}
				if len(steady) > 0 && ev.N > 0 {
					m["txid"] = steady[rng.N(len(steady))].txid
				}
				if ev.N == 3 {
					m = map[string]any{}
				}
				param = m
			case "OBJECT_DUMP_FILE_DETAIL":
				param = map[string]any{"name": []string{"nothere.log", "", "x"}[ev.N%3]}
			case "OBJECT_DOWNLOAD_HEAP_DUMP":
				param = map[string]any{"fileName": []string{"nothere.pprof", "", "x"}[ev.N%3]}
			case "OBJECT_DELETE_HEAP_DUMP":
				param = map[string]any{"delfileName": []string{"nothere.pprof", "x", "y"}[ev.N%3]}
			case "SET_CONFIGURE_WAS":
				m := map[string]string{}
				for k, v := range p.Conf {
					m[k] = v
				}
				m["mark"] = fmt.Sprint(i)
				param = map[string]any{"setConfig": confText(m)}
			default:
				param = map[string]any{}
			}
			if ev.M == 0 && ev.N%2 == 0 {
				param = &textRec{"t", int32(i), "not a map"}
			}
			if m, ok := param.(map[string]any); ok && len(ev.L) > 0 {
				m["pad"] = ev.L[0]
			}
			var cuts []int
			gap := int64(0)
			switch ev.U {
			case "cut":
				for k := rng.N(4); k >= 0; k-- {
					cuts = append(cuts, 1+rng.N(60))
				}
				gap = []int64{0, ms, 50 * ms, 700 * ms}[rng.N(4)]
			case "bytes":
				for k := 1; k < 400; k++ {
					cuts = append(cuts, k)
				}
				gap = []int64{0, ms, 3 * ms}[rng.N(3)]
			}
			cmd := pr.issue(ev.S, param, cuts, gap)
			cmd.Idx = i
			all = append(all, cmd)
			nCmd++
			if ev.S == "SET_CONFIGURE_WAS" {
				if m, ok := param.(map[string]any); ok {
					confs = append(confs, confAt{simrt.Now(), m["setConfig"].(string)})
				}
			}
		case "bad":
			nBad++
			// once the answers before it have been read (a peer that does not read holds them up)
			for e := simrt.Now() + 30*sec; simrt.Now() < e+simrt.S.PausedTotal && !pr.closed && (pr.tc.Stalled || len(pr.q) > 0); {
				simrt.Sleep(100 * ms)
			}
			w.faults["malformed-"+ev.S]++
			o := &wr{}
			body := true
			r2 := simrt.NewRng(uint64(ev.N))
			switch ev.S {
			case "garbage":
				for k := 1 + r2.N(60); k > 0; k-- {
					o.u8(byte(r2.N(256)))
				}
			case "cutname":
				o.u8(200)
				o.b = append(o.b, "OBJECT_RESET_CACHE"...)
			case "cutpack":
				x := &wr{}
				x.str("OBJECT_RESET_CACHE")
				packParam(x, map[string]any{"mark": "cut", "b": int64(70000)})
				o.b = x.b[:len(x.b)-1-r2.N(15)]
			case "badtype":
				o.str("OBJECT_RESET_CACHE")
				o.u8([]byte{0, 1, 99, 255, 21}[r2.N(5)])
				o.mapBody(map[string]any{"a": int64(1)})
			case "badvalue":
				o.str("OBJECT_RESET_CACHE")
				o.u8(10)
				o.dec(1)
				o.str("k")
				o.u8(77)
				o.dec(3)
			case "neglist":
				o.str("OBJECT_RESET_CACHE")
				o.u8(10)
				o.dec(1 << 40)
				o.str("k")
			case "neglen":
				o.i32(-1 - int32(r2.N(1<<30)))
				body = false
			case "zerolen":
				o.i32(0)
				body = false
			case "hugelen":
				o.i32(int32(1<<30 + r2.N(1<<29)))
				o.b = append(o.b, make([]byte, r2.N(200))...)
				body = false
			}
			b := o.b
			if body {
				b = framed(o.b)
			}
			cmd := &Cmd{Name: "malformed:" + ev.S, P: pr, Opt: true, Idx: i}
			pr.q = append(pr.q, cmd)
			pr.raw(b, nil, 0)
			// what follows on this connection answers with something recognisable, or is lost with it
			mk := pr.issue("OBJECT_RESET_CACHE", map[string]any{"mark": int64(i), "after": "malformed"}, nil, 0)
			mk.Opt2 = true
			all = append(all, mk)
			pr.tainted = true
			t0 := max(simrt.Now(), pr.txAt)
			for simrt.Now() < t0+3*sec+simrt.S.PausedTotal && !pr.closed && !mk.Done {
				simrt.Sleep(100 * ms)
			}
			if !pr.closed && !mk.Done && ev.S != "hugelen" {
				w.fail("C08", "stuck-after-malformed", "after a malformed frame (%s) the connection is neither closed nor answers within 3 s", ev.S)
			}
			if !pr.closed && ev.S == "hugelen" { // the rest of the frame never comes
				pr.drop("reset")
			}
		case "drop":
			nDrop++
			if ev.S == "reset-later" {
				simrt.After(int64(rng.N(5))*ms, func() {
					if !pr.closed {
						pr.drop("reset")
					}
				})
			} else {
				pr.drop(ev.S)
			}
			simrt.Sleep(10 * ms)
		case "stall":
			w.faults["tcp-slow-reader"]++
			pr.tc.Stalled, pr.tc.Window = true, int(ev.M)
			pr.stalled = true
			simrt.After(ev.N, func() { pr.tc.Unstall() })
		}
	}
	w.calmDown()
	// every command delivered on a connection that lives gets its answer
	lim := simrt.Now() + 20*sec
	for simrt.Now() < lim {
		open := false
		for _, cmd := range all {
			if !cmd.Done && !cmd.P.closed && !cmd.P.tc.IsClosed() {
				open = true
			}
		}
		if !open {
			break
		}
		simrt.Sleep(50 * ms)
	}
	n := 0
	for _, cmd := range all {
		if !cmd.Done {
			if !cmd.P.closed && !cmd.P.tc.IsClosed() && !cmd.P.tainted {
				w.fail("C08", "unanswered", "command %q (number %d) got no answer within 20 s on a connection that is up (read so far: %x)", cmd.Name, cmd.Idx, head(cmd.P.buf, 40))
			} else if q := cmd.P; q.tc.IsClosed() && !q.dropped && !q.tainted && !q.stalled && !w.dead() {
				base := q.T // the read deadline is counted from the last answer
				for _, o := range all {
					if o.P == q && o.Done {
						base = max(base, o.DoneT)
					}
				}
				if q.tc.ClosedAt < base+so-200*ms {
					w.fail("C08", "closed-by-agent", "the agent closed a healthy connection instead of answering %q (number %d)", cmd.Name, cmd.Idx)
				}
			}
			continue
		}
		n++
		if cmd.Bad != "" {
			w.fail("C08", "malformed-answer", "the answer to %q is not well formed: %s", cmd.Name, cmd.Bad)
			continue
		}
		var names []string
		var ids []int64
		for _, h := range steady {
			names, ids = append(names, h.name), append(ids, h.txid)
		}
		w.judgeAnswer(cmd, confs, names, ids)
	}
	// the agent still answers
	if x := c.ask("OBJECT_RESET_CACHE", map[string]any{"last": "one"}, 40*sec+so); x == nil {
		w.fail("C08", "no-answer-at-end", "no command is answered within %d s after the last trouble", 40+so/sec)
	} else if m := x.m(); m == nil || m["last"] != "one" {
		w.fail("C08", "answer-content", "OBJECT_RESET_CACHE is answered with %v", x.Packs)
	}
	stop = true
	w.nontriv = n >= 3
	w.counts["commands"] += int64(nCmd)
	w.counts["answers"] += int64(n)
	fmt.Fprintf(&w.sample, "%d commands, %d malformed frames, %d losses, %d answers checked over %d connections, sched %s", nCmd, nBad, nDrop, n, len(c.peers), p.Sched.Mode)
	w.state(fmt.Sprint(nCmd, nBad, nDrop, n, len(c.peers)))
}

type confAt struct {
	T    int64
	Text string
}

func (w *World) judgeAnswer(cmd *Cmd, confs []confAt, held []string, ids []int64) {
	bad := func(f string, a ...any) {
		w.fail("C08", "answer-content", "%s (number %d) is answered with %s: %s", cmd.Name, cmd.Idx, trunc(fmt.Sprintf("%d packs %v, %d chunks", len(cmd.Packs), cmd.Packs, len(cmd.Chunks)), 300), fmt.Sprintf(f, a...))
	}
	isMap := false
	pm, isMap := cmd.Param.(map[string]any)
	if _, txt := cmd.Param.(*textRec); !txt && cmd.Param == nil {
		isMap = true
	}
	one := func() map[string]any {
		if len(cmd.Packs) != 1 || cmd.m() == nil {
			bad("one map was expected")
			return nil
		}
		return cmd.m()
	}
	switch cmd.Name {
	case "KEEP_ALIVE", "NO_SUCH_COMMAND", "", "keep_alive", "get_configure_was", "TRIGGER_BLOCK_PROFILE", "TRIGGER_MUTEX_PROFILE":
		if len(cmd.Packs) != 0 || !bytes.Equal(cmd.Raw, []byte{4}) {
			bad("an empty answer was expected")
		}
	case "OBJECT_RESET_CACHE":
		if t, ok := cmd.Param.(*textRec); ok {
			if len(cmd.Packs) != 1 {
				bad("the parameter was to be returned")
			} else if g, ok := cmd.Packs[0].(*textRec); !ok || *g != *t {
				bad("the parameter was %+v", *t)
			}
			return
		}
		if m := one(); m != nil && canon(m) != canon(pm) {
			if pad, ok := pm["pad"].(string); ok && len(pad) > 100000 && m["pad"] == "huge string omitted..." {
				m["pad"] = pad // texts beyond 100000 bytes are replaced by this one
				if canon(m) == canon(pm) {
					return
				}
			}
			bad("the parameter was %s", trunc(canon(pm), 300))
		}
	case "GET_CONFIGURE_WAS":
		m := one()
		if m == nil {
			return
		}
		ok := false
		for i, cf := range confs {
			// the text in force at some time between the command's arrival and its answer
			until := int64(1) << 62
			if i+1 < len(confs) {
				until = confs[i+1].T + 60*sec
			}
			if cf.T <= cmd.DoneT && until >= cmd.T && m["agentConfig"] == cf.Text {
				ok = true
			}
		}
		if !ok {
			bad("the configuration file holds %q", confs[len(confs)-1].Text)
		}
		if l, _ := m["configKey"].([]any); len(l) < 20 {
			bad("it lists %d keys", len(l))
		}
	case "LIST_CONFIGURE_WAS":
		m := one()
		if m == nil {
			return
		}
		k, _ := m["key"].([]any)
		v, _ := m["value"].([]any)
		d, _ := m["default"].([]any)
		if len(k) < 20 || len(k) != len(v) || len(k) != len(d) {
			bad("%d keys, %d values, %d defaults", len(k), len(v), len(d))
			return
		}
		for i := range k {
			key, _ := k[i].(string)
			if want, ok := w.p.Conf[key]; ok && fmt.Sprint(v[i]) != want {
				bad("%s is %v, the configuration file says %s", key, v[i], want)
			}
		}
		for _, must := range confKeysMust {
			if !containsAny(k, must) {
				bad("%s is not listed", must)
			}
		}
	case "CONFIGURE_VALUE_TYPE", "CONFIGURE_DESC":
		m := one()
		if m == nil {
			return
		}
		for _, must := range confKeysMust {
			if _, ok := m[must]; !ok {
				bad("%s is not described", must)
			}
		}
	case "OBJECT_ACTIVE_SERVICE_LIST":
		m := one()
		if m == nil {
			return
		}
		sv, _ := m["service"].([]any)
		for _, k := range []string{"id", "elapsed", "name", "txid", "ip", "stat", "cpu", "sql", "subcall"} {
			if l, _ := m[k].([]any); len(l) != len(sv) {
				bad("the columns differ in length (%s)", k)
			}
		}
		for _, h := range held {
			if n := countAny(sv, h); n != 1 {
				bad("service %s, active throughout, is listed %d times", h, n)
			}
		}
		for _, s := range sv {
			if x := fmt.Sprint(s); !strings.HasPrefix(x, "/held/") && !strings.HasPrefix(x, "/churn/") {
				bad("%q is no service of this application", x)
			}
		}
	case "OBJECT_THREAD_DETAIL":
		m := one()
		if m == nil || !isMap {
			return
		}
		if id, ok := pm["txid"].(int64); ok {
			for i, h := range ids {
				if h == id && m["Service Name"] != held[i] {
					bad("transaction %x is service %s, active throughout", uint64(id), held[i])
				}
			}
		}
	case "TRIGGER_THREAD_DUMP":
		if m := one(); m != nil {
			if n, _ := m["name"].(string); n == "" {
				bad("no dump file is named")
			}
		}
	case "OBJECT_DUMP_FILE_LIST", "OBJECT_LIST_HEAP_DUMP":
		if m := one(); m != nil {
			a, _ := m["name"].([]any)
			b, _ := m["size"].([]any)
			if len(a) != len(b) {
				bad("the columns differ in length")
			}
		}
	case "OBJECT_CALL_CPU_PROFILE", "OBJECT_CALL_BLOCK_PROFILE", "OBJECT_CALL_MUTEX_PROFILE":
		if m := one(); m != nil && m["success"] != true {
			bad("success was expected")
		}
	case "SET_CONFIGURE_WAS":
		if m := one(); m != nil {
			if ok := fmt.Sprint(m["result"]) == "true"; ok != isMap {
				bad("the result does not tell what happened")
			}
		}
	case "OBJECT_DUMP_FILE_DETAIL", "OBJECT_DOWNLOAD_HEAP_DUMP":
		if len(cmd.Chunks) != 0 {
			bad("that file does not exist")
		}
	}
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}
func canon(v any) string { return fmt.Sprintf("%v", v) } // maps print sorted
func countAny(l []any, s string) (n int) {
	for _, x := range l {
		if x == s {
			n++
		}
	}
	return
}
func containsAny(l []any, s string) bool { return countAny(l, s) > 0 }

// ------------------------------------------------------------------ link

func genLink(prop string, seed uint64) *Plan {
	g := newGen(seed)
	p := basePlan(prop, "link", seed, g)
	p.P["so"] = []int64{2000, 4000, 8000, 15000}[g.r.N(4)]
	p.P["cto"] = []int64{300, 1000, 3000, 5000}[g.r.N(4)]
	p.Conf["net_collector_tcp_so_timeout_ms"] = fmt.Sprint(p.P["so"])
	p.Conf["net_collector_tcp_connection_timeout_ms"] = fmt.Sprint(p.P["cto"])
	p.Conf["net_collector_ip"] = g.pick("10.0.0.1", "10.0.0.2", "collector.example", "collector.example", "collector.example", "2001:db8::7")
	p.P["ping"] = int64(g.r.N(3)) // 0: idle collector, else a ping every so many seconds
	bad := func(at int64) {
		p.Ev = append(p.Ev, Op{K: g.pick("tcp", "tcp", "tcp", "dns", "udp", "peer", "peer"), At: at, N: int64(g.r.N(100))})
	}
	conf := func(at int64) {
		p.Ev = append(p.Ev, Op{K: "conf", At: at, S: g.pick("net_collector_ip", "net_collector_ip", "net_collector_tcp_port", "net_collector_udp_port", "obj_name"), N: int64(g.r.N(5))})
	}
	if g.pct(50) { // bad from the start
		bad(-1)
		if g.pct(40) {
			bad(-1)
		}
	}
	if g.pct(15) {
		p.P["noconf"] = 1 // the configuration file appears later
	}
	at := int64(0)
	for n := 1 + g.r.N(8); n > 0; n-- {
		at += int64(g.r.N(9000)) * ms
		switch {
		case g.pct(35):
			conf(at)
		case g.pct(8): // the collector's host gets another address
			p.Ev = append(p.Ev, Op{K: "move", At: at, N: int64(g.r.N(6))})
		case g.pct(25):
			p.Ev = append(p.Ev, Op{K: "heal", At: at})
		default:
			bad(at)
		}
		if g.pct(8) {
			at += int64(g.r.N(180)) * sec // a long outage
		}
	}
	g.suspend(p, 15, at+sec, forever)
	p.Dur = at + int64(g.r.N(5000))*ms
	return p
}

func runLink(w *World) {
	p := w.p
	c := w.col
	so := 60 * sec
	if v := p.Conf["net_collector_tcp_so_timeout_ms"]; v != "" {
		so = atoi64(v) * ms
	}
	conf := map[string]string{}
	for k, v := range p.Conf {
		conf[k] = v
	}
	if p.p("noconf") != 0 {
		w.disk.HRemove(confPath)
	}
	c.ips["collector.example"] = "10.0.0.3"
	c.ips["other.example"] = "10.0.0.4"
	c.ips["127.0.0.1"] = "127.0.0.1"
	n := 0
	apply := func(ev Op) {
		n++
		switch ev.K {
		case "tcp":
			c.tcpDef = []string{"refuse", "blackhole", "slow", "reset", "eof"}[ev.N%5]
		case "dns":
			c.dnsBad = []string{"nx", "timeout", "slow"}[ev.N%3]
		case "udp":
			c.udpErr = []string{"refused", "nobufs", "unreach", "drop"}[ev.N%4]
		case "suspend":
			w.faults["suspended"]++
			simrt.Suspend(ev.N)
		case "heal":
			c.tcpDef, c.dnsBad, c.udpErr = "up", "", ""
		case "move":
			h := "collector.example"
			if conf["net_collector_ip"] == "other.example" {
				h = "other.example"
			}
			if c.gone == nil {
				c.gone = map[string]bool{}
			}
			for _, ip := range strings.Split(c.ips[h], ",") {
				c.gone[ip] = true // nobody is at the old address any more
			}
			c.ips[h] = fmt.Sprint("10.0.1.", n)
			if ev.N == 5 {
				c.ips[h] = fmt.Sprint("2001:db8::1:", n)
			}
			if ev.N == 4 {
				c.ips[h] += fmt.Sprint(",10.0.2.", n)
			}
			w.faults["host-moved"]++
			for _, pr := range c.peers {
				pr.deaf = pr.deaf || c.isGone(pr.tc.Addr)
			}
		case "peer":
			for _, pr := range c.peers {
				if pr.closed || pr.tc.IsClosed() {
					continue
				}
				switch ev.N % 4 {
				case 0:
					pr.drop("reset")
				case 1:
					pr.drop("eof")
				case 2:
					pr.deaf = true
					w.faults["tcp-half-open"]++
				case 3:
					pr.tc.Stalled, pr.tc.Window = true, int(ev.N%3)
					if !pr.hello { // no send buffer is too small for the greeting
						pr.tc.Window += 8
					}
					w.faults["tcp-peer-stalled"]++
				}
			}
		case "conf":
			switch ev.S {
			case "net_collector_ip":
				conf[ev.S] = []string{"10.0.0.1", "10.0.0.2", "collector.example", "other.example", "2001:db8::7"}[ev.N%5]
			case "obj_name":
				conf[ev.S] = fmt.Sprint("obj", ev.N)
			default:
				conf[ev.S] = fmt.Sprint(6100 + ev.N)
			}
			w.faults["reconfigure-"+ev.S]++
			w.disk.HReplace(confPath, []byte(confText(conf)), 0)
		}
	}
	evs := append([]Op{}, p.Ev...)
	sort.SliceStable(evs, func(i, j int) bool { return evs[i].At < evs[j].At })
	for len(evs) > 0 && evs[0].At < 0 {
		apply(evs[0])
		evs = evs[1:]
	}
	maxOpen := 0
	c.onPeer = func(pr *peer) { maxOpen = max(maxOpen, simnet.N.TCPOpen) }
	if !w.bootAgent(60 * sec) {
		w.fail("C09", "boot", "the process did not finish initialisation within 60 s")
		return
	}
	over := false
	if p.p("ping") > 0 {
		var ping func()
		ping = func() {
			for _, pr := range c.peers {
				if pr.hello && !pr.closed && !pr.deaf && !pr.tc.IsClosed() && len(pr.q) < 20 {
					pr.send("KEEP_ALIVE", nil, nil, 0)
				}
			}
			if !over {
				simrt.After(p.p("ping")*sec, ping)
			}
		}
		simrt.After(sec, ping)
	}
	start := simrt.Now()
	for _, ev := range evs {
		if d := start + ev.At - simrt.Now(); d > 0 {
			simrt.Sleep(d)
		}
		apply(ev)
	}
	if d := start + p.Dur - simrt.Now(); d > 0 {
		simrt.Sleep(d)
	}
	// everything works from here on, at the configured address
	c.tcpDef, c.dnsBad, c.udpErr = "up", "", ""
	if p.p("noconf") != 0 {
		w.disk.HReplace(confPath, []byte(confText(conf)), 0)
	}
	w.calmDown()
	T := simrt.Now()
	ip := conf["net_collector_ip"]
	if x, ok := c.ips[ip]; ok {
		ip = x
	}
	port := func(k string) string {
		if v := conf[k]; v != "" {
			return v
		}
		return "6100"
	}
	var wantTCP, wantUDP []string
	for _, x := range strings.Split(ip, ",") {
		wantTCP = append(wantTCP, net.JoinHostPort(x, port("net_collector_tcp_port")))
		wantUDP = append(wantUDP, net.JoinHostPort(x, port("net_collector_udp_port")))
	}
	name := "/simhost/go1"
	if v := conf["obj_name"]; v != "" {
		name = "/simhost/" + v
	}
	hash := textHashOf(name)
	if p.p("noconf") != 0 {
		so = max(so, 60*sec) // the default was in force before
	}
	// pauses begun before may still be under way
	bound := 30*sec + so + simrt.S.PausedTotal - simrt.S.PausedDone // an idle or silent connection is noticed by the read timeout at the latest
	good := func() *peer {
		pr := c.cur()
		if pr == nil || pr.deaf || pr.tc.Stalled || !slices.Contains(wantTCP, pr.tc.Addr) || pr.hash != hash {
			return nil
		}
		return pr
	}
	for good() == nil && simrt.Now() < T+bound {
		simrt.Sleep(100 * ms)
	}
	if w.dead() {
		return
	}
	if pr := good(); pr == nil {
		st := "there is none"
		if q := c.cur(); q != nil {
			st = fmt.Sprintf("the one there is goes to %s with object hash %d (half-open %v, stalled %v), opened at %d ms", q.tc.Addr, q.hash, q.deaf, q.tc.Stalled, q.T/ms)
		} else if l := len(c.dials); l > 0 {
			st += fmt.Sprintf("; the last of %d attempts was to %s at %d ms", l, c.dials[l-1].Addr, c.dials[l-1].T/ms)
		}
		w.fail("C09", "tcp-not-following", "%d s after everything works (t=%d ms) there is no TCP connection to %s with object hash %d: %s", bound/sec, T/ms, wantTCP, hash, st)
	} else {
		// one of the connections answers (one without traffic is renewed after the read timeout)
		end := simrt.Now() + 20*sec + so + simrt.S.PausedTotal
		done := false
		for !done && simrt.Now() < end {
			if pr := good(); pr != nil {
				cmd := pr.send("OBJECT_RESET_CACHE", map[string]any{"m": "x"}, nil, 0)
				for !cmd.Done && !pr.closed && !pr.tc.IsClosed() && simrt.Now() < end {
					simrt.Sleep(20 * ms)
				}
				done = cmd.Done
			}
			simrt.Sleep(50 * ms)
		}
		if !done && !w.dead() {
			w.fail("C09", "tcp-dead", "no connection to %s answers a command within %d s", wantTCP, 20+so/sec)
		}
	}
	over = true
	// UDP
	if d := T + 30*sec - simrt.Now(); d > 0 {
		simrt.Sleep(d)
	}
	before := len(c.dlv)
	for i := 0; i < 60 && len(c.dlv) == before; i++ {
		simrt.Sleep(100 * ms)
	}
	at0 := simrt.Now()
	simrt.Sleep(5 * sec)
	fresh := 0
	for _, d := range c.dg {
		if d.T < T+30*sec {
			continue
		}
		if !slices.Contains(wantUDP, d.Remote) {
			w.fail("C09", "udp-old-address", "%d ms after everything works a datagram goes to %s; configured is %s (%s)", (d.T-T)/ms, d.Remote, wantUDP, conf["net_collector_ip"])
			break
		}
		fresh++
	}
	if fresh == 0 {
		w.fail("C09", "udp-dead", "no datagram was sent between %d and %d s after everything works (to be sent to %s)", 30, (at0-T)/sec+5, wantUDP)
	}
	// old connections are gone
	simrt.Sleep(max(0, T+bound+5*sec-simrt.Now()))
	openN := 0
	for _, cn := range c.net.Conns {
		if !cn.IsClosed() {
			openN++
		}
	}
	if openN > 1 || simnet.N.TCPOpen > 1 || maxOpen > 1 {
		w.fail("C09", "many-connections", "the agent holds %d TCP connections (at most %d at one time)", openN, maxOpen)
	}
	// no busy loop
	for i := 0; i+14 < len(c.dials); i++ {
		if c.dials[i+14].T-c.dials[i].T < 10*sec {
			w.fail("C09", "busy-reconnect", "15 connection attempts within %d ms (from t=%d ms)", (c.dials[i+14].T-c.dials[i].T)/ms, c.dials[i].T/ms)
			break
		}
	}
	w.nontriv = n > 0
	w.counts["connections"] += int64(len(c.peers))
	w.counts["connection-attempts"] += int64(len(c.dials))
	fmt.Fprintf(&w.sample, "%d outages and changes, %d connection attempts, %d connections, %d datagrams, sched %s", n, len(c.dials), len(c.peers), len(c.dg), p.Sched.Mode)
	w.state(fmt.Sprint(n, len(c.dials), len(c.peers)))
}

func tctxOf(ctx context.Context) *netio.TraceContext {
	if ctx == nil {
		return nil
	}
	return tctxmanager.GetTraceContext(ctx)
}
