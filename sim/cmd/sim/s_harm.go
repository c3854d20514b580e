package main

import (
	"context"
	"errors"
	"fmt"
	"net/http"
	"net/url"
	"strings"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/netdata"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/netio"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace/tctxmanager"

	simos "verifsim/shadow/os"
	"verifsim/simrt"
)

// Scenario "harm": everything around the agent is hostile (configuration, environment, disk, name
// service, network, collector, clock) and the application calls the tracing API in every way the
// types allow. The host process must live, every call must return promptly, nothing may pile up,
// and when the trouble is over the agent works again.
func init() {
	scenarios["harm"] = &Scenario{gen: genHarm, run: runHarm, maxStep: 200_000_000, maxSpin: 60_000_000}
	defCheck("C06", "a case is a hostile environment (variables, disk layout, configuration text), a timeline of configuration edits, disk, name service, UDP, TCP and clock faults, an application that also misuses the tracing API, and a scheduler, from one seed; non-trivial when at least one fault or misuse happened and the process was watched to the end", Part{"harm", 12000})
}

// every key the agent reads
var allKeys = func() []string {
	ks := []string{"obj_name", "obj_type", "_trace", "trace_obj_send", "send_queue_size", "net_collector_ip", "net_collector_udp_port", "net_collector_tcp_port",
		"net_collector_tcp_so_timeout_ms", "net_collector_tcp_connection_timeout_ms", "udp_max_bytes", "stuck_service_base_time_ms", "stuck_service_remove_enabled", "stuck_service_alert_enabled",
		"trace_activeservice_yellow_time", "trace_activeservice_red_time", "profile_step_max_keep_in_memory_count", "profile_step_max_count", "profile_http_querystring_enabled",
		"profile_http_header_enabled", "profile_http_header_keys", "trace_http_client_ip_header_key", "xlog_discard_service_patterns", "xlog_discard_service_show_error", "xlog_sampling_exclude_patterns"}
	for _, pre := range []string{"xlog_sampling", "xlog_patterned_sampling", "xlog_patterned2_sampling", "xlog_patterned3_sampling"} {
		ks = append(ks, pre+"_enabled", pre+"_only_profile", pre+"_over_rate_pct", pre+"_service_patterns")
		for i := '1'; i <= '3'; i++ {
			ks = append(ks, pre+"_step"+string(i)+"_ms", pre+"_step"+string(i)+"_rate_pct")
		}
	}
	return ks
}()

func (g *gen) hostileVal(k string) string {
	switch {
	case k == "net_collector_ip":
		return g.pick("", "256.1.1.1", "::1", "[::1]", "10.0.0.1:6100", "no.such.host", "collector.example", "collector.example", "10.0.0.1", "10.0.0.9", "0.0.0.0", "255.255.255.255", "a b", "-", "\\u0000", strings.Repeat("h", 300), "10.0.0.1/24", "한글.example", "%", "localhost")
	case strings.HasSuffix(k, "_ip_header_key"), strings.HasSuffix(k, "header_keys"):
		return g.pick("", ",", ",,,", "X-A, ,X-B", "\\u0001", strings.Repeat("X,", 200), "한글", "X-Forwarded-For", " x ")
	case strings.Contains(k, "patterns"):
		return g.pick("", ",", "*", "**", "*,*", ",,,", "/a*b*c*d*e*f*g", strings.Repeat("*a", 40), strings.Repeat("/x/*,", 300), "한*글", "[", "\\\\", " * ", "*"+strings.Repeat("?", 50))
	case k == "obj_name", k == "obj_type":
		return g.pick("", "/", "//", "a/b/c", strings.Repeat("n", 70000), strings.Repeat("이름", 200), "\\u0000", "..", "x\\ny", "${HOME}", "go1")
	}
	if g.pct(20) {
		ref := "${send_queue_size}"
		if strings.HasPrefix(k, "net_") { // as below: no waiting for days
			ref = "${obj_name}"
		}
		return g.pick("", "abc", "1.5", "0x10", "1e9", "true", "-", "+5", "9999999999999999999999", " 7 ", "\\u0000", ref, "1,000", strings.Repeat("9", 400))
	}
	if strings.HasSuffix(k, "_ms") || strings.HasSuffix(k, "_time") {
		if strings.HasPrefix(k, "net_") { // what is waited for is the user's choice, within reason
			return g.pick("0", "-1", "1", "2", "50", "1000", "5000", "20000", "-2147483649")
		}
		return g.pick("0", "-1", "1", "50", "1000", "5000", "60000", "2147483647", "2147483648", "-2147483649", "4294967296", "9223372036854775807", "-9223372036854775808")
	}
	if strings.HasSuffix(k, "_port") {
		return g.pick("0", "-1", "1", "6100", "6101", "65535", "65536", "70000", "2147483648", "-6100")
	}
	if k == "udp_max_bytes" {
		return g.pick("0", "-1", "1", "2", "7", "40", "100", "1400", "60000", "65507", "65508", "70000", "1000000", "2147483647", "2147483648", "9223372036854775807")
	}
	if strings.HasSuffix(k, "_count") || strings.HasSuffix(k, "_size") {
		return g.pick("0", "-1", "1", "2", "3", "10", "100000", "100000000", "2147483647", "2147483648", "1000000000000", "9223372036854775807", "-9223372036854775808")
	}
	if strings.HasSuffix(k, "_pct") {
		return g.pick("0", "-1", "1", "50", "100", "101", "3000", "2147483648", "-9223372036854775808")
	}
	return g.pick("true", "false", "TRUE", "0", "1", "2", "on", "off", "yes", "-1")
}

func (g *gen) hostileConf(n int) string {
	var b strings.Builder
	if g.pct(4) {
		var x []byte
		for i := g.r.N(3000); i > 0; i-- {
			x = append(x, byte(g.r.N(256)))
		}
		return string(x)
	}
	sane := g.pct(70)
	if sane {
		b.WriteString("net_collector_ip=" + g.pick("10.0.0.1", "10.0.0.1", "collector.example") + "\n")
	}
	for i := 0; i < n; i++ {
		switch {
		case g.pct(3):
			b.WriteString(g.pick("\\", "\\u12", "=", ":", "= =", "a=${b}\nb=${a}", "${x}=1", "x=${y", strings.Repeat("k", 5000), "\x00\xff\xfe", "\xef\xbb\xbf", "key\\", "#", "\r\r\r") + "\n")
		default:
			k := allKeys[g.r.N(len(allKeys))]
			if sane && k == "net_collector_ip" {
				continue
			}
			b.WriteString(k + "=" + g.hostileVal(k) + "\n")
		}
	}
	return b.String()
}

const nMisuse = 24

// sprinkle adds misuse of the API among the operations.
func (g *gen) sprinkle(ops []Op, pct int) []Op {
	var out []Op
	for _, o := range ops {
		o.Sub = g.sprinkle(o.Sub, pct)
		out = append(out, o)
		if g.pct(pct) {
			out = append(out, Op{K: "misuse", N: int64(g.r.N(nMisuse)), M: int64(g.r.N(6)), ID: g.r.N(1 << 16)})
		}
	}
	return out
}

func genHarm(prop string, seed uint64) *Plan {
	g := newGen(seed)
	p := basePlan(prop, "harm", seed, g)
	if g.pct(20) {
		p.P["few"] = int64(1 + g.r.N(60))
	}
	p.Conf = nil
	dur := int64(5+g.r.N(40)) * sec
	if g.pct(6) {
		dur = int64(300+g.r.N(600)) * sec
	}
	p.P["main"] = dur / ms
	at := func() int64 { return int64(g.r.N(int(dur/ms))) * ms }
	// surroundings
	if g.pct(60) {
		for _, k := range []string{"host_err", "cwd_err", "std_err", "crand_fail"} {
			if g.pct(20) {
				p.P[k] = 1
			}
		}
	}
	if g.pct(25) {
		p.Env = append(p.Env, g.pick("SCOUTER_CONFIG=/nowhere/x.conf", "SCOUTER_CONFIG=/", "SCOUTER_CONFIG=relative.conf", "scouter.config=/dev/null", "SCOUTER_AGENT_HOME=/ro", "SCOUTER_AGENT_HOME=", "SCOUTER_AGENT_HOME=relative/dir", "SCOUTER_AGENT_HOME=/nowhere/deep/er", "SCOUTER_AGENT_HOME=/app/file", "SCOUTER_AGENT_HOME=\xff\xfe", "SCOUTER_AGENT_HOME=/"))
	}
	for i := g.r.N(4); i > 0; i-- {
		k := allKeys[g.r.N(len(allKeys))]
		p.Env = append(p.Env, g.pick(k+"="+g.hostileVal(k), k+"="+g.hostileVal(k), "NOEQUALS", "=", "=C:=C:\\", "A=${A}", "B=${", "K\xff=\xfe", "X="+strings.Repeat("${X}", 50)))
	}
	p.P["disk"] = int64(g.r.N(12))
	// the first configuration, and edits
	p.Ev = append(p.Ev, Op{K: "file", At: -1, S: g.hostileConf(g.r.N(8))})
	if g.pct(15) {
		p.Ev[0].K = g.pick("nofile", "dir")
	}
	for i := g.r.N(5); i > 0; i-- {
		o := Op{K: "file", At: at(), S: g.hostileConf(g.r.N(8))}
		if g.pct(15) {
			o.K = g.pick("nofile", "dir", "unedit")
		}
		p.Ev = append(p.Ev, o)
	}
	p.P["dns0"] = []int64{0, 0, 0, 1, 2, 3}[g.r.N(6)]
	p.P["tcp0"] = int64(g.r.N(6))
	p.P["udp0"] = []int64{0, 0, 0, 1, 2, 3, 4}[g.r.N(7)]
	for i := g.r.N(5); i > 0; i-- {
		p.Ev = append(p.Ev, Op{K: "dns", At: at(), S: g.pick("", "", "nx", "timeout", "slow")})
	}
	for i := g.r.N(5); i > 0; i-- {
		p.Ev = append(p.Ev, Op{K: "udp", At: at(), S: g.pick("", "", "refused", "nobufs", "unreach", "drop")})
	}
	for i := g.r.N(8); i > 0; i-- {
		p.Ev = append(p.Ev, Op{K: "tcp", At: at(), S: g.pick("refuse", "blackhole", "reset", "eof", "slow", "up", "up", "garbage", "garbage", "hugelen", "partial", "deaf", "drop", "stall"), N: int64(g.r.U64() >> 1)})
	}
	for i := g.r.N(12); i > 0; i-- {
		p.Ev = append(p.Ev, Op{K: "cmd", At: at(), S: tcpNames[g.r.N(len(tcpNames))], N: int64(g.r.U64() >> 1)})
	}
	for i := g.r.N(3); i > 0; i-- {
		p.Ev = append(p.Ev, Op{K: "clock", At: at(), N: []int64{-86400 * 365 * 60, -86400 * 30, -3600, -5, -1, 1, 5, 3600, 86400 * 30, 86400 * 365 * 80}[g.r.N(10)] * sec})
	}
	for i := g.r.N(3); i > 0; i-- {
		p.Net = append(p.Net, Fault{K: "stall", N: g.r.N(60), D: int64(g.r.N(8000)) * ms})
	}
	if g.pct(60) {
		for i := 1 + g.r.N(4); i > 0; i-- {
			a := at()
			if g.pct(40) {
				a = 0
			}
			f := Fault{K: g.pick("EIO", "ENOSPC", "EACCES", "EROFS", "EMFILE", "ENOENT", "EINTR", "short", "stall"), Op: g.pick("", "", "", "open", "write", "read", "stat", "mkdir", "rename", "remove", "sync", "close", "readdir"), Path: g.pick("", "", "logs", "conf", "dump"), From: a, To: a + int64(g.r.N(60000))*ms, N: 1 + g.r.N(3)*g.r.N(8), Part: float64(g.r.N(100)) / 100}
			if f.K == "stall" {
				f.D, f.Cnt = int64(1+g.r.N(4000))*ms, 1+g.r.N(5)
			}
			p.FS = append(p.FS, f)
		}
	}
	if g.pct(12) {
		p.Lite = true
	}
	g.late, g.never, g.dbl = 5, 5, 10
	g.panics, g.errs = 8, 20
	g.manySteps = []int{0, 0, 0, 30, 300}[g.r.N(5)]
	p.Tasks = g.tasks(1+g.r.N(5), 1+g.r.N(8))
	m := []int{0, 5, 20, 60}[g.r.N(4)]
	for i := range p.Tasks {
		if g.pct(50) {
			p.Tasks[i] = append([]Op{{K: "misuse", N: int64(g.r.N(nMisuse)), M: int64(g.r.N(6)), ID: g.r.N(1 << 16)}}, p.Tasks[i]...)
		}
		p.Tasks[i] = g.sprinkle(p.Tasks[i], m)
	}
	if g.pct(40) {
		g.long(p.Tasks, func() int64 {
			if g.pct(40) {
				return int64(g.r.N(9000)) * ms
			}
			return 0
		})
	}
	if g.pct(15) { // more than the queue takes
		p.P["flood"] = []int64{200, 1000, 3000, 6000}[g.r.N(4)]
		p.P["flood_at"] = at() / ms
	}
	p.sortEv()
	return p
}

var tcpNames = append([]string{"OBJECT_CLASS_DESC", "OBJECT_ENV", "OBJECT_THREAD_LIST", "TRIGGER_HEAP_DUMP", "PSTACK_ON"}, tcpCmds...)

// oddParam is a command parameter of any shape.
func oddParam(r *simrt.Rng) map[string]any {
	m := map[string]any{}
	val := func() any {
		switch r.N(9) {
		case 0:
			return nil
		case 1:
			return int64(r.U64())
		case 2:
			return int64(r.N(100)) - 50
		case 3:
			return ""
		case 4:
			return []string{"..", "../../etc/passwd", "/", "\x00", "*", strings.Repeat("v", 3000)}[r.N(6)]
		case 5:
			return []any{int64(1), "x", nil}
		case 6:
			return float64(r.N(1000)) / 7
		case 7:
			return r.N(2) == 0
		}
		return "net_collector_ip=10.0.0.1\nobj_name=odd"
	}
	for i := r.N(4); i > 0; i-- {
		m[[]string{"setConfig", "name", "id", "txid", "key", "time", "delFileName", "fileName", "sec", "", "한"}[r.N(11)]] = val()
	}
	if len(m) == 0 && r.N(2) == 0 {
		return nil
	}
	return m
}

type nilErr struct{ p *int }

func (e *nilErr) Error() string { return fmt.Sprint(*e.p) }

type badStringer struct{}

func (badStringer) String() string { panic("injected: String failed") }

// misuse makes one call with arguments the types allow but nobody means.
func (e *env) misuse(o *Op) {
	w := e.a.w
	w.counts["misuses"]++
	ctx := e.ctx
	switch o.M {
	case 1:
		ctx = context.Background()
	case 2:
		ctx = nil
	case 3: // of a service that has ended
		w.api("StartService(misuse)", func() { ctx = strace.StartService(context.Background(), "gone", "") })
		e.notNil("StartService", ctx)
		w.api("EndService(misuse)", func() { strace.EndService(ctx) })
	case 4: // cancelled
		if ctx != nil {
			c, f := context.WithCancel(ctx)
			f()
			ctx = c
		}
	}
	bit := func(i uint) bool { return o.ID>>i&1 == 1 }
	str := []string{"", "x", strings.Repeat("long ", 3000), "\x00\xff\xfe", "한글", strings.Repeat("z", 100000)}[o.ID>>8%6]
	var req *http.Request
	switch o.ID >> 4 & 7 {
	case 0:
	case 1:
		req = &http.Request{}
	case 2:
		req = &http.Request{URL: &url.URL{}}
	case 3:
		req = &http.Request{URL: &url.URL{Path: str}, Header: http.Header{}, Method: str, RemoteAddr: str}
	case 4:
		req = &http.Request{Header: http.Header{"": nil, "X": nil, "User-Agent": {}}, Method: "GET"}
	default:
		req = mkReq("/misuse", "GET", []string{"X-A:" + "v"}, "")
	}
	w.state(fmt.Sprint("misuse ", o.N, o.M))
	switch o.N {
	case 0:
		var c context.Context
		w.api("StartHttpService", func() { c = strace.StartHttpService(ctx, req) })
		e.notNil("StartHttpService", c)
		w.api("AddMessageStep", func() { strace.AddMessageStep(c, str) })
		if c != ctx || bit(0) {
			w.api("EndHttpService", func() { strace.EndHttpService(c, req, nil) })
		}
	case 1:
		w.api("EndHttpService", func() { strace.EndHttpService(context.Background(), req, &http.Response{}) })
	case 2:
		var c context.Context
		w.api("StartService", func() { c = strace.StartService(ctx, str, str) })
		e.notNil("StartService", c)
		if bit(0) {
			w.api("EndHttpService", func() { strace.EndHttpService(c, nil, &http.Response{StatusCode: -1}) })
		}
		w.api("EndService", func() { strace.EndService(c) })
	case 3:
		var c context.Context
		var par *netio.TraceContext
		if bit(0) {
			par = &netio.TraceContext{}
		}
		if bit(1) && e.s != nil {
			par = e.s.tctx
		}
		w.api("StartNewInheritanceService", func() { c, _ = strace.StartNewInheritanceService(ctx, par) })
		e.notNil("StartNewInheritanceService", c)
		w.api("EndService", func() { strace.EndService(c) })
	case 4:
		e.a.gos++
		w.api("GoWithTrace", func() {
			strace.GoWithTrace(ctx, str, func(c context.Context) {
				defer func() { e.a.gos-- }()
				if c == nil && ctx != nil {
					w.fail("C06", "nil-context:GoWithTrace", "a traced goroutine was given a nil context")
				}
				strace.AddMessageStep(c, "in the goroutine")
			})
		})
	case 5:
		var st *netdata.MethodStep
		var params []interface{}
		if bit(0) {
			params = []interface{}{nil, (*int)(nil), badStringer{}, (chan int)(nil), (func())(nil), struct{ a, b any }{1, nil}, str}
		}
		w.api("StartMethodWithParam", func() { st = strace.StartMethodWithParam(ctx, params...) })
		if bit(1) {
			w.api("EndMethod", func() { strace.EndMethod(ctx, st) })
		}
		w.api("EndMethod", func() { strace.EndMethod(ctx, st) })
	case 6:
		w.api("EndMethod", func() { strace.EndMethod(ctx, nil) })
		w.api("EndMethod", func() { strace.EndMethod(ctx, &netdata.MethodStep{}) })
	case 7:
		w.api("StartCustomMethodWithParam", func() { strace.StartCustomMethodWithParam(ctx, str, params0()...) })
		w.api("StartCustomMethod", func() { strace.StartCustomMethod(ctx, str) })
	case 8:
		w.api("AddStep", func() { strace.AddStep(ctx, nil) })
	case 9:
		w.api("AddStep", func() { strace.AddStep(ctx, (*netdata.MessageStep)(nil)) })
	case 10:
		w.api("AddStep", func() { strace.AddStep(ctx, &netdata.MessageStep{}) })
		w.api("AddStep", func() { strace.AddStep(ctx, netdata.NewPMessageStep(-5)) })
		w.api("AddStep", func() { strace.AddStep(ctx, &netdata.PMessageStep{}) })
		w.api("AddStep", func() { strace.AddStep(ctx, &netdata.ApiCallStep{}) })
	case 11:
		w.api("AddMessageStep", func() { strace.AddMessageStep(ctx, str) })
		w.api("AddHashedMessageStep", func() { strace.AddHashedMessageStep(ctx, str, -1, -1) })
	case 12:
		w.api("AddPMessageStep", func() { strace.AddPMessageStep(ctx, netdata.PMessageLevel(o.ID), str, -1, str, "", "\x00") })
	case 13:
		w.api("MarkAsError", func() { strace.MarkAsError(ctx, str) })
	case 14:
		w.api("MarkAsErrorForcibly", func() { strace.MarkAsErrorForcibly(ctx, str) })
	case 15:
		w.api("SetServiceNameForcibly", func() { strace.SetServiceNameForcibly(ctx, str) })
	case 16:
		w.api("SetAsStream", func() { strace.SetAsStream(ctx) })
		w.api("IsStream", func() { strace.IsStream(ctx) })
	case 17:
		var st *netdata.ApiCallStep
		w.api("StartApiCall", func() { st = strace.StartApiCall(ctx, str, str) })
		var err error
		switch o.ID & 3 {
		case 1:
			err = errors.New("")
		case 2:
			err = (*nilErr)(nil)
		}
		w.api("EndApiCall", func() { strace.EndApiCall(ctx, st, err) })
	case 18:
		w.api("StartApiCallWithPropagation", func() { strace.StartApiCallWithPropagation(ctx, req, str, str) })
	case 19:
		w.api("EndApiCall", func() { strace.EndApiCall(ctx, nil, errors.New(str)) })
		w.api("EndApiCall", func() { strace.EndApiCall(ctx, &netdata.ApiCallStep{}, nil) })
	case 20: // ended twice by way of two calls at once
		var c context.Context
		w.api("StartService", func() { c = strace.StartService(context.Background(), "twice", "1.2.3.4") })
		e.notNil("StartService", c)
		for i := 0; i < 2; i++ {
			e.a.gos++
			simrt.Spawn(w.proc, "twice", func() {
				defer func() { e.a.gos-- }()
				w.api("EndService", func() { strace.EndService(c) })
			})
		}
	case 21: // a step of another service, popped here
		var c context.Context
		var st *netdata.MethodStep
		w.api("StartService", func() { c = strace.StartService(context.Background(), "other", "1.2.3.4") })
		w.api("StartCustomMethod", func() { st = strace.StartCustomMethod(c, "m") })
		w.api("EndMethod", func() { strace.EndMethod(ctx, st) })
		w.api("EndService", func() { strace.EndService(c) })
		w.api("EndMethod", func() { strace.EndMethod(c, st) })
	case 22:
		w.api("EndHttpService", func() { strace.EndHttpService(ctx, req, &http.Response{StatusCode: 1 << 40}) })
	default:
		w.api("EndService", func() { strace.EndService(ctx) })
	}
}

func params0() []interface{} { return []interface{}{nil, 1, ""} }

func (e *env) notNil(api string, c context.Context) {
	if c == nil {
		e.a.w.fail("C06", "nil-context:"+api, "%s returned a nil context", api)
	}
}

func runHarm(w *World) {
	p, c := w.p, w.col
	dnsModes := []string{"", "nx", "timeout", "slow"}
	tcpModes := []string{"up", "up", "refuse", "blackhole", "reset", "eof"}
	udpModes := []string{"", "refused", "nobufs", "unreach", "drop"}
	c.ips["collector.example"] = "10.0.0.1"
	c.dnsBad, c.tcpDef, c.udpErr = dnsModes[p.p("dns0")], tcpModes[p.p("tcp0")], udpModes[p.p("udp0")]
	d := w.disk
	switch p.p("disk") {
	case 0:
		d.HWrite("/app/scouter/logs", []byte("a file"))
	case 1:
		d.HWrite("/app/scouter", []byte("a file"))
	case 2:
		d.HWrite("/app/scouter/conf", []byte("a file"))
	case 3:
		d.HWrite("/app/scouter/dump", []byte("a file"))
	case 4:
		d.HMkdir("/app/scouter/logs/scouter.log")
	case 5:
		d.HWrite("/app/scouter/dump/old.txt", []byte("old"))
		d.HMkdir("/app/scouter/dump/dir")
	}
	d.HWrite("/app/file", []byte("a file"))
	edit := func(o Op) {
		w.faults["conf-"+o.K]++
		switch o.K {
		case "file":
			if d.HIsDir(confPath) {
				d.HRemove(confPath)
			}
			d.HReplace(confPath, []byte(o.S), 0)
		case "nofile":
			d.HRemove(confPath)
		case "dir":
			d.HRemove(confPath)
			d.HMkdir(confPath)
		case "unedit":
			if b, ok := d.HRead(confPath); ok {
				d.HReplace(confPath, b, 0)
			}
		}
	}
	ev := p.Ev
	if len(ev) > 0 && ev[0].At < 0 {
		if p.p("disk") != 1 && p.p("disk") != 2 {
			edit(ev[0])
		}
		ev = ev[1:]
	}
	var fsStall int64
	for _, f := range p.FS {
		if f.K == "stall" {
			fsStall += f.D * int64(f.Cnt)
		}
	}
	if !w.bootAgent(60*sec + fsStall + 20*sec) {
		if w.dead() {
			w.fail("C06", "init-died", "the host process died during initialisation")
		} else {
			w.fail("C06", "init-stuck", "the host process did not finish initialisation within 60 s (besides the disk stalls of this run)")
		}
		return
	}
	a := newApp(w)
	start := simrt.Now()
	ts := a.spawnTasks(p.Tasks)
	own := func() int { // application goroutines
		n := int(a.gos)
		for _, l := range [][]*Task{ts, a.tasks} {
			for _, t := range l {
				if !t.Done && !t.G.Dead() {
					n++
				}
			}
		}
		return n
	}
	conns := func() (tcp, udp int) {
		for _, x := range c.net.Conns {
			if x.Proc == w.proc && !x.IsClosed() {
				tcp++
			}
		}
		for _, x := range c.net.UDPs {
			if x.Proc == w.proc && !x.IsClosed() {
				udp++
			}
		}
		return
	}
	maxGo, maxFiles, maxTCP, maxUDP := 0, 0, 0, 0
	watching := true
	var watch func()
	watch = func() {
		if !watching || w.dead() {
			return
		}
		t, u := conns()
		maxGo, maxFiles = max(maxGo, simrt.GoCount(w.proc)-own()), max(maxFiles, simos.OpenFiles)
		maxTCP, maxUDP = max(maxTCP, t), max(maxUDP, u)
		simrt.After(500*ms, watch)
	}
	watch()
	if n := p.p("flood"); n > 0 {
		simrt.After(p.p("flood_at")*ms, func() {
			if w.dead() {
				return
			}
			ts = append(ts, w.task("flood", func() {
				for i := int64(0); i < n; i++ {
					var c context.Context
					w.api("StartService", func() { c = strace.StartService(context.Background(), fmt.Sprintf("flood%d", i), "1.2.3.4") })
					w.api("EndService", func() { strace.EndService(c) })
					if i%20 == 19 {
						simrt.Sleep(ms / 10)
					}
				}
			}))
		})
	}
	for _, o := range ev {
		if d := start + o.At - simrt.Now(); d > 0 {
			simrt.Sleep(d)
		}
		if w.dead() {
			break
		}
		switch o.K {
		case "clock":
			simrt.JumpWall(o.N)
			w.faults["clock-jump"]++
		case "file", "nofile", "dir", "unedit":
			if x := p.p("disk"); x != 1 && x != 2 {
				edit(o)
			}
		case "dns":
			c.dnsBad = o.S
		case "udp":
			c.udpErr = o.S
		case "tcp":
			x := c.cur()
			r := simrt.NewRng(uint64(o.N))
			switch o.S {
			case "garbage":
				if x != nil {
					b := make([]byte, 1+r.N(300))
					for i := range b {
						b[i] = byte(r.U64() >> 20)
					}
					if r.N(2) == 0 {
						b = framed(b)
					}
					x.raw(b, nil, 0)
					w.faults["tcp-garbage"]++
				}
			case "hugelen":
				if x != nil {
					y := &wr{}
					y.i32(int32(1<<30 + r.N(1<<29)))
					x.raw(append(y.b, make([]byte, r.N(5000))...), nil, 0)
					w.faults["tcp-hugelen"]++
				}
			case "partial":
				if x != nil {
					b := frame("OBJECT_ENV", nil)
					x.raw(b[:1+r.N(len(b)-1)], nil, 0)
					w.faults["tcp-partial"]++
				}
			case "deaf":
				if x != nil {
					x.deaf = true
					w.faults["tcp-silent-peer"]++
				}
			case "stall":
				if x != nil {
					x.tc.Stalled, x.tc.Window = true, r.N(2000)
					w.faults["tcp-slow-reader"]++
				}
			case "drop":
				if x != nil {
					x.drop([]string{"reset", "eof"}[r.N(2)])
				}
			default:
				c.tcpDef = o.S
				if x != nil && r.N(2) == 0 {
					x.drop("reset")
				}
			}
		case "cmd":
			if x := c.cur(); x != nil {
				x.send(o.S, oddParam(simrt.NewRng(uint64(o.N))), nil, 0)
				w.counts["commands"]++
			}
		}
	}
	if d := start + p.p("main")*ms - simrt.Now(); d > 0 && !w.dead() {
		simrt.Sleep(d)
	}
	if !w.dead() && !a.waitAll(ts, 900*sec) && !w.dead() {
		w.fail("C06", "app-stuck", "the application's goroutines did not finish: %s", stuckIn(w.proc))
		return
	}
	if w.dead() {
		w.fail("C06", "died", "the host process died")
		return
	}
	// idle, with whatever faults are still on: no busy loop
	s0, t0 := simrt.S.Step, simrt.Now()
	simrt.Sleep(20 * sec)
	rate := (simrt.S.Step - s0) / ((simrt.Now() - t0) / sec)
	w.counts["idle-steps-per-s-max"] = max(w.counts["idle-steps-per-s-max"], rate)
	// calm
	c.udpErr, c.dnsBad, c.tcpDef = "", "", "up"
	w.calmDown()
	w.fsOff = true
	if p.p("disk") == 1 || p.p("disk") == 2 {
		d.HRemove([]string{"", "/app/scouter", "/app/scouter/conf"}[p.p("disk")])
	}
	if d.HIsDir(confPath) {
		d.HRemove(confPath)
	}
	d.HReplace(confPath, []byte("net_collector_ip=10.0.0.1\n"+saneText), 0)
	for _, x := range c.peers {
		if !x.closed && !x.tc.IsClosed() {
			x.drop("reset")
		}
	}
	simrt.Sleep(60*sec + simrt.S.PausedTotal - simrt.S.PausedDone)
	watching = false
	if w.dead() {
		w.fail("C06", "died", "the host process died")
		return
	}
	const maxOut = 8192 // writes the agent allows to be under way
	badConf := 0        // an unparsable file may cost a goroutine of the parser each time it is edited
	for _, o := range p.Ev {
		if o.K == "file" || o.K == "unedit" {
			badConf++
		}
	}
	if maxGo > maxOut+300 || maxFiles > 30 || maxTCP > 3 || maxUDP > 3 {
		w.fail("C06", "growth", "while faults lasted the agent held up to %d goroutines, %d open files, %d TCP and %d UDP sockets", maxGo, maxFiles, maxTCP, maxUDP)
	}
	t, u := conns()
	n := simrt.GoCount(w.proc) - own()
	if n > 16+badConf || simos.OpenFiles > 3 || t > 1 || u > 1 {
		w.fail("C06", "leak", "after 60 s without any fault the agent still holds %d goroutines, %d open files, %d TCP and %d UDP sockets: %s", n, simos.OpenFiles, t, u, stuckIn(w.proc))
	}
	w.counts["max-goroutines"] = int64(maxGo)
	w.counts["end-goroutines"] = int64(n)
	// the agent is of use again
	std := p.p("cwd_err") == 0 // the configuration is where it was just repaired
	for _, e := range p.Env {
		std = std && !strings.HasPrefix(strings.ToUpper(e), "SCOUTER")
	}
	if !p.Lite && std {
		var txid int64
		tk := w.task("last", func() {
			var x context.Context
			w.api("StartService", func() { x = strace.StartService(context.Background(), "last", "1.2.3.4") })
			if x == nil {
				return
			}
			if tc := tctxmanager.GetTraceContext(x); tc != nil {
				txid = tc.Txid
			}
			w.api("EndService", func() { strace.EndService(x) })
		})
		if !w.wait(5*sec, tk) {
			w.fail("C06", "app-stuck", "a service started and ended after the faults did not return: %s", stuckIn(w.proc))
			return
		}
		simrt.Sleep(15 * sec)
		got := len(collect(parseDgrams(c.dg, func(i int, m string) { w.logf("MALFORMED %d: %s", i, m); w.counts["malformed"]++ })).xlogs[txid]) > 0
		w.counts["recovered"]++
		if !got {
			w.fail("C06", "no-recovery", "a service traced after all faults were over and the configuration was repaired was not reported within 15 s")
		}
		if c.ask("KEEP_ALIVE", nil, 20*sec) == nil && !w.dead() {
			w.fail("C06", "no-recovery-tcp", "after all faults were over the agent did not answer a command within 20 s")
		}
	}
	w.nontriv = len(w.faults) > 0 || w.counts["misuses"] > 0
	w.state(fmt.Sprint(rate/1000, maxGo/10, maxFiles, maxTCP, maxUDP))
	fmt.Fprintf(&w.sample, "agent goroutines <= %d, files <= %d, sockets <= %d/%d, idle %d steps/s", maxGo, maxFiles, maxTCP, maxUDP, rate)
}

// the last configuration sets what the environment may have set to something unusable
var saneText = func() string {
	return "net_collector_udp_port=6100\nnet_collector_tcp_port=6100\nnet_collector_tcp_so_timeout_ms=10000\nnet_collector_tcp_connection_timeout_ms=3000\nudp_max_bytes=60000\n" +
		"xlog_sampling_enabled=false\nxlog_patterned_sampling_enabled=false\nxlog_patterned2_sampling_enabled=false\nxlog_patterned3_sampling_enabled=false\nxlog_discard_service_patterns=none\nobj_name=sane\nobj_type=golang\n"
}()

func stuckIn(proc int) string {
	n := map[string]int{}
	for _, g := range simrt.Goroutines(proc) {
		n[strings.TrimPrefix(g.Name, "go@")]++
	}
	var out []string
	for _, k := range sortedKeys(n) {
		out = append(out, fmt.Sprintf("%s x%d", k, n[k]))
	}
	return strings.Join(out, ", ")
}
