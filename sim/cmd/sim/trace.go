package main

// The application model: what the instrumented host program does with the tracing API, and what
// it therefore expects the collector to be told.

import (
	"context"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"runtime"
	"strings"
	"time"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/netdata"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/netio"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace/tctxmanager"

	"verifsim/simrt"
)

const (
	kWeb = iota
	kApp
	kChild
	kInherit
)

type xstep struct {
	typ      byte
	idx      int32
	parent   int32
	msg      string
	text     string // dictionary text behind the hash
	ttype    string
	value    int32
	time     int32 // fixed elapsed (hmsg/pmsg)
	level    int32
	txid     int64
	addr     string
	errText  string
	s0, s1   int64 // start bracket, absolute ns
	e0, e1   int64 // end bracket
	optional bool
	open     bool
	seq      int // completion order
}

type svc struct {
	id             int
	kind           int
	proc           int
	txid           int64
	gxid           int64
	name           string
	names          []string // every name ever set
	ip             string
	ua, ref        string
	parent         *svc
	a0, a1         int64 // start bracket
	e0, e1         int64 // end bracket
	ended          bool
	ends           int
	shared         bool
	late           bool // steps may arrive after the end
	status         int32
	errs, everErrs []string // texts that may be the recorded error, first one wins
	errForce       string
	errAt          int64 // when it certainly had an error recorded
	goid           int64
	steps          []*xstep
	nidx           int32
	stack          []int32
	apiC           int32
	apiT           [2]int64 // bracket, ms
	login          string
	desc           string
	t              [5]string
	tctx           *netio.TraceContext
	nseq           int
	panicked       bool
	inheritErr     bool
	confAt         int // number of conf changes applied when it ended (C15)
	stuck          bool
	stuckT         int64
	usedHdr        bool
	seen           int    // scratch for oracles
	pz             int64  // time spent paused until the end was called
	marks          []mark // errors marked
	nameSets       []mark
	opens          []mark // methods begun
	calls          []callEnd
	k0, k1         int64 // as e0 and e1, in order of events
	weak           bool  // inherits from a transaction that several goroutines used
}

// mark is a call that sets an error or a name; k0 and k1 number its start and end among all events.
type mark struct {
	k0, k1 int64
	text   string
	forced bool
}

// callEnd is an EndApiCall, and the bracket of the call's elapsed time in ms.
type callEnd struct{ k0, k1, lo, hi int64 }

// tick numbers an event.
func (a *App) tick() int64 { a.events++; return a.events }

// marking carries out a call that sets an error or a name.
func (e *env) marking(l func(*svc) *[]mark, text string, forced bool, call func()) {
	if e.s == nil {
		call()
		return
	}
	p := l(e.s)
	i := len(*p)
	*p = append(*p, mark{k0: e.a.tick(), k1: 1 << 60, text: text, forced: forced})
	call()
	(*p)[i].k1 = e.a.tick()
}

func svcMarks(s *svc) *[]mark { return &s.marks }
func svcNames(s *svc) *[]mark { return &s.nameSets }
func svcOpens(s *svc) *[]mark { return &s.opens }

type App struct {
	w        *World
	svcs     []*svc
	byTx     map[int64]*svc
	wg       map[*svc]int
	tasks    []*Task
	gos      int64 // outstanding GoWithTrace functions
	fnRuns   map[string]int
	fnWant   map[string]int
	untraced int
	onEnd    func(s *svc)
	gid      int
	events   int64
	dicts    []dictUse
}

// dictUse is a direct use of one of the agent's text dictionaries.
type dictUse struct {
	typ, text string
	proc      int
	t0, t1    int64
}

var dictSend = map[string]func(string) int32{
	"service": netio.SendServiceName, "object": netio.SendObjName, "referer": netio.SendReferer, "ua": netio.SendUserAgent,
	"method": netio.SendMethod, "apicall": netio.SendApicall, "error": netio.SendError, "login": netio.SendLogin,
	"desc": netio.SendDesc, "stackelem": netio.SendStackElement, "hmsg": netio.SendHashedMessage,
}

type appKey struct{}

func newApp(w *World) *App {
	return &App{w: w, byTx: map[int64]*svc{}, wg: map[*svc]int{}, fnRuns: map[string]int{}, fnWant: map[string]int{}}
}

// env is the state of one application goroutine.
type env struct {
	a    *App
	ctx  context.Context
	base *appCtx
	s    *svc // current service, nil outside
	own  bool // this goroutine is the one that started s
	dep  int
	par  int32 // parent level this goroutine believes in (unshared only)
}

func (a *App) newSvc(kind int, name, ip string) *svc {
	s := &svc{id: len(a.svcs), kind: kind, name: name, names: []string{name}, ip: ip, proc: a.w.proc}
	a.svcs = append(a.svcs, s)
	return s
}

func (a *App) bind(s *svc, ctx context.Context, api string) bool {
	if ctx == nil {
		a.w.fail("C06", "nil-context:"+api, "%s returned a nil context", api)
		return false
	}
	t := tctxmanager.GetTraceContext(ctx)
	if t == nil {
		return false
	}
	s.tctx = t
	s.txid = t.Txid
	s.gxid = t.Gxid
	a.w.newID(s.txid, fmt.Sprintf("service %d (%s)", s.id, s.name))
	a.byTx[s.txid] = s
	// the first step of every profile names the goroutine
	st := &xstep{typ: 3, msg: "goroutine:", idx: 0, parent: 0, s0: s.a0, s1: s.a1}
	if s.kind != kChild { // started by this goroutine
		s.goid = simrt.Cur().Goid()
		st.msg += fmt.Sprint(s.goid)
	}
	s.nidx = 1
	s.stack = []int32{0}
	s.done(st)
	return true
}

// failed notes that an error with the text was recorded
func (s *svc) failed(text string) {
	if s != nil && s.errAt == 0 && hashOr0(text) != 0 {
		s.errAt = now()
	}
}

func (s *svc) done(st *xstep) {
	st.open = false
	st.seq = s.nseq
	s.nseq++
	s.steps = append(s.steps, st)
}

// push registers a starting step: index in start order, parent the enclosing open step.
func (s *svc) push(st *xstep) {
	st.idx = s.nidx
	s.nidx++
	st.parent = s.stack[len(s.stack)-1]
}

func (e *env) chkVals(where string) {
	if e.ctx == nil {
		return
	}
	if e.a.w.p.p("ctxvals") == 0 {
		return
	}
	if e.ctx.Value(appKey{}) != "app" {
		e.a.w.fail("C07", "ctx-value-lost", "the application's context value is gone after %s", where)
	}
	if e.base == nil {
		return
	}
	d, ok := e.ctx.Deadline()
	if !ok || !d.Equal(e.base.t) {
		e.a.w.fail("C07", "ctx-deadline-lost", "the application's deadline is gone after %s", where)
	}
	if e.ctx.Done() != e.base.done {
		e.a.w.fail("C07", "ctx-cancel-lost", "the application's cancellation is not visible after %s", where)
	}
	if e.ctx.Err() != e.base.err {
		e.a.w.fail("C07", "ctx-err", "the context says %v after %s, the application's context %v", e.ctx.Err(), where, e.base.err)
	}
}

// appCtx is a context the application can cancel.
type appCtx struct {
	context.Context
	t    time.Time
	done <-chan struct{}
	err  error
}

func (c *appCtx) Deadline() (time.Time, bool)     { return c.t, true }
func (c *appCtx) Done() <-chan struct{}           { return c.done }
func (c *appCtx) Err() error                      { return c.err }
func (c *appCtx) Value(k interface{}) interface{} { return c.Context.Value(k) }

// reqPrint is everything of a request the application can see.
func reqPrint(r *http.Request) string {
	if r == nil {
		return ""
	}
	return fmt.Sprintf("%s %v %q %q %d %v %v %q %v %v %v %v", r.Method, r.URL, r.Host, r.RemoteAddr, r.ContentLength, canon(map[string][]string(r.Header)), r.Close, r.RequestURI, r.Form, r.PostForm, r.MultipartForm == nil, r.Body)
}

func resPrint(r *http.Response) string {
	if r == nil {
		return ""
	}
	return fmt.Sprintf("%s %d %v %d %v %v %v", r.Status, r.StatusCode, canon(map[string][]string(r.Header)), r.ContentLength, r.Close, r.Trailer, r.Body)
}

func (e *env) run(ops []Op) {
	for i := range ops {
		e.op(&ops[i])
	}
}

func now() int64 { return simrt.Now() }

func (e *env) addStep(st *xstep, call func()) {
	s := e.s
	if s == nil {
		call()
		return
	}
	st.s0 = now()
	wasEnded := s.ended || s.ends > 0
	if !wasEnded {
		s.push(st)
	}
	call()
	st.s1 = now()
	if wasEnded || s.ends > 0 {
		st.optional = true
	}
	s.done(st)
}

func (e *env) op(o *Op) {
	w := e.a.w
	s := e.s
	switch o.K {
	case "sleep":
		simrt.Sleep(o.N)
	case "http", "svc":
		e.service(o)
	case "msg":
		e.addStep(&xstep{typ: 3, msg: o.S}, func() {
			w.api("AddMessageStep", func() { strace.AddMessageStep(e.ctx, o.S) })
		})
	case "step":
		e.addStep(&xstep{typ: 3, msg: o.S}, func() {
			w.api("AddStep", func() { strace.AddStep(e.ctx, netdata.NewMessageStep(o.S, 0)) })
		})
	case "dict":
		a := e.a
		u := dictUse{typ: o.U, text: o.S, proc: w.proc, t0: now()}
		var h int32
		w.api("Send "+o.U, func() { h = dictSend[o.U](o.S) })
		u.t1 = now()
		a.dicts = append(a.dicts, u)
		if h != textHashOf(o.S) {
			w.fail("C04", "hash-returned", "sending the %s text %.60q gave the hash %d, it is %d", o.U, o.S, h, textHashOf(o.S))
		}
	case "hmsg":
		e.addStep(&xstep{typ: 9, text: o.S, ttype: "hmsg", value: int32(o.N), time: int32(o.M)}, func() {
			w.api("AddHashedMessageStep", func() { strace.AddHashedMessageStep(e.ctx, o.S, int32(o.N), int32(o.M)) })
		})
	case "pmsg":
		e.addStep(&xstep{typ: 17, text: o.S, ttype: "hmsg", time: int32(o.M), level: int32(o.N), msg: etx(o.L)}, func() {
			w.api("AddPMessageStep", func() {
				strace.AddPMessageStep(e.ctx, netdata.PMessageLevel(o.N), o.S, int32(o.M), o.L...)
			})
		})
	case "err":
		if s != nil {
			s.errs = append(s.errs, o.S)
			s.everErrs = append(s.everErrs, o.S)
		}
		e.addStep(&xstep{typ: 17, text: o.S, ttype: "hmsg", level: 3}, func() {
			e.marking(svcMarks, o.S, false, func() { w.api("MarkAsError", func() { strace.MarkAsError(e.ctx, o.S) }) })
		})
		s.failed(o.S)
	case "errf":
		e.marking(svcMarks, o.S, true, func() { w.api("MarkAsErrorForcibly", func() { strace.MarkAsErrorForcibly(e.ctx, o.S) }) })
		if s != nil {
			if !s.shared {
				s.errs = nil
			}
			s.errs = append(s.errs, o.S)
			s.everErrs = append(s.everErrs, o.S)
		}
		s.failed(o.S)
	case "name":
		if s != nil {
			s.names = append(s.names, o.S)
		}
		e.marking(svcNames, o.S, true, func() { w.api("SetServiceNameForcibly", func() { strace.SetServiceNameForcibly(e.ctx, o.S) }) })
		if s != nil {
			s.name = o.S
		}
	case "stream":
		w.api("SetAsStream", func() {
			r := strace.SetAsStream(e.ctx)
			if r != (s != nil) {
				w.fail("C06", "setasstream", "SetAsStream returned %v with a service %v", r, s != nil)
			}
			if s != nil && !strace.IsStream(e.ctx) {
				w.fail("C06", "isstream", "IsStream is false after SetAsStream")
			}
		})
	case "texts":
		if s != nil && s.tctx != nil && !s.shared {
			s.login, s.desc = o.S, o.U
			s.tctx.Login, s.tctx.Desc = o.S, o.U
			for i := 0; i < 5 && i < len(o.L); i++ {
				s.t[i] = o.L[i]
			}
			s.tctx.Text1, s.tctx.Text2, s.tctx.Text3, s.tctx.Text4, s.tctx.Text5 = s.t[0], s.t[1], s.t[2], s.t[3], s.t[4]
		}
	case "method", "methodp", "smethod":
		e.method(o)
	case "api":
		e.apicall(o)
	case "go":
		e.goTrace(o)
	case "inherit":
		e.inherit(o)
	case "par":
		e.parOp(o)
	case "panic":
		panic(userPanic{o.N})
	case "goexit":
		w.counts["goexits"]++
		runtime.Goexit()
	case "renest":
		var c2 context.Context
		w.api("StartService(nested)", func() {
			if o.N == 1 {
				c2 = strace.StartHttpService(e.ctx, mkReq("/nested", "GET", nil, "1.2.3.4:1"))
			} else {
				c2 = strace.StartService(e.ctx, o.S, "9.9.9.9")
			}
		})
		if s != nil && (c2 == nil || tctxmanager.GetTraceContext(c2) != s.tctx) {
			w.fail("C02", "nested-start", "starting a service inside service %d began a second transaction", s.id)
		}
	case "endagain":
		w.api("EndService", func() { strace.EndService(e.ctx) })
	case "untraced":
		e.untraced(o)
	case "call":
		e.untraced(o)
	case "misuse":
		e.misuse(o)
	default:
		panic("unknown op " + o.K)
	}
}

func etx(l []string) string {
	var b strings.Builder
	for _, x := range l {
		b.WriteString(x)
		b.WriteByte(3)
	}
	return b.String()
}

// body is the content of a request or response, which is not the agent's to read or close
type body struct {
	text          string
	reads, closes int
}

func (b *body) Read(p []byte) (int, error) {
	b.reads++
	n := copy(p, b.text)
	b.text = b.text[n:]
	if n == 0 && len(p) > 0 {
		return 0, io.EOF
	}
	return n, nil
}
func (b *body) Close() error { b.closes++; return nil }

func (b *body) String() string { return fmt.Sprintf("body %q read %d closed %d", b.text, b.reads, b.closes) }

func mkReq(path, method string, hdr []string, remote string) *http.Request {
	r := &http.Request{Method: method, Header: http.Header{}, RemoteAddr: remote, URL: &url.URL{Path: path}}
	if method != "GET" {
		r.Body, r.ContentLength = &body{text: "a=1&b=2"}, 7
		r.Header.Set("Content-Type", "application/x-www-form-urlencoded")
	}
	if i := strings.IndexByte(path, '?'); i >= 0 {
		r.URL.Path, r.URL.RawQuery = path[:i], path[i+1:]
	}
	for _, h := range hdr {
		if k := strings.IndexByte(h, ':'); k > 0 {
			r.Header.Add(h[:k], strings.TrimSpace(h[k+1:]))
		}
	}
	return r
}

// service runs one service: http (S=path U=method L=headers) or svc (S=name U=remote address).
// N: response status (http, 0: none). M: how it is ended: 0 once, 1 twice, 2 twice concurrently,
// 3 never.
func (e *env) service(o *Op) {
	a, w := e.a, e.a.w
	base := e.ctx
	var ac0 *appCtx
	if w.p.p("ctxvals") != 0 && base != nil {
		base = context.WithValue(base, appKey{}, "app")
		if o.N%2 == 0 {
			ac := &appCtx{Context: base, t: time.Unix(4_000_000_000, 0), done: make(chan struct{})}
			if w.p.p("cancel")%2 != 0 {
				ac.err = context.Canceled
			}
			base, ac0 = ac, ac
		}
	}
	var ne env
	ne.a = a
	ne.base = ac0
	var req *http.Request
	var s *svc
	if o.K == "http" {
		rem := "10.1.2.3:5555"
		for _, h := range o.L {
			if strings.HasPrefix(h, "@") {
				rem = h[1:]
			}
		}
		req = mkReq(o.S, o.U, o.L, rem)
		if k := w.p.p("reqctx"); k != 0 { // the client may have gone by the end
			rc, gone := context.WithCancel(context.Background())
			req = req.WithContext(rc)
			if (k+o.N)%3 != 0 {
				defer gone()
			} else {
				gone()
			}
		}
		before := reqPrint(req)
		defer func() {
			if after := reqPrint(req); after != before {
				w.fail("C07", "request-modified", "the request was %s and is %s after the service", before, after)
			}
		}()
		s = a.newSvc(kWeb, req.URL.Path+"<"+o.U+">", rem)
		if k := w.p.Conf["trace_http_client_ip_header_key"]; k != "" {
			if v := req.Header.Get(k); v != "" {
				s.ip = v
			}
		}
		s.ua, s.ref = req.UserAgent(), req.Referer()
		s.a0 = now()
		w.api("StartHttpService", func() { ne.ctx = strace.StartHttpService(base, req) })
	} else {
		s = a.newSvc(kApp, o.S, o.U)
		s.a0 = now()
		w.api("StartService", func() { ne.ctx = strace.StartService(base, o.S, o.U) })
	}
	s.a1 = now()
	if !a.bind(s, ne.ctx, o.K) {
		if ne.ctx != nil {
			w.fail("C01", "not-started", "starting service %q gave a context without a transaction", s.name)
		}
		s = nil
		a.svcs = a.svcs[:len(a.svcs)-1]
	}
	ne.s, ne.own = s, true
	if o.K == "http" && s != nil {
		a.headerSteps(s, req)
	}
	ne.chkVals("Start")
	for i := range o.Sub {
		if hasPar(&o.Sub[i]) && s != nil {
			s.shared = true
		}
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				up, ok := r.(userPanic)
				if !ok {
					panic(r)
				}
				if s != nil {
					s.panicked = true
				}
				_ = up
			}
			if s != nil {
				for a.wg[s] > 0 {
					simrt.Sleep(ms)
				}
			}
			ne.end(o, req)
		}()
		ne.run(o.Sub)
	}()
}

func hasPar(o *Op) bool {
	if o.K == "par" {
		return true
	}
	if o.K == "go" || o.K == "inherit" || o.K == "svc" || o.K == "http" {
		return false
	}
	for i := range o.Sub {
		if hasPar(&o.Sub[i]) {
			return true
		}
	}
	return false
}

func (e *env) endCall(o *Op, req *http.Request) {
	w := e.a.w
	if o.K == "http" {
		var res *http.Response
		if o.N != 0 {
			res = &http.Response{StatusCode: int(o.N), Header: http.Header{"X-R": {"1"}}, ContentLength: 7, Body: &body{text: "content"}}
			if o.N%2 == 1 {
				res.Body, res.ContentLength = nil, 0
			}
		}
		before := resPrint(res)
		w.api("EndHttpService", func() { strace.EndHttpService(e.ctx, req, res) })
		if after := resPrint(res); after != before {
			w.fail("C07", "response-modified", "the response was %s and is %s after the service", before, after)
		}
	} else {
		w.api("EndService", func() { strace.EndService(e.ctx) })
	}
}

func (e *env) end(o *Op, req *http.Request) {
	s := e.s
	if s == nil {
		e.endCall(o, req)
		return
	}
	if o.M == 3 {
		return
	}
	if !s.stuck || s.ends == 0 {
		s.e0 = now()
	}
	if s.k0 == 0 {
		s.k0 = e.a.tick()
	}
	s.ends++
	s.status = int32(o.N)
	if o.K != "http" {
		s.status = 0
	}
	if o.M == 2 {
		e.a.w.counts["concurrent-ends"]++
		t := e.a.w.task("second-end", func() { e.endCall(o, req) })
		e.endCall(o, req)
		e.a.w.wait(30*sec, t)
	} else {
		e.endCall(o, req)
	}
	s.e1 = now()
	s.k1 = e.a.tick()
	s.ended = true
	if e.a.onEnd != nil {
		e.a.onEnd(s)
	}
	if o.M == 1 {
		e.endCall(o, req)
	}
	if e.a.w.p.p("after") != 0 && s.e1-s.a0 < 200*sec && len(o.Sub)%3 != 1 { // nothing of this is the record's any more
		w := e.a.w
		w.counts["steps-after-end"]++
		w.api("AddMessageStep(ended)", func() { strace.AddMessageStep(e.ctx, "after the end") })
		w.api("AddHashedMessageStep(ended)", func() { strace.AddHashedMessageStep(e.ctx, "after the end", 1, 2) })
		var m *netdata.MethodStep
		w.api("StartCustomMethod(ended)", func() { m = strace.StartCustomMethod(e.ctx, "after the end") })
		w.api("EndMethod(ended)", func() { strace.EndMethod(e.ctx, m) })
	}
	if e.a.w.p.p("ctxvals") != 0 && len(o.Sub)%4 == 1 { // the application goes on with the context
		ne := *e
		e.a.w.api("StartService(ended)", func() { ne.ctx = strace.StartService(e.ctx, "/ended", "1.2.3.4") })
		ne.chkVals("StartService after the end")
		e.a.w.api("GoWithTrace(ended)", func() {
			strace.GoWithTrace(context.WithValue(context.Background(), appKey{}, "app"), "ended", func(ctx context.Context) {
				if ctx == nil || ctx.Value(appKey{}) != "app" {
					e.a.w.fail("C07", "ctx-value-lost", "the application's context value is not visible in a goroutine without a transaction")
				}
			})
		})
	}
}

func (a *App) headerSteps(s *svc, r *http.Request) {
	c := a.w.p.Conf
	if c["profile_http_header_enabled"] == "true" {
		if ks := c["profile_http_header_keys"]; ks != "" {
			for _, k := range strings.Split(ks, ",") {
				if v := r.Header.Values(strings.TrimSpace(k)); len(v) > 0 {
					st := &xstep{typ: 3, msg: fmt.Sprintf("header: %s: %s", k, strings.Join(v, ",")), s0: s.a0, s1: s.a1}
					s.push(st)
					s.done(st)
				}
			}
		} else {
			for _, k := range sortedKeys(r.Header) {
				st := &xstep{typ: 3, msg: fmt.Sprintf("header: %s: %s", k, strings.Join(r.Header[k], ",")), s0: s.a0, s1: s.a1, level: -1} // any order
				s.push(st)
				s.done(st)
			}
		}
	}
	if c["profile_http_querystring_enabled"] == "true" {
		st := &xstep{typ: 3, msg: "query: " + r.URL.RawQuery, s0: s.a0, s1: s.a1}
		s.push(st)
		s.done(st)
	}
}

func (e *env) method(o *Op) {
	w, s := e.a.w, e.s
	var params []*xstep
	for _, p := range o.L {
		if o.K != "methodp" {
			break
		}
		if q := e.addParam(p); q != nil {
			params = append(params, q)
		}
	}
	st := &xstep{typ: 1, text: o.S, ttype: "method", open: true, s0: now()}
	if o.K == "smethod" {
		st.text = "*"
	}
	if s != nil && s.ends == 0 {
		s.push(st)
	}
	var h *netdata.MethodStep
	e.marking(svcOpens, st.text, false, func() {
		w.api("StartMethod", func() {
			switch o.K {
			case "method":
				h = strace.StartCustomMethod(e.ctx, o.S)
			case "smethod":
				if len(o.L) > 0 {
					h = strace.StartMethodWithParam(e.ctx, toAny(o.L)...)
				} else {
					h = strace.StartMethod(e.ctx)
				}
			default:
				h = strace.StartCustomMethodWithParam(e.ctx, o.S, toAny(o.L)...)
			}
		})
	})
	st.s1 = now()
	for _, q := range params {
		q.s1 = st.s1
	}
	if s != nil {
		s.stack = append(s.stack, st.idx)
	}
	depth := 0
	if s != nil {
		depth = len(s.stack)
	}
	fin := func() {
		if o.M == 3 { // the application forgets EndMethod
			return
		}
		st.e0 = now()
		late := s != nil && s.ends > 0
		w.api("EndMethod", func() { strace.EndMethod(e.ctx, h) })
		st.e1 = now()
		if s != nil {
			if late || s.ends > 0 {
				st.optional = true
			}
			if !s.shared {
				s.stack = s.stack[:depth-1]
			} else if len(s.stack) > 1 {
				s.stack = s.stack[:len(s.stack)-1]
			}
			s.done(st)
		}
	}
	defer fin()
	e.run(o.Sub)
}

func (e *env) addParam(p string) *xstep {
	if e.s == nil || e.s.ends > 0 {
		return nil
	}
	v := toAny([]string{p})[0]
	if v == nil { // is skipped
		return nil
	}
	st := &xstep{typ: 3, msg: fmt.Sprintf("param: %v", v), s0: now(), s1: forever}
	e.s.push(st)
	e.s.done(st)
	return st
}

func toAny(l []string) []interface{} {
	out := make([]interface{}, len(l))
	for i := range l {
		out[i] = l[i]
		switch t, v, ok := strings.Cut(l[i], "="); {
		case ok && t == "int":
			out[i] = len(v)
		case ok && t == "err":
			out[i] = fmt.Errorf("%s", v)
		case ok && t == "nilptr":
			out[i] = (*nilError)(nil)
		case ok && t == "nil":
			out[i] = nil
		case ok && t == "list":
			out[i] = strings.Split(v, "-")
		}
	}
	return out
}

// nilError is an error type whose nil pointer is taken for an error, as careless code does
type nilError struct{ text string }

func (e *nilError) Error() string { return e.text }

// outPrint shows an outgoing request without the headers the agent adds
func outPrint(r *http.Request) string {
	if r == nil {
		return "none"
	}
	c := *r
	c.Header = http.Header{}
	for k, v := range r.Header {
		if !strings.HasPrefix(k, "X-Scouter-") {
			c.Header[k] = v
		}
	}
	return reqPrint(&c)
}

func (e *env) apicall(o *Op) {
	w, s := e.a.w, e.s
	st := &xstep{typ: 6, text: o.S, ttype: "apicall", addr: o.U, open: true, s0: now()}
	if s != nil && s.ends == 0 {
		s.push(st)
	}
	var h *netdata.ApiCallStep
	var req *http.Request
	w.api("StartApiCall", func() {
		if o.M >= 1 {
			req = mkReq("/out?a=b", "GET", []string{"X-App: 1", "x-app: 2"}, "")
			switch o.M {
			case 2:
				req.Header = nil
			case 3:
				for _, k := range []string{"Gxid", "Caller", "Callee", "Caller-Obj"} {
					req.Header.Set("X-Scouter-"+k, "z1234567")
				}
			case 4:
				req = nil
			}
			before := outPrint(req)
			h = strace.StartApiCallWithPropagation(e.ctx, req, o.S, o.U)
			if after := outPrint(req); after != before {
				w.fail("C07", "request-modified", "the outgoing request was %s and is %s after the call began", before, after)
			}
		} else {
			h = strace.StartApiCall(e.ctx, o.S, o.U)
		}
	})
	st.s1 = now()
	if s != nil {
		s.stack = append(s.stack, st.idx)
		if h == nil {
			w.fail("C02", "no-api-step", "StartApiCall inside a service returned nil")
			w.fail("C03", "no-api-step", "StartApiCall inside a service returned nil")
			return
		}
		st.txid = h.Txid
		w.newID(h.Txid, "API call "+o.S)
		if req != nil {
			e.a.checkHeaders(s, st, req)
		}
	}
	depth := 0
	if s != nil {
		depth = len(s.stack)
	}
	defer func() {
		st.e0 = now()
		var err error
		if o.N != 0 {
			err = fmt.Errorf("api error %s", o.S)
			if o.N == 2 {
				err = (*nilError)(nil)
			}
			st.errText = fmt.Sprint(err)
			if s != nil {
				s.errs = append(s.errs, st.errText)
				s.everErrs = append(s.everErrs, st.errText)
			}
		}
		if s != nil {
			s.apiC++
		}
		late := s != nil && s.ends > 0
		ci := 0
		if s != nil {
			ci = len(s.calls)
			s.calls = append(s.calls, callEnd{k0: e.a.tick(), k1: 1 << 60, lo: max((st.e0-st.s1)/ms-2, 0), hi: 1 << 40})
		}
		end := func() { w.api("EndApiCall", func() { strace.EndApiCall(e.ctx, h, err) }) }
		if err != nil {
			e.marking(svcMarks, st.errText, false, end)
		} else {
			end()
		}
		if err != nil {
			s.failed(st.errText)
		}
		st.e1 = now()
		if s != nil {
			s.calls[ci].k1, s.calls[ci].hi = e.a.tick(), (st.e1-st.s0)/ms+2
		}
		if s != nil {
			if late || s.ends > 0 {
				st.optional = true
			}
			s.apiT[0] += max((st.e0-st.s1)/ms-2, 0)
			s.apiT[1] += (st.e1-st.s0)/ms + 2
			if !s.shared {
				s.stack = s.stack[:depth-1]
			} else if len(s.stack) > 1 {
				s.stack = s.stack[:len(s.stack)-1]
			}
			s.done(st)
		}
	}()
	e.run(o.Sub)
}

// xlog32 is the textual id format of the Scouter protocol: base 32 with an x (or z for
// negative) prefix.
func xlog32(n int64) string {
	if n < 0 {
		return "z" + fmt32(uint64(-n))
	}
	return "x" + fmt32(uint64(n))
}
func fmt32(u uint64) string {
	const d = "0123456789abcdefghijklmnopqrstuv"
	if u == 0 {
		return "0"
	}
	var b []byte
	for u > 0 {
		b = append([]byte{d[u%32]}, b...)
		u /= 32
	}
	return string(b)
}

func (a *App) checkHeaders(s *svc, st *xstep, r *http.Request) {
	want := map[string]string{"X-Scouter-Gxid": xlog32(s.gxid), "X-Scouter-Caller": xlog32(s.txid), "X-Scouter-Callee": xlog32(st.txid)}
	for _, k := range sortedKeys(want) {
		if g := strings.Join(r.Header.Values(k), " and "); g != want[k] {
			a.w.fail("C16", "textual-id", "the id %s is propagated as %s=%q", want[k], k, g)
			a.w.fail("C02", "propagation", "outgoing call of service %d carries %s=%q, expected %q", s.id, k, g, want[k])
		}
	}
}

func (e *env) goTrace(o *Op) {
	a, w := e.a, e.a.w
	a.gid++
	key := fmt.Sprintf("go%d", a.gid)
	a.fnWant[key] = 1
	a.gos++
	ps := e.s
	a0 := now()
	var cs *svc
	var ast *xstep
	if ps != nil {
		ast = &xstep{typ: 14, text: o.S, ttype: "apicall", s0: a0}
		if ps.ends > 0 {
			ast.optional = true
		} else {
			ps.push(ast)
		}
		ps.done(ast)
	}
	w.api("GoWithTrace", func() {
		strace.GoWithTrace(e.ctx, o.S, func(ctx context.Context) {
			a.fnRuns[key]++
			a.gos--
			f0 := now()
			if ctx == nil {
				if e.ctx != nil {
					w.fail("C06", "nil-context:GoWithTrace", "the goroutine function got a nil context")
				}
			} else if w.p.p("ctxvals") != 0 && e.ctx.Value(appKey{}) == "app" && ctx.Value(appKey{}) != "app" {
				w.fail("C07", "ctx-value-lost", "the application's context value is not visible in the traced goroutine")
			}
			ne := env{a: a, ctx: ctx, own: true, base: e.base}
			if ctx != nil && w.p.p("ctxvals") != 0 && e.ctx.Value(appKey{}) == "app" {
				ne.chkVals("GoWithTrace")
			}
			if ps != nil {
				cs = a.newSvc(kChild, o.S, ps.ip)
				cs.parent = ps
				cs.a0, cs.a1 = a0, f0
				if ctx == nil || tctxmanager.GetTraceContext(ctx) == nil || tctxmanager.GetTraceContext(ctx) == ps.tctx {
					w.fail("C02", "child-not-traced", "the traced goroutine %q of service %d has no transaction of its own", o.S, ps.id)
					cs = nil
				} else {
					a.bind(cs, ctx, "GoWithTrace")
					ast.txid = cs.txid
				}
				ne.s = cs
			}
			if cs != nil {
				for i := range o.Sub {
					if hasPar(&o.Sub[i]) {
						cs.shared = true
					}
				}
			}
			defer func() {
				if cs != nil {
					for a.wg[cs] > 0 {
						simrt.Sleep(ms)
					}
					cs.e0 = now()
					cs.k0, cs.k1 = a.tick(), 1<<60
					cs.e1 = -1 // the agent ends it right after we return
					cs.ends++
					cs.ended = true
					if a.onEnd != nil {
						a.onEnd(cs)
					}
				}
			}()
			ne.run(o.Sub)
		})
	})
	if ast != nil {
		ast.s1 = now()
		if ps.ends > 0 {
			ast.optional = true
		}
	}
}

func (e *env) inherit(o *Op) {
	a, w := e.a, e.a.w
	ps := e.s
	if ps == nil || ps.tctx == nil {
		return
	}
	s := a.newSvc(kInherit, ps.name, ps.ip)
	s.parent = ps
	var nctx context.Context
	var nt *netio.TraceContext
	s.a0 = now()
	w.api("StartNewInheritanceService", func() {
		nctx, nt = strace.StartNewInheritanceService(context.WithValue(context.Background(), appKey{}, "app"), ps.tctx)
	})
	s.a1 = now()
	if nt == nil || !a.bind(s, nctx, "StartNewInheritanceService") {
		w.fail("C01", "not-started", "an inheriting service of service %d has no transaction", ps.id)
		return
	}
	s.shared = s.shared || ps.shared
	st := &xstep{typ: 3, msg: "scouter inheritance step", s0: s.a0, s1: s.a1}
	s.push(st)
	s.done(st)
	if len(ps.errs) > 0 {
		s.errs = append([]string{}, ps.errs...)
	}
	s.inheritErr = true
	s.ua, s.ref = ps.ua, ps.ref
	s.login, s.desc, s.t = ps.login, ps.desc, ps.t
	s.apiC, s.apiT = ps.apiC, ps.apiT
	s.weak = ps.shared || ps.weak
	if !s.weak {
		k := a.tick()
		for _, c := range ps.calls {
			s.calls = append(s.calls, callEnd{k, k, c.lo, c.hi})
		}
		if len(ps.errs) > 0 {
			s.marks = append(s.marks, mark{k0: k, k1: k, text: ps.errs[0]})
		}
	}
	ne := env{a: a, ctx: nctx, s: s, own: true}
	ne.run(o.Sub)
	oo := Op{K: "svc"}
	ne.end(&oo, nil)
}

func (e *env) parOp(o *Op) {
	a := e.a
	s := e.s
	if s != nil {
		a.wg[s]++
	}
	ne := env{a: a, ctx: e.ctx, s: s, base: e.base}
	joined := o.N == 0
	if !joined && s != nil {
		s.late = true
		a.wg[s]--
	}
	t := a.w.task("par", func() {
		defer func() {
			if joined && s != nil {
				a.wg[s]--
			}
		}()
		ne.run(o.Sub)
	})
	a.tasks = append(a.tasks, t)
}

// untraced calls every API with a context that has no transaction, or none at all.
func (e *env) untraced(o *Op) {
	w := e.a.w
	ctx := context.Background()
	if o.N == 1 {
		ctx = nil
	}
	var st *netdata.MethodStep
	var as *netdata.ApiCallStep
	w.api("StartMethod(untraced)", func() { st = strace.StartMethod(ctx) })
	w.api("EndMethod(untraced)", func() { strace.EndMethod(ctx, st) })
	w.api("StartCustomMethodWithParam(untraced)", func() { st = strace.StartCustomMethodWithParam(ctx, "m", 1, nil) })
	w.api("EndMethod(untraced)", func() { strace.EndMethod(ctx, st) })
	w.api("StartApiCall(untraced)", func() { as = strace.StartApiCall(ctx, "a", "") })
	w.api("StartApiCallWithPropagation(untraced)", func() { as = strace.StartApiCallWithPropagation(ctx, nil, "a", "b") })
	w.api("EndApiCall(untraced)", func() { strace.EndApiCall(ctx, as, errInjected) })
	w.api("AddMessageStep(untraced)", func() { strace.AddMessageStep(ctx, "x") })
	w.api("AddHashedMessageStep(untraced)", func() { strace.AddHashedMessageStep(ctx, "x", 1, 1) })
	w.api("AddPMessageStep(untraced)", func() { strace.AddPMessageStep(ctx, 1, "x", 1, "p") })
	w.api("AddStep(untraced)", func() { strace.AddStep(ctx, netdata.NewMessageStep("x", 0)) })
	w.api("MarkAsError(untraced)", func() { strace.MarkAsError(ctx, "x") })
	w.api("MarkAsErrorForcibly(untraced)", func() { strace.MarkAsErrorForcibly(ctx, "x") })
	w.api("SetServiceNameForcibly(untraced)", func() { strace.SetServiceNameForcibly(ctx, "x") })
	w.api("SetAsStream(untraced)", func() { strace.SetAsStream(ctx) })
	w.api("IsStream(untraced)", func() { strace.IsStream(ctx) })
	w.api("EndService(untraced)", func() { strace.EndService(ctx) })
	w.api("EndHttpService(untraced)", func() { strace.EndHttpService(ctx, nil, nil) })
	w.api("EndHttpService(untraced,res)", func() { strace.EndHttpService(ctx, nil, &http.Response{StatusCode: 200}) })
	if o.N == 1 {
		var c context.Context
		w.api("StartHttpService(nil ctx)", func() { c = strace.StartHttpService(nil, mkReq("/nilctx", "GET", nil, "1.1.1.1:1")) })
		if c == nil {
			w.fail("C06", "nil-context:StartHttpService", "StartHttpService(nil) returned a nil context")
		}
		w.api("EndHttpService(nil ctx)", func() { strace.EndHttpService(c, nil, nil) })
	}
}

// spawnTasks starts the plan's tasks as application goroutines.
func (a *App) spawnTasks(tasks [][]Op) []*Task {
	var ts []*Task
	for i := range tasks {
		ops := tasks[i]
		ts = append(ts, a.w.task(fmt.Sprintf("app%d", i), func() {
			e := &env{a: a, ctx: context.Background()}
			func() {
				defer func() {
					if r := recover(); r != nil {
						if _, ok := r.(userPanic); !ok {
							panic(r)
						}
					}
				}()
				e.run(ops)
			}()
		}))
	}
	return ts
}

func (a *App) allDone(ts []*Task) bool {
	for _, t := range ts {
		if !t.Done && !t.G.Dead() {
			return false
		}
	}
	for _, t := range a.tasks {
		if !t.Done && !t.G.Dead() {
			return false
		}
	}
	return a.gos == 0
}

func (a *App) waitAll(ts []*Task, lim int64) bool {
	end, step := now()+lim-simrt.Suspended(), int64(ms)
	for !a.allDone(ts) {
		if now() >= end+simrt.Suspended() || a.w.dead() {
			return false
		}
		simrt.Sleep(step)
		step = min(step+step/8, 200*ms)
	}
	return true
}
