package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"hash/fnv"
	"net"
	gonet "net"
	"os"
	goruntime "runtime"
	"runtime/debug"
	"sort"
	"strings"
	"syscall"

	simcrand "verifsim/shadow/crand"
	simnet "verifsim/shadow/net"
	simos "verifsim/shadow/os"
	simpprof "verifsim/shadow/pprof"
	simrand "verifsim/shadow/rand"
	simruntime "verifsim/shadow/runtime"
	simtime "verifsim/shadow/time"
	"verifsim/simrt"

	"verifgen/boot"
)

const ms = int64(1_000_000)
const sec = 1000 * ms

const confPath = "/app/scouter/conf/scouter.conf"

// World is the simulated deployment around one agent process (and its successors).
type World struct {
	p          *Plan
	rng        *simrt.Rng // content-level choices that need not be in the plan
	disk       *simos.Disk
	col        *Collector
	proc       int
	booted     bool
	viol       []Violation
	faults     map[string]int64
	counts     map[string]int64
	h          uint64 // history hash
	crash      []simrt.Crash
	nontriv    bool
	states     map[uint64]struct{}
	sample     strings.Builder
	final      []func() // post-run checks
	planned    bool     // a kill/exit by the plan is in progress
	fsHits     map[int]int
	fsKey      int         // the operation under way
	fsFired    map[int]int // faults by key
	onFS       func(op, path string) bool
	fsOff      bool // no more disk faults
	onFault    func(kind, op, path string)
	ids        map[int64]string
	calm       bool // the fault phase is over
	quietCrash bool // crashes are judged by the scenario itself
	log        []string
}

// newID: ids given to transactions and calls, across all processes of the run.
func (w *World) newID(id int64, what string) {
	if id == 0 {
		w.fail("C16", "zero-id", "%s of process %d was given id 0", what, w.proc)
		return
	}
	if o, dup := w.ids[id]; dup {
		w.fail("C16", "dup-id", "%s of process %d was given id %x, which %s already has", what, w.proc, uint64(id), o)
		return
	}
	w.ids[id] = fmt.Sprintf("%s of process %d", what, w.proc)
	w.counts["ids"]++
}

var W *World

// calmDown ends the fault phase: no more injected stalls or network faults.
func (w *World) calmDown() {
	w.calm = true
	simrt.Calm()
}

func (w *World) fail(prop, kind, f string, a ...any) {
	if len(w.viol) < 20 {
		w.viol = append(w.viol, Violation{prop, prop + "/" + kind, fmt.Sprintf(f, a...)})
	}
}
func (w *World) logf(f string, a ...any) {
	if logRuns {
		w.log = append(w.log, fmt.Sprintf("%12.6fs ", float64(simrt.Now())/1e9)+fmt.Sprintf(f, a...))
	}
}

var logRuns bool

func (w *World) note(vals ...uint64) {
	for _, v := range vals {
		w.h = simrt.Mix(w.h, v)
	}
}
func strHash(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}
func (w *World) state(s string) { w.states[strHash(s)] = struct{}{} }

var errnos = map[string]syscall.Errno{"ENOSPC": syscall.ENOSPC, "EIO": syscall.EIO, "EACCES": syscall.EACCES,
	"EROFS": syscall.EROFS, "EMFILE": syscall.EMFILE, "ENOENT": syscall.ENOENT, "EDQUOT": syscall.EDQUOT, "EINTR": syscall.EINTR}

func newWorld(p *Plan) *World {
	w := &World{p: p, rng: simrt.NewRng(simrt.Mix(p.Seed, 77)), faults: map[string]int64{}, counts: map[string]int64{}, states: map[uint64]struct{}{}, fsHits: map[int]int{}, fsFired: map[int]int{}, ids: map[int64]string{}}
	w.disk = simos.NewDisk(simrt.Mix(p.Seed, 5))
	simos.D = w.disk
	w.disk.Few, w.disk.FewSeed = uint64(p.p("few")), p.Seed
	simos.Env = append([]string{"PATH=/bin", "HOME=/home/app", "LANG=C"}, p.Env...)
	simos.Host = "simhost"
	simos.HostErr, simos.CwdErr = p.p("host_err") != 0, p.p("cwd_err") != 0
	simos.Pid = 4242
	simrt.GoidBase = p.p("goid")
	simos.StdFault = nil
	if p.p("std_err") != 0 {
		simos.StdFault = func() error { w.faults["stdio-epipe"]++; return syscall.EPIPE }
	}
	simos.OpenFiles = 0
	simpprof.ResetAll()
	simpprof.Size = int(p.pd("pprof_size", 9000))
	simruntime.Mem = goruntime.MemStats{}
	simruntime.OnRate, simruntime.OnRead, simruntime.Cgo = nil, nil, 1
	simruntime.BlockRate, simruntime.MutexFrac = 0, 0
	simcrand.Fail = p.p("crand_fail") != 0
	simnet.SetNow(simtime.Now)
	if t := p.p("mtime_tick"); t > 0 {
		w.disk.Tick = t
	}
	w.disk.Fault = w.fsFault
	w.col = newCollector(w)
	simnet.N = w.col.net
	return w
}

func (w *World) fsFault(op, path string, n int) (e syscall.Errno, part float64, stall int64) {
	now := simrt.Now()
	if simrt.Cur() != nil && simrt.Cur().Proc == 0 {
		return
	}
	if w.onFS != nil && w.onFS(op, path) { // the process gets no further
		return 0, 0, 3600 * sec
	}
	if w.fsOff {
		return
	}
	for i, f := range w.p.FS {
		if f.Key != 0 && f.Key != w.fsKey {
			continue
		}
		if now < f.From || (f.To > 0 && now >= f.To) {
			continue
		}
		if f.Op != "" && !strings.Contains(","+f.Op+",", ","+op+",") {
			continue
		}
		if f.Path != "" && !strings.Contains(path, f.Path) {
			continue
		}
		if f.N > 0 && w.fsHits[i] < f.N-1 { // let the first N-1 pass
			w.fsHits[i]++
			continue
		}
		if f.Cnt > 0 && w.fsHits[i] >= f.Cnt+max(f.N-1, 0) {
			continue
		}
		w.fsHits[i]++
		w.faults["fs-"+f.K]++
		w.fsFired[f.Key]++
		if w.onFault != nil {
			w.onFault(f.K, op, path)
		}
		w.logf("fs fault %s on %s %s", f.K, op, path)
		if f.K == "stall" {
			return 0, 0, f.D
		}
		if f.K == "short" {
			return syscall.ENOSPC, f.Part, 0
		}
		return errnos[f.K], f.Part, f.D
	}
	return
}

func confText(m map[string]string) string {
	var b strings.Builder
	for _, k := range sortedKeys(m) {
		fmt.Fprintf(&b, "%s=%s\n", k, m[k])
	}
	return b.String()
}

// ---------------------------------------------------------------- agent process

// bootAgent starts a new incarnation of the host process. It returns false if it died or
// did not come up within lim ns.
func (w *World) bootAgent(lim int64) bool {
	w.proc++
	w.booted = false
	pr := w.proc
	simrand.Global = simrt.NewRng(simrt.Mix(w.p.Seed, 1000+uint64(pr)))
	simos.OpenFiles = 0
	simos.Pid = 4242 + pr
	simpprof.Reset()
	full := !w.p.Lite
	simrt.Spawn(pr, "main", func() {
		boot.Boot(full)
		w.booted = true
	})
	end := simrt.Now() + lim
	for !w.booted && !w.dead() {
		if simrt.Now() >= end {
			return false
		}
		simrt.Sleep(ms)
	}
	return w.booted
}

func (w *World) dead() bool {
	for _, c := range w.crash {
		if c.Proc == w.proc {
			return true
		}
	}
	return false
}

// killAgent ends the process at once (SIGKILL); sockets are closed by the kernel.
func (w *World) killAgent() {
	pr := w.proc
	simrt.KillProc(pr)
	w.closeSockets(pr)
}

func (w *World) closeSockets(pr int) {
	for _, c := range w.col.net.Conns {
		if c.Proc == pr && !c.IsClosed() {
			c.Kill()
		}
	}
	for _, c := range w.col.net.UDPs {
		if c.Proc == pr && !c.IsClosed() {
			c.Kill()
		}
	}
}

// task starts an application goroutine in the agent's process and returns a done flag.
type Task struct {
	G    *simrt.G
	Done bool
}

func (w *World) task(name string, fn func()) *Task {
	t := &Task{}
	t.G = simrt.Spawn(w.proc, name, func() {
		fn()
		t.Done = true
	})
	return t
}

// wait lets simulated time pass until every task is done or lim elapses.
func (w *World) wait(lim int64, ts ...*Task) bool {
	end := simrt.Now() + lim - simrt.Suspended()
	for {
		all := true
		for _, t := range ts {
			if !t.Done && !t.G.Dead() {
				all = false
			}
		}
		if all {
			return true
		}
		if simrt.Now() >= end+simrt.Suspended() {
			return false
		}
		simrt.Sleep(ms)
	}
}

// settle sleeps for d not counting suspensions.
func (w *World) settle(d int64) {
	end := simrt.Now() + d - simrt.Suspended()
	for simrt.Now() < end+simrt.Suspended() {
		simrt.Sleep(end + simrt.Suspended() - simrt.Now())
	}
}

// userPanic is a panic raised by application code on purpose.
type userPanic struct{ id int64 }

// api runs one call into the agent on behalf of the application: it must return, and must not
// panic. prop is charged with violations.
func (w *World) api(name string, fn func()) (ok bool) {
	t0, p0 := simrt.Now(), simrt.S.PausedDone
	defer func() {
		if r := recover(); r != nil {
			if up, is := r.(userPanic); is {
				panic(up)
			}
			w.fail("C06", "panic:"+name, "%s panicked into the application: %v\n%s", name, r, shortStack())
		}
		if d := simrt.Now() - t0 - (simrt.S.PausedTotal - p0); d > apiLimit {
			w.fail("C06", "blocked:"+name, "%s kept the application waiting for %d ms (injected pauses excluded)", name, d/ms)
		}
	}()
	fn()
	return true
}

var apiLimit = 100 * ms

func shortStack() string {
	ls := strings.Split(string(debug.Stack()), "\n")
	var out []string
	for _, l := range ls {
		if strings.Contains(l, "scouterx") && !strings.HasPrefix(l, "\t") {
			if k := strings.LastIndex(l, "/"); k > 0 {
				l = l[k+1:]
			}
			out = append(out, l)
		}
		if len(out) >= 6 {
			break
		}
	}
	return strings.Join(out, " < ")
}

// ---------------------------------------------------------------- collector

type dgram struct {
	T      int64
	Conn   int
	Proc   int
	Remote string
	B      []byte
	Fate   string
	Pz, Pd int64 // stalls begun and over so far
}

type packRec struct {
	T    int64
	Proc int
	Typ  byte
	V    any
	Raw  []byte
	Dg   int
	Rem  string
}

// Collector is the model of the Scouter server: a UDP sink and a TCP command issuer.
type Collector struct {
	gone       map[string]bool // addresses the collector has left
	w          *World
	net        *simnet.Network
	dg         []dgram // every datagram the agent handed to the kernel
	dlv        []dgram // what arrived, in arrival order
	ips        map[string]string
	dnsBad     string            // "", "nx", "timeout", "slow"
	udpStall int64 // writes take until then
	turn int
	udpErr     string            // errno for every write while set
	tcpMode    map[string]string // by addr; "" default: w.tcpDefault
	tcpDef     string            // "up", "refuse", "blackhole", "reset"
	peers      []*peer
	dials      []dialRec
	cmds       []*Cmd
	lat        int64
	noUDPReset bool
	onPeer     func(p *peer)
}

type dialRec struct {
	T    int64
	Addr string
	Mode string
}

func newCollector(w *World) *Collector {
	c := &Collector{w: w, ips: map[string]string{}, tcpMode: map[string]string{}, tcpDef: "up", lat: ms}
	c.net = &simnet.Network{Resolve: c.resolve, UDP: c.udp, Dial: c.dial, Held: func() bool { return c.udpStall > simrt.Now() }}
	return c
}

func (c *Collector) resolve(h string) (string, int64, error) {
	switch c.dnsBad {
	case "nx":
		c.w.faults["dns-nxdomain"]++
		return "", 5 * ms, simnet.ErrDNS(h, false)
	case "timeout":
		c.w.faults["dns-timeout"]++
		return "", 10 * sec, simnet.ErrDNS(h, true)
	case "slow":
		c.w.faults["dns-slow"]++
		if ip, ok := c.address(h); ok {
			return ip, 2 * sec, nil
		}
		return "", 2 * sec, simnet.ErrDNS(h, false)
	}
	if ip, ok := c.address(h); ok {
		return ip, 2 * ms, nil
	}
	return "", 2 * ms, simnet.ErrDNS(h, false)
}

// address is what the host name means, addresses in turn if there are more than one.
func (c *Collector) address(h string) (string, bool) {
	ip, ok := c.ips[h]
	if l := strings.Split(ip, ","); len(l) > 1 {
		c.turn++
		k := c.turn % len(l)
		ip = strings.Join(append(append([]string{}, l[k:]...), l[:k]...), ",")
	}
	return ip, ok
}

func (c *Collector) udp(u *simnet.UDPConn, b []byte) (stall int64, err error) {
	w := c.w
	n := len(c.dg)
	d := dgram{T: simrt.Now(), Conn: u.ID, Proc: u.Proc, Remote: u.Remote(), B: append([]byte(nil), b...)}
	var extra []int64
	deliver := true
	if c.udpErr != "" {
		d.Fate = c.udpErr
		deliver = false
		w.faults["udp-"+c.udpErr]++
		switch c.udpErr {
		case "refused":
			err = os.NewSyscallError("write", syscall.ECONNREFUSED)
		case "nobufs":
			err = os.NewSyscallError("write", syscall.ENOBUFS)
		case "unreach":
			err = os.NewSyscallError("write", syscall.ENETUNREACH)
		case "drop":
		}
	}
	if c.udpStall > simrt.Now() {
		stall = c.udpStall - simrt.Now()
	}
	if c.isGone(d.Remote) {
		deliver = false
		d.Fate += "gone"
	}
	delay := c.lat
	for _, f := range w.p.Net {
		if f.N != n || w.calm {
			continue
		}
		w.faults["udp-"+f.K]++
		d.Fate += f.K
		switch f.K {
		case "drop":
			deliver = false
		case "dup":
			extra = append(extra, delay+f.D)
		case "delay":
			delay += f.D
		case "stall":
			stall = f.D
		case "refused":
			deliver = false
			err = os.NewSyscallError("write", syscall.ECONNREFUSED)
		case "nobufs":
			deliver = false
			err = os.NewSyscallError("write", syscall.ENOBUFS)
		}
	}
	d.Pz, d.Pd = simrt.S.PausedTotal, simrt.S.PausedDone
	c.dg = append(c.dg, d)
	w.note(uint64(d.T), uint64(len(b)), strHash(string(b)))
	if deliver {
		put := func(x int64) {
			simrt.After(x, func() {
				y := d
				y.T = simrt.Now()
				c.dlv = append(c.dlv, y)
			})
		}
		put(delay)
		for _, x := range extra {
			put(x)
		}
	}
	return stall, err
}

// parse decodes a sequence of datagrams; fragments are reassembled by packet id. It reports
// malformed datagrams through bad.
func parseDgrams(ds []dgram, bad func(i int, msg string)) (packs []packRec) {
	if bad == nil { // judged elsewhere
		bad = func(int, string) {}
	}
	type part struct {
		total int
		frag  map[int][]byte
	}
	parts := map[string]*part{}
	whole := func(i int, b []byte, exact bool) {
		r := &rd{b: b}
		typ, v := r.pack()
		if r.err != nil {
			bad(i, r.err.Error())
			return
		}
		if exact && r.i != len(b) {
			bad(i, fmt.Sprintf("%d trailing bytes after a pack of type %d", len(b)-r.i, typ))
			return
		}
		packs = append(packs, packRec{ds[i].T, ds[i].Proc, typ, v, b[:r.i], i, ds[i].Remote})
	}
	for i, d := range ds {
		b := d.B
		if len(b) < 4 {
			bad(i, "short datagram")
			continue
		}
		switch string(b[:4]) {
		case "CAFE":
			whole(i, b[4:], true)
		case "CAFN":
			if len(b) < 6 {
				bad(i, "short CAFN")
				continue
			}
			n := int(int16(binary.BigEndian.Uint16(b[4:])))
			r := &rd{b: b, i: 6}
			for k := 0; k < n && r.err == nil; k++ {
				s := r.i
				typ, v := r.pack()
				if r.err == nil {
					packs = append(packs, packRec{d.T, d.Proc, typ, v, b[s:r.i], i, d.Remote})
				}
			}
			if r.err != nil {
				bad(i, "CAFN: "+r.err.Error())
			} else if r.i != len(b) {
				bad(i, fmt.Sprintf("CAFN announces %d packs but %d bytes follow them", n, len(b)-r.i))
			}
		case "CAFM":
			r := &rd{b: b, i: 4}
			r.i32()
			id := r.i64()
			tot, num := int(r.i16()), int(r.i16())
			data := r.blob()
			if r.err != nil || r.i != len(b) {
				bad(i, fmt.Sprint("CAFM: ", r.err, " trailing ", len(b)-r.i))
				continue
			}
			if tot < 1 || num < 0 || num >= tot {
				bad(i, fmt.Sprintf("CAFM fragment %d of %d", num, tot))
				continue
			}
			key := fmt.Sprint(d.Proc, "/", d.Remote, "/", id)
			p := parts[key]
			if p == nil {
				p = &part{tot, map[int][]byte{}}
				parts[key] = p
			}
			if p.total != tot {
				bad(i, "CAFM: fragments of one packet disagree on the total")
				continue
			}
			if old, ok := p.frag[num]; ok {
				if !bytes.Equal(old, data) {
					bad(i, "CAFM: two different fragments with one id and number")
				}
				continue
			}
			p.frag[num] = data
			if len(p.frag) == tot {
				var all []byte
				for k := 0; k < tot; k++ {
					all = append(all, p.frag[k]...)
				}
				whole(i, all, true)
			}
		default:
			bad(i, fmt.Sprintf("unknown magic %q", b[:4]))
		}
	}
	return
}

// sent decodes everything the agent handed to the kernel.
func (c *Collector) sent(prop string) []packRec {
	return parseDgrams(c.dg, func(i int, m string) {
		c.w.fail(prop, "malformed-datagram", "datagram %d (%d bytes, t=%dms) cannot be decoded: %s", i, len(c.dg[i].B), c.dg[i].T/ms, m)
	})
}

// ---------------------------------------------------------------- TCP side

type peer struct {
	c       *Collector
	tc      *simnet.TCPConn
	buf     []byte
	hello   bool
	hash    int32
	q       []*Cmd // outstanding commands
	closed  bool
	T       int64
	ready   bool
	txAt    int64 // when the last segment scheduled so far arrives
	extra   []byte
	deaf    bool  // the collector's machine is gone without a word
	stalled bool  // its reading was slow for a while
	tainted bool  // a malformed frame was sent on it
	dropped bool  // ended by the collector
	lastT   int64 // when the last byte was delivered to the agent
}

type Cmd struct {
	Name   string
	Stream bool
	T      int64 // fully delivered
	P      *peer
	Done   bool
	DoneT  int64
	Packs  []any
	Types  []byte
	Chunks [][]byte
	Bad    string
	Arg    any
	Raw    []byte
	Param  any
	Idx    int
	Opt    bool // a malformed frame: an empty answer may come, or none
	Opt2   bool
}

func (c *Collector) dial(addr string) (int64, error, func(*simnet.TCPConn)) {
	mode, ok := c.tcpMode[addr]
	if !ok {
		mode = c.tcpDef
	}
	if c.isGone(addr) {
		mode = "blackhole"
	}
	c.dials = append(c.dials, dialRec{simrt.Now(), addr, mode})
	c.w.logf("dial %s -> %s", addr, mode)
	c.w.note(uint64(simrt.Now()), strHash(addr))
	switch mode {
	case "refuse":
		c.w.faults["tcp-refuse"]++
		return ms, os.NewSyscallError("connect", syscall.ECONNREFUSED), nil
	case "blackhole":
		c.w.faults["tcp-blackhole"]++
		return -1, nil, nil
	case "slow":
		c.w.faults["tcp-slow-accept"]++
		return 2500 * ms, nil, c.accept
	case "reset":
		c.w.faults["tcp-reset-on-accept"]++
		return ms, nil, func(tc *simnet.TCPConn) {
			p := &peer{c: c, tc: tc, T: simrt.Now(), closed: true}
			tc.P = p
			simrt.After(2*ms, tc.Reset)
		}
	case "eof":
		c.w.faults["tcp-close-on-accept"]++
		return ms, nil, func(tc *simnet.TCPConn) {
			p := &peer{c: c, tc: tc, T: simrt.Now(), closed: true}
			tc.P = p
			simrt.After(2*ms, tc.PeerClose)
		}
	}
	return ms, nil, c.accept
}

// isGone: the collector's host has left this address.
func (c *Collector) isGone(addr string) bool {
	h, _, _ := net.SplitHostPort(addr)
	return c.gone[h]
}

func (c *Collector) accept(tc *simnet.TCPConn) {
	p := &peer{c: c, tc: tc, T: simrt.Now(), deaf: c.isGone(tc.Addr)}
	tc.P = p
	c.peers = append(c.peers, p)
	if c.onPeer != nil {
		c.onPeer(p)
	}
}

// cur is the newest live connection that has said hello.
func (c *Collector) cur() *peer {
	for i := len(c.peers) - 1; i >= 0; i-- {
		p := c.peers[i]
		if p.hello && !p.closed && !p.tc.IsClosed() {
			return p
		}
	}
	return nil
}

func (p *peer) OnClose(tc *simnet.TCPConn) {
	p.closed = true
	p.c.w.logf("agent closed connection %d", tc.ID)
}

func (p *peer) OnData(tc *simnet.TCPConn, b []byte) {
	if p.deaf {
		return
	}
	p.c.w.note(uint64(simrt.Now()), strHash(string(b)))
	p.buf = append(p.buf, b...)
	if !p.hello {
		if len(p.buf) < 8 {
			return
		}
		if binary.BigEndian.Uint32(p.buf) != 0xCAFE1002 {
			p.c.w.fail("C08", "hello", "the first bytes on a connection are %x, not the agent hello", p.buf[:8])
		}
		p.hash = int32(binary.BigEndian.Uint32(p.buf[4:]))
		p.buf = p.buf[8:]
		p.hello = true
		p.c.w.logf("hello on %d hash %d", tc.ID, p.hash)
	}
	for len(p.q) > 0 {
		if p.q[0].Opt { // a malformed frame is answered with nothing, if at all
			if len(p.buf) == 0 {
				return
			}
			if p.buf[0] == 4 {
				p.buf = p.buf[1:]
			}
			p.q = p.q[1:]
			continue
		}
		if !p.q[0].parse(p) {
			return
		}
		p.q = p.q[1:]
	}
	if len(p.buf) > 0 {
		p.c.w.fail("C08", "unsolicited", "%d bytes sent by the agent answer no command: %x", len(p.buf), head(p.buf, 24))
		p.buf = nil
	}
}

func head(b []byte, n int) []byte {
	if len(b) > n {
		return b[:n]
	}
	return b
}

// parse tries to take cmd's complete answer off the connection.
func (cmd *Cmd) parse(p *peer) bool {
	r := &rd{b: p.buf}
	var packs []any
	var types []byte
	var chunks [][]byte
	for {
		f := r.u8()
		if r.err != nil {
			return false
		}
		if f == 4 {
			break
		}
		if f != 3 {
			cmd.Bad = fmt.Sprintf("flag byte %#x at offset %d of the answer", f, r.i-1)
			break
		}
		if cmd.Stream {
			b := r.blob()
			if r.err != nil {
				return false
			}
			chunks = append(chunks, append([]byte{}, b...))
			continue
		}
		n := r.i32()
		b := r.take(int(n))
		if r.err != nil {
			if n < 0 || n > 1<<26 {
				cmd.Bad = fmt.Sprintf("pack length %d", n)
				break
			}
			return false
		}
		o := &rd{b: b}
		t, v := o.pack()
		if o.err != nil || o.i != len(b) {
			cmd.Bad = fmt.Sprintf("answer pack does not decode: %v (used %d of %d)", o.err, o.i, len(b))
			break
		}
		packs = append(packs, v)
		types = append(types, t)
	}
	cmd.Packs, cmd.Types, cmd.Chunks = packs, types, chunks
	cmd.Raw = append([]byte{}, p.buf[:r.i]...)
	cmd.Done, cmd.DoneT = true, simrt.Now()
	p.c.w.logf("answer to %s: %d packs %d chunks bad=%q", cmd.Name, len(packs), len(chunks), cmd.Bad)
	p.buf = p.buf[r.i:]
	if cmd.Bad != "" {
		p.buf = nil
	}
	return true
}

// frame builds a command frame; a nil param sends an empty map pack.
func frame(cmd string, param map[string]any) []byte {
	o := &wr{}
	o.str(cmd)
	o.u8(10)
	o.mapBody(param)
	f := &wr{}
	f.i32(int32(len(o.b)))
	f.b = append(f.b, o.b...)
	return f.b
}

// send delivers a command over the current connection, cut into segments at the given offsets,
// gap ns apart.
func (p *peer) send(name string, param map[string]any, cuts []int, gap int64) *Cmd {
	cmd := &Cmd{Name: name, P: p, Arg: param, Stream: name == "OBJECT_DUMP_FILE_DETAIL" || name == "OBJECT_DOWNLOAD_HEAP_DUMP"}
	p.c.cmds = append(p.c.cmds, cmd)
	p.q = append(p.q, cmd)
	p.raw(frame(name, param), cuts, gap)
	cmd.T = p.txAt
	return cmd
}

// raw delivers bytes in segments, after everything sent before.
func (p *peer) raw(b []byte, cuts []int, gap int64) {
	t := simrt.Now() + p.c.lat
	if t < p.txAt {
		t = p.txAt
	}
	sort.Ints(cuts)
	last := 0
	put := func(x []byte) {
		if len(x) == 0 {
			return
		}
		y := append([]byte{}, x...)
		simrt.At(t, func() {
			if !p.tc.IsClosed() && !p.deaf {
				p.lastT = simrt.Now()
				p.tc.Deliver(y)
			}
		})
		p.txAt = t
		t += gap
	}
	for _, k := range cuts {
		if k > last && k < len(b) {
			put(b[last:k])
			last = k
		}
	}
	put(b[last:])
}

func (p *peer) drop(how string) {
	p.closed, p.dropped = true, true
	p.c.w.faults["tcp-"+how]++
	switch how {
	case "reset":
		p.tc.Reset()
	case "eof":
		p.tc.PeerClose()
	}
}

// call sends one command on the live connection (waiting up to lim for one) and waits for its answer.
func (c *Collector) call(name string, param map[string]any, lim int64) *Cmd {
	end := simrt.Now() + lim - simrt.Suspended()
	for c.cur() == nil {
		if simrt.Now() >= end+simrt.Suspended() {
			return nil
		}
		simrt.Sleep(10 * ms)
	}
	cmd := c.cur().send(name, param, nil, 0)
	for !cmd.Done && simrt.Now() < end+simrt.Suspended() && !cmd.P.closed {
		simrt.Sleep(2 * ms)
	}
	if !cmd.Done {
		return nil
	}
	return cmd
}

func (cmd *Cmd) m() map[string]any {
	if len(cmd.Packs) == 1 {
		if m, ok := cmd.Packs[0].(mapRec); ok {
			return m.M
		}
	}
	return nil
}

var errInjected = errors.New("application error")
var _ = gonet.IPv4

// setenv adds to the environment of the simulated process (before it boots).
func (w *World) setenv(kv string) { simos.Env = append(simos.Env, kv) }

// ask is call for commands that change nothing: when the connection dies, it asks again.
func (c *Collector) ask(name string, param map[string]any, lim int64) *Cmd {
	for end := simrt.Now() + lim; ; {
		if cmd := c.call(name, param, end-simrt.Now()); cmd != nil || simrt.Now() >= end || c.w.dead() {
			return cmd
		}
		simrt.Sleep(2 * ms)
	}
}

// confAt is where the agent finds its configuration in this run.
func (w *World) confAt() string {
	switch w.p.p("path") {
	case 1:
		w.disk.HMkdir("/etc/scouter")
		w.setenv("SCOUTER_CONFIG=/etc/scouter/agent.conf")
		return "/etc/scouter/agent.conf"
	case 2:
		w.disk.HMkdir("/srv")
		w.setenv("scouter.config=/srv/my.conf")
		return "/srv/my.conf"
	}
	return confPath
}
