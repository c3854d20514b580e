// Package simrt is the deterministic simulation runtime: a cooperative scheduler over real
// goroutines that are parked and released one at a time, a discrete-event clock, and the
// primitives (locks, channels, timers, maps) the rewritten agent code uses.
package simrt

import (
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
)

// ---------------------------------------------------------------- PRNG

type Rng struct{ s uint64 }

func NewRng(seed uint64) *Rng { return &Rng{seed} }
func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (r *Rng) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}
func (r *Rng) Range(a, b int) int { return a + r.N(b-a+1) }
func (r *Rng) F() float64         { return float64(r.U64()>>11) / (1 << 53) }
func (r *Rng) P(p float64) bool   { return r.F() < p }
func Mix(a, b uint64) uint64 {
	r := Rng{a ^ (b * 0xd1342543de82ef95)}
	r.U64()
	return r.U64()
}

// ---------------------------------------------------------------- goroutines

const (
	stRunnable = iota
	stRunning
	stBlocked
	stDead
)

type G struct {
	ID       int
	Proc     int // 0: harness; >0: agent incarnation
	Name     string
	state    int
	wake     chan struct{}
	killed   bool
	dying    bool
	wseq     uint64 // wait sequence, invalidates stale timers
	why      string
	at       uint32 // where it last gave up the processor
	site     int
	prio     int
	Paused   int64 // ns of injected pauses suffered so far
	chv      any
	chok     bool
	chidx    int
	timedOut bool
	Started  bool
	fn       func()
}

// Dev is one deviation of the schedule from the default (run the current goroutine until it
// blocks, then the one that has been ready longest).
type Dev struct {
	Step  int64 `json:"step"`
	G     int   `json:"g"`               // switch to this goroutine
	Pause int64 `json:"pause,omitempty"` // or: deschedule the current one for this long (ns)
	Site  int   `json:"site,omitempty"`  // where the current goroutine was (information only)
}

type SchedCfg struct {
	Mode      string  `json:"mode"` // "replay", "sticky", "rand", "pct", "sites"
	P         float64 `json:"p,omitempty"`
	SiteFrac  float64 `json:"site_frac,omitempty"`
	PauseP    float64 `json:"pause_p,omitempty"` // given a preemption: pause instead of plain switch
	PauseMax  int64   `json:"pause_max,omitempty"`
	PctPoints int     `json:"pct_points,omitempty"`
	PctLen    int     `json:"pct_len,omitempty"`
	Seed      uint64  `json:"seed,omitempty"` // scheduler's own seed, if not the run's
}

type timerEv struct {
	at   int64
	seq  uint64
	fn   func()
	idx  int
	dead bool
}

type Crash struct {
	Proc  int
	Kind  string // "panic", "fatal", "exit"
	Msg   string
	Stack string
	G     string
	Time  int64
	Val   any // what the goroutine panicked with
}

type Sched struct {
	AllocMax    uint64 // larger dynamic allocations kill the process; 0: 128 MB
	cfg         SchedCfg
	rng         *Rng // schedule decisions only
	misc        *Rng // map order, select choice
	gs          []*G
	runq        []*G
	now         int64 // monotonic ns since run start
	wallOff     int64 // wall clock offset: wall = now + wallOff
	timers      []*timerEv
	tseq        uint64
	Step        int64
	next        int64 // next step at which a preemption is considered
	devs        []Dev
	replay      []Dev
	rpos        int
	siteHot     []bool
	stopping    bool
	done        chan struct{}
	spin        int64 // steps since the clock last moved
	MaxSpin     int64
	MaxStep     int64
	Crashes     []Crash
	EndWhy      string
	eseq        int64
	SwHash      uint64
	calm        bool
	Switches    int64
	Pauses      int64
	PausedTotal int64 // of all stalls begun
	PausedDone  int64 // of all stalls over
	suspended   int64
	pairs       map[uint64]struct{}
	OnCrash     func(c Crash)
	lastIdle    int64
	pctAt       map[int64]bool
	pctPts      []int64
	Log         []string
	LogOn       bool
	livelock    bool
}

var S *Sched
var cur *G
var budget int64 = 1 << 62 // yields until the scheduler must look

func Cur() *G { return cur }

// Run executes fn as the harness director under a fresh scheduler.
func Run(seed uint64, cfg SchedCfg, replay []Dev, wallStart int64, maxStep, maxSpin int64, fn func()) *Sched {
	ss := seed
	if cfg.Seed != 0 {
		ss = cfg.Seed
	}
	s := &Sched{cfg: cfg, rng: NewRng(Mix(ss, 11)), misc: NewRng(Mix(seed, 12)), done: make(chan struct{}),
		MaxStep: maxStep, MaxSpin: maxSpin, wallOff: wallStart, replay: replay, pairs: map[uint64]struct{}{}}
	sort.SliceStable(s.replay, func(i, j int) bool { return s.replay[i].Step < s.replay[j].Step })
	S = s
	resetMaps()
	resetChans()
	if cfg.Mode == "sites" {
		n := NumSites + 1
		s.siteHot = make([]bool, n)
		for i := range s.siteHot {
			s.siteHot[i] = s.rng.P(cfg.SiteFrac)
		}
	}
	if cfg.Mode == "pct" {
		for i := 0; i < cfg.PctPoints; i++ {
			s.pctPts = append(s.pctPts, int64(s.rng.N(cfg.PctLen)+1))
		}
		sort.Slice(s.pctPts, func(i, j int) bool { return s.pctPts[i] < s.pctPts[j] })
	}
	g := s.newG(0, "director", func() {
		fn()
		s.finish("done")
	})
	cur = g
	g.state = stRunning
	s.removeRunq(g)
	s.schedNext()
	go g.main()
	g.wake <- struct{}{}
	<-s.done
	// kill everything left
	s.stopping = true
	for _, x := range s.gs {
		if x.state != stDead {
			s.killG(x)
		}
	}
	cur = nil
	budget = 1 << 62
	return s
}

func (s *Sched) newG(proc int, name string, fn func()) *G {
	g := &G{ID: len(s.gs), Proc: proc, Name: name, wake: make(chan struct{}), state: stRunnable, fn: fn}
	if s.cfg.Mode == "pct" {
		g.prio = s.rng.N(1 << 20)
	}
	s.gs = append(s.gs, g)
	s.runq = append(s.runq, g)
	return g
}

// GoidBase is added to the ids goroutines show, which grow without bound in a real process.
var GoidBase int64

func (g *G) Goid() int64 { return GoidBase + int64(g.ID) }

func (g *G) main() {
	<-g.wake
	defer g.exit()
	if g.killed {
		return
	}
	g.Started = true
	g.fn()
}

// runs deferred at the root of every simulated goroutine
func (g *G) exit() {
	s := S
	if r := recover(); r != nil && !g.killed {
		s.recordCrash(g, "panic", fmt.Sprint(r), string(debug.Stack()), r)
	}
	g.state = stDead
	if !g.dying && (g.killed || s.stopping) {
		killAck <- struct{}{}
		return
	}
	s.switchAway(g, true)
}

var killAck = make(chan struct{})

// killG makes a parked goroutine unwind. Caller holds control.
func (s *Sched) killG(x *G) {
	if x.state == stDead {
		return
	}
	x.killed = true
	save := cur
	sb := budget
	cur = x
	budget = 1 // every yield looks
	x.wseq++
	s.removeRunq(x)
	x.wake <- struct{}{}
	<-killAck
	cur = save
	budget = sb
}

// KillProc kills every goroutine of the given proc; the caller must belong to another proc,
// or is unwound itself.
func KillProc(proc int) {
	s := S
	for i := 0; i < len(s.gs); i++ {
		x := s.gs[i]
		if x.Proc == proc && x.state != stDead && x != cur {
			s.killG(x)
		}
	}
	s.runqFilter()
	s.schedNext()
	if cur.Proc == proc {
		cur.die()
	}
}

func (s *Sched) runqFilter() {
	out := s.runq[:0]
	for _, g := range s.runq {
		if g.state == stRunnable {
			out = append(out, g)
		}
	}
	s.runq = out
}

func (s *Sched) removeRunq(g *G) {
	for i, x := range s.runq {
		if x == g {
			s.runq = append(s.runq[:i], s.runq[i+1:]...)
			return
		}
	}
}

func (s *Sched) recordCrash(g *G, kind, msg, stack string, val any) {
	c := Crash{Val: val, Proc: g.Proc, Kind: kind, Msg: msg, Stack: trimStack(stack), G: g.Name, Time: s.now}
	s.Crashes = append(s.Crashes, c)
	if g.Proc == 0 {
		fmt.Fprintf(os.Stderr, "HARNESS PANIC: %s\n%s\n", msg, stack)
		os.Exit(4)
	}
	if s.OnCrash != nil {
		s.OnCrash(c)
	}
	// the process dies: all its goroutines are gone
	for i := 0; i < len(s.gs); i++ {
		x := s.gs[i]
		if x.Proc == g.Proc && x.state != stDead && x != g {
			s.killG(x)
		}
	}
	s.runqFilter()
}

func trimStack(st string) string {
	lines := strings.Split(st, "\n")
	var out []string
	for i := 0; i+1 < len(lines); i++ {
		l := lines[i]
		if strings.Contains(l, "scouter") && !strings.HasPrefix(l, "\t") {
			fn := l
			if k := strings.LastIndex(fn, "("); k > 0 {
				fn = fn[:k]
			}
			if k := strings.LastIndex(fn, "/"); k > 0 {
				fn = fn[k+1:]
			}
			out = append(out, fn)
		}
		if len(out) >= 8 {
			break
		}
	}
	return strings.Join(out, " < ")
}

// ProcExit models os.Exit / log.Fatal / an unrecoverable runtime error in the host process.
func ProcExit(kind, msg string) {
	g := cur
	S.recordCrash(g, kind, msg, string(debug.Stack()), nil)
	g.die()
}

// die unwinds the current goroutine, whose process is gone.
func (g *G) die() {
	g.killed, g.dying = true, true
	budget = 1
	runtime.Goexit()
}

func Fatal(msg string) { ProcExit("fatal", msg) }

func (s *Sched) finish(why string) { s.endFrom(cur, why) }

// ---------------------------------------------------------------- yielding

// Y is inserted before every statement of the rewritten code.
func Y(site int) {
	budget--
	if budget > 0 {
		return
	}
	yieldSlow(site)
}

func yieldSlow(site int) {
	g := cur
	if g == nil {
		budget = 1 << 62
		return
	}
	if g.killed {
		budget = 1
		runtime.Goexit()
	}
	S.atYield(g, site)
}

// steps are counted lazily: s.Step is the step at which the budget was last set
func (s *Sched) atYield(g *G, site int) {
	n := s.next - s.Step
	s.Step = s.next
	s.spin += n
	if s.Step >= s.MaxStep {
		s.finish("maxstep")
	}
	if s.spin > s.MaxSpin {
		s.livelock = true
		s.finish("livelock: goroutine " + g.Name + " at site " + SiteName(site))
	}
	g.site = site
	if s.cfg.Mode == "replay" {
		for s.rpos < len(s.replay) && s.replay[s.rpos].Step < s.Step {
			s.rpos++
		}
		if s.rpos < len(s.replay) && s.replay[s.rpos].Step == s.Step {
			d := s.replay[s.rpos]
			s.rpos++
			if d.Pause > 0 {
				if g.Proc > 0 {
					s.pause(g, d.Pause)
					return
				}
			} else if d.G < len(s.gs) && s.gs[d.G] != g && s.gs[d.G].state == stRunnable {
				s.devs = append(s.devs, Dev{Step: s.Step, G: d.G, Site: site})
				s.preemptTo(g, s.gs[d.G], site)
				return
			}
		}
		s.schedNext()
		return
	}
	if g.Proc == 0 {
		s.schedNext()
		return
	}
	// random modes
	switch s.cfg.Mode {
	case "sites":
		if site >= len(s.siteHot) || site < 0 || !s.siteHot[site] || !s.rng.P(s.cfg.P) {
			s.schedNext()
			return
		}
	case "pct":
		// lower the current goroutine's priority at a change point
		g.prio = -int(s.Step & 0xfffffff)
		best := g
		for _, x := range s.runq {
			if x.prio > best.prio {
				best = x
			}
		}
		if s.cfg.PauseP > 0 && s.mayPause() && s.rng.P(s.cfg.PauseP) {
			s.pause(g, s.randPause())
			return
		}
		if best != g {
			s.devs = append(s.devs, Dev{Step: s.Step, G: best.ID, Site: site})
			s.preemptTo(g, best, site)
			return
		}
		s.schedNext()
		return
	}
	if s.cfg.PauseP > 0 && s.mayPause() && s.rng.P(s.cfg.PauseP) {
		s.pause(g, s.randPause())
		return
	}
	if len(s.runq) == 0 {
		s.schedNext()
		return
	}
	x := s.runq[s.rng.N(len(s.runq))]
	s.devs = append(s.devs, Dev{Step: s.Step, G: x.ID, Site: site})
	s.preemptTo(g, x, site)
}

// maxPaused bounds the injected stalls of one run, so that they cannot amount to starvation.
const maxPaused = int64(20e9)

func (s *Sched) mayPause() bool { return !s.calm && s.PausedTotal-s.suspended < maxPaused }

// Suspend stops the whole machine for d, as a suspended virtual machine or container is: what fell
// due meanwhile falls due at once afterwards.
func Suspend(d int64) {
	s := S
	s.now += d
	s.spin = 0
	s.suspended += d
	s.PausedTotal += d
	s.PausedDone += d
	for len(s.timers) > 0 && s.timers[0].at <= s.now {
		ev := s.timers[0]
		s.heapPop()
		if !ev.dead {
			ev.fn()
		}
	}
}

// Suspended is for how long the machine has been suspended in all.
func Suspended() int64 { return S.suspended }

// Calm ends the injection of stalls: from here on goroutines only take turns.
func Calm() { S.calm = true }

func (s *Sched) randPause() int64 {
	// log-uniform between 10us and PauseMax
	lo, hi := int64(10_000), s.cfg.PauseMax
	if hi < lo {
		hi = lo
	}
	d := lo
	for d < hi && s.rng.P(0.85) {
		d *= 2
	}
	if d > hi {
		d = hi
	}
	return d + int64(s.rng.N(1000))*1000
}

func (s *Sched) pause(g *G, d int64) {
	s.devs = append(s.devs, Dev{Step: s.Step, G: -1, Pause: d, Site: g.site})
	s.Pauses++
	s.PausedTotal += d
	g.Paused += d
	s.parkUntil(g, s.now+d, "paused")
	s.PausedDone += d
	g.at = 0
}

// schedNext chooses the step at which the scheduler looks again.
func (s *Sched) schedNext() {
	var n int64
	lim := s.MaxStep - s.Step
	if m := s.MaxSpin - s.spin + 2; m < lim {
		lim = m
	}
	if lim < 1 {
		lim = 1
	}
	switch s.cfg.Mode {
	case "replay":
		for s.rpos < len(s.replay) && s.replay[s.rpos].Step <= s.Step {
			s.rpos++
		}
		n = lim
		if s.rpos < len(s.replay) {
			if d := s.replay[s.rpos].Step - s.Step; d < n {
				n = d
			}
		}
	case "rand":
		n = s.geom(s.cfg.P)
	case "sites":
		n = 1
	case "pct":
		n = lim
		for len(s.pctPts) > 0 && s.pctPts[0] <= s.Step {
			s.pctPts = s.pctPts[1:]
		}
		if len(s.pctPts) > 0 {
			if d := s.pctPts[0] - s.Step; d < n {
				n = d
			}
		}
	default:
		n = lim
	}
	if n > lim {
		n = lim
	}
	if n < 1 {
		n = 1
	}
	s.next = s.Step + n
	budget = n
}

func (s *Sched) geom(p float64) int64 {
	if p <= 0 {
		return 1 << 40
	}
	// uniform on [1, 2/p): same mean as geometric, cheaper and bounded
	m := int(2 / p)
	if m < 1 {
		m = 1
	}
	return int64(1 + s.rng.N(m))
}

// syncStep folds the unconsumed budget into Step (called at blocking points).
func (s *Sched) syncStep() {
	used := (s.next - s.Step) - budget
	s.Step += used
	s.spin += used
	s.next = s.Step
	budget = 0
}

// whyCode maps a reason for blocking to a point for the switch-pair measure.
func whyCode(why string) uint32 {
	h := uint32(2166136261)
	for i := 0; i < len(why); i++ {
		h = (h ^ uint32(why[i])) * 16777619
	}
	return h | 1<<31
}

func (s *Sched) preemptTo(g, x *G, site int) {
	g.at = uint32(site) + 1
	g.state = stRunnable
	s.runq = append(s.runq, g)
	s.handoff(g, x)
}

func (s *Sched) note(from, to *G) {
	s.Switches++
	k := uint64(from.at)<<32 | uint64(to.at)
	s.SwHash = Mix(s.SwHash, k^uint64(to.ID)<<20^uint64(s.Step)<<44)
	s.pairs[k] = struct{}{}
}

func (s *Sched) handoff(g, x *G) {
	s.note(g, x)
	s.removeRunq(x)
	x.state = stRunning
	cur = x
	s.schedNext()
	if s.LogOn {
		s.Log = append(s.Log, fmt.Sprintf("t=%d step=%d %s#%d@%s -> %s#%d", s.now, s.Step, g.Name, g.ID, SiteName(g.site), x.Name, x.ID))
	}
	x.wake <- struct{}{}
	if g.state == stDead {
		return
	}
	<-g.wake
	if g.killed {
		budget = 1
		runtime.Goexit()
	}
}

// switchAway: the current goroutine cannot continue (blocked or dead); run someone else.
func (s *Sched) switchAway(g *G, dead bool) {
	s.syncStep()
	s.Step++ // a blocking point is a decision of its own
	s.spin++
	if s.Step >= s.MaxStep {
		s.endFrom(g, "maxstep")
		return
	}
	if s.spin > s.MaxSpin {
		s.livelock = true
		s.endFrom(g, "livelock: goroutine "+g.Name+" at site "+SiteName(g.site))
		return
	}
	for len(s.runq) == 0 {
		if !s.advance() {
			s.endFrom(g, "deadlock")
			return
		}
	}
	x := s.pickBlocked()
	if x == g {
		// woken by its own timer without anyone else running
		s.removeRunq(g)
		g.state = stRunning
		cur = g
		s.schedNext()
		return
	}
	s.handoff(g, x)
}

func (s *Sched) endFrom(g *G, why string) {
	if s.EndWhy == "" {
		s.EndWhy = why
	}
	s.stopping = true
	if g.state == stDead {
		close(s.done)
		return
	}
	close(s.done)
	<-g.wake // killed by the controller
	budget = 1
	runtime.Goexit()
}

func (s *Sched) pickBlocked() *G {
	if len(s.runq) == 1 {
		return s.runq[0]
	}
	switch s.cfg.Mode {
	case "replay":
		for s.rpos < len(s.replay) && s.replay[s.rpos].Step < s.Step {
			s.rpos++
		}
		if s.rpos < len(s.replay) && s.replay[s.rpos].Step == s.Step {
			d := s.replay[s.rpos]
			s.rpos++
			if d.G >= 0 && d.G < len(s.gs) && s.gs[d.G].state == stRunnable {
				s.devs = append(s.devs, d)
				return s.gs[d.G]
			}
		}
		return s.runq[0]
	case "pct":
		best := s.runq[0]
		for _, x := range s.runq {
			if x.prio > best.prio {
				best = x
			}
		}
		if best != s.runq[0] {
			s.devs = append(s.devs, Dev{Step: s.Step, G: best.ID})
		}
		return best
	}
	i := s.rng.N(len(s.runq))
	if i != 0 {
		s.devs = append(s.devs, Dev{Step: s.Step, G: s.runq[i].ID})
	}
	return s.runq[i]
}

// advance moves the clock to the next event and runs it.
func (s *Sched) advance() bool {
	for len(s.timers) > 0 {
		ev := s.timers[0]
		s.heapPop()
		if ev.dead {
			continue
		}
		if ev.at > s.now {
			s.now = ev.at
			s.spin = 0
		}
		ev.fn()
		return true
	}
	return false
}

func (s *Sched) heapLess(i, j int) bool {
	a, b := s.timers[i], s.timers[j]
	if a.at != b.at {
		return a.at < b.at
	}
	return a.seq < b.seq
}
func (s *Sched) heapPush(e *timerEv) {
	s.timers = append(s.timers, e)
	i := len(s.timers) - 1
	for i > 0 {
		p := (i - 1) / 2
		if !s.heapLess(i, p) {
			break
		}
		s.timers[i], s.timers[p] = s.timers[p], s.timers[i]
		i = p
	}
}
func (s *Sched) heapPop() {
	n := len(s.timers) - 1
	s.timers[0] = s.timers[n]
	s.timers[n] = nil
	s.timers = s.timers[:n]
	i := 0
	for {
		l := 2*i + 1
		if l >= n {
			break
		}
		if l+1 < n && s.heapLess(l+1, l) {
			l++
		}
		if !s.heapLess(l, i) {
			break
		}
		s.timers[i], s.timers[l] = s.timers[l], s.timers[i]
		i = l
	}
}

// At schedules fn (must not block) at absolute simulated time t.
func At(t int64, fn func()) *timerEv {
	s := S
	if t < s.now {
		t = s.now
	}
	s.tseq++
	e := &timerEv{at: t, seq: s.tseq, fn: fn}
	s.heapPush(e)
	return e
}
func After(d int64, fn func()) *timerEv { return At(S.now+d, fn) }
func (e *timerEv) Cancel() bool {
	was := !e.dead
	e.dead = true
	return was
}

// ---------------------------------------------------------------- parking

func (s *Sched) ready(g *G) {
	if g.state != stBlocked || g.killed { // a killed goroutine only unwinds
		return
	}
	g.state = stRunnable
	g.wseq++
	s.runq = append(s.runq, g)
}

// park blocks the current goroutine until ready(g).
func (s *Sched) park(why string) {
	g := cur
	if g.killed {
		runtime.Goexit()
	}
	g.state = stBlocked
	g.why = why
	g.at = whyCode(why)
	s.switchAway(g, false)
}

func (s *Sched) parkUntil(g *G, t int64, why string) {
	g.state = stBlocked
	g.why = why
	g.at = whyCode(why)
	g.wseq++
	w := g.wseq
	At(t, func() {
		if g.wseq == w && g.state == stBlocked {
			s.ready(g)
		}
	})
	s.switchAway(g, false)
}

func chkKilled() {
	if cur != nil && cur.killed {
		budget = 1
		runtime.Goexit()
	}
}

// inSim reports whether the caller runs as a simulated goroutine.
func inSim() bool { return cur != nil }

// Sleep blocks the current goroutine for d simulated ns.
func Sleep(d int64) {
	chkKilled()
	if d <= 0 {
		Y(0)
		return
	}
	S.parkUntil(cur, S.now+d, "sleep")
}

// Park/Ready for shadow packages: a wait object.
type Waiter struct{ g *G }

func NewWaiter() *Waiter { return &Waiter{cur} }
func (w *Waiter) Park(why string) {
	chkKilled()
	S.park(why)
}

// ParkUntil parks until Wake or the absolute time t (t<=0: no limit). True if woken.
func (w *Waiter) ParkUntil(why string, t int64) bool {
	chkKilled()
	g := cur
	g.timedOut = false
	g.state = stBlocked
	g.why = why
	g.at = whyCode(why)
	g.wseq++
	if t > 0 {
		q := g.wseq
		At(t, func() {
			if g.wseq == q && g.state == stBlocked {
				g.timedOut = true
				S.ready(g)
			}
		})
	}
	S.switchAway(g, false)
	return !g.timedOut
}
func (w *Waiter) Wake() { S.ready(w.g) }

// Go starts a goroutine in the current goroutine's proc.
func Go(site int, fn func()) {
	if cur == nil {
		panic("simrt.Go outside the simulation")
	}
	chkKilled()
	g := S.newG(cur.Proc, "go@"+SiteName(site), fn)
	g.site = site
	go g.main()
	Y(site)
}

// Spawn starts a named goroutine in the given proc.
func Spawn(proc int, name string, fn func()) *G {
	g := S.newG(proc, name, fn)
	go g.main()
	return g
}

func (g *G) Dead() bool    { return g.state == stDead }
func (g *G) Where() string { return g.why + "@" + SiteName(g.site) }

// Now is the simulated monotonic time in ns; Wall the simulated wall clock (unix ns).
func Now() int64                            { return S.now }
func Wall() int64                           { return S.now + S.wallOff }
func JumpWall(d int64)                      { S.wallOff += d }
func Seq() int64                            { S.eseq++; return S.eseq }
func Livelock() bool                        { return S.livelock }
func Devs() []Dev                           { return S.devs }
func (s *Sched) GetDevs() []Dev             { return s.devs }
func (s *Sched) NowNS() int64               { return s.now }
func (s *Sched) Pairs() map[uint64]struct{} { return s.pairs }
func (s *Sched) IsLivelock() bool           { return s.livelock }
func Misc() *Rng                            { return S.misc }
func GoCount(proc int) int {
	n := 0
	for _, g := range S.gs {
		if g.Proc == proc && g.state != stDead {
			n++
		}
	}
	return n
}

// Procs lists live goroutines of a proc (diagnostics).
func Goroutines(proc int) []*G {
	var out []*G
	for _, g := range S.gs {
		if g.Proc == proc && g.state != stDead {
			out = append(out, g)
		}
	}
	return out
}

var SiteTable []string
var NumSites int

func SiteName(i int) string {
	if i >= 0 && i < len(SiteTable) {
		return SiteTable[i]
	}
	return fmt.Sprint(i)
}
