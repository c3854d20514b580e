package main

// Random workload generation. All choices come from the plan's seed.

import (
	"fmt"
	"strings"

	"verifsim/simrt"
)

type gen struct {
	r *simrt.Rng
	// weights
	fan                                                            bool // goroutines sharing a transaction also end calls, mark errors and set the name
	go_, par, inherit, late, never, dbl, panics, errs, api, method int
	depth, width                                                   int
	maxSleep                                                       int64
	names                                                          []string
	bigText                                                        bool
	dict                                                           int
	manySteps                                                      int
	http                                                           int
}

func newGen(seed uint64) *gen {
	return &gen{r: simrt.NewRng(simrt.Mix(seed, 3)), go_: 6, par: 2, inherit: 2, late: 1, never: 3, dbl: 15, panics: 3, errs: 10, api: 10, method: 15, depth: 3, width: 5, maxSleep: 400 * ms, http: 40}
}

func (g *gen) pct(n int) bool { return g.r.N(100) < n }
func (g *gen) pick(l ...string) string {
	return l[g.r.N(len(l))]
}

func (g *gen) name(pre string) string {
	if g.pct(7) { // the same text in different roles
		return fmt.Sprintf("common-%d", g.r.N(5))
	}
	if len(g.names) > 0 && g.pct(70) {
		return g.names[g.r.N(len(g.names))]
	}
	n := fmt.Sprintf("/%s/%d", pre, g.r.N(40))
	switch g.r.N(30) {
	case 0:
		n += strings.Repeat("x", g.r.N(300))
	case 1:
		n += "한글-ünïcode"
	case 2:
		n += "?q=1&a=%20"
	}
	return n
}

func (g *gen) text(pre string) string {
	if g.pct(7) {
		return fmt.Sprintf("common-%d", g.r.N(5))
	}
	s := fmt.Sprintf("%s-%d", pre, g.r.N(60))
	switch g.r.N(25) {
	case 0:
		s += strings.Repeat("y", []int{200, 250, 253, 254, 255, 256, 300, 1000}[g.r.N(8)])
	case 1:
		s += "é漢字\x00\x03"
	}
	if g.bigText && g.pct(5) { // 100000 bytes is the longest text sent
		s += strings.Repeat("z", []int{30000, 32767, 32768, 40000, 65535, 65536, 70000, 99000}[g.r.N(8)])
	}
	return s
}

func (g *gen) ip() string {
	switch g.r.N(6) {
	case 0:
		return fmt.Sprintf("%d.%d.%d.%d:%d", g.r.N(256), g.r.N(256), g.r.N(256), g.r.N(256), g.r.N(65536))
	case 1:
		return g.pick("", "localhost", "::1", "[::1]:80", "1.2.3", "300.1.1.1", "1.2.3.4.5", "a.b.c.d")
	}
	return fmt.Sprintf("%d.%d.%d.%d", g.r.N(256), g.r.N(256), g.r.N(256), g.r.N(256))
}

func (g *gen) sleep() Op {
	d := int64(0)
	switch g.r.N(4) {
	case 0:
		d = int64(g.r.N(3)) * ms
	case 1:
		d = int64(g.r.N(50)) * ms
	default:
		if g.maxSleep > 0 {
			d = int64(g.r.U64() % uint64(g.maxSleep))
		}
	}
	return Op{K: "sleep", N: d}
}

// body generates what happens inside a service. own: the goroutine owns the context alone.
func (g *gen) body(depth int, goDepth int) []Op {
	var ops []Op
	n := g.r.N(g.width + 1)
	if g.manySteps > 0 && depth == 0 && g.pct(50) {
		n += g.r.N(g.manySteps)
	}
	for i := 0; i < n; i++ {
		x := g.r.N(100)
		switch {
		case x < g.go_ && goDepth < 2:
			ops = append(ops, Op{K: "go", S: g.name("go"), Sub: g.body(depth+1, goDepth+1)})
		case x < g.go_+g.method:
			o := Op{K: g.pick("method", "method", "methodp", "smethod"), S: g.text("fn")}
			if o.K != "method" && g.pct(60) {
				for k := g.r.N(3); k >= 0; k-- {
					o.L = append(o.L, g.pick("", "", "", "", "nil=", "int=", "err=", "nilptr=", "list=")+g.text("p"))
				}
			}
			if o.K == "smethod" {
				o.L = nil
			}
			if depth < g.depth {
				o.Sub = g.body(depth+1, goDepth+1)
			}
			if i == n-1 && g.pct(10) {
				o.M = 3
				o.Sub = nil
			}
			ops = append(ops, o)
		case x < g.go_+g.method+g.api:
			o := Op{K: "api", S: g.text("api"), U: g.pick("", "", "10.0.0.7:80", "db"), M: g.propag()}
			if g.pct(g.errs) {
				o.N = g.failure()
			}
			if depth < g.depth {
				o.Sub = g.body(depth+1, 9)
			}
			ops = append(ops, o)
		case x < g.go_+g.method+g.api+g.par:
			// one goroutine, or a fan-out, working with the same context
			late := int64(0)
			if g.pct(g.late * 10) {
				late = 1
			}
			fan := 1
			if g.fan && g.pct(60) {
				fan = 2 + g.r.N(3)
			}
			for ; fan > 0; fan-- {
				ops = append(ops, Op{K: "par", Sub: g.flat(1 + g.r.N(4)), N: late})
			}
		case x < g.go_+g.method+g.api+g.par+g.inherit && (depth == 0 || depth == goDepth):
			ops = append(ops, Op{K: "inherit", Sub: g.inherited(goDepth)})
		default:
			ops = append(ops, g.leaf())
		}
	}
	if g.pct(g.panics) {
		if goDepth == 0 {
			ops = append(ops, Op{K: "panic", N: int64(g.r.N(1000))})
		}
	}
	if depth == goDepth && goDepth > 0 && g.pct(6) || goDepth == 0 && depth == 0 && g.pct(1) {
		ops = append(ops, Op{K: "goexit"})
	}
	return ops
}

func (g *gen) leaf() Op {
	if g.dict > 0 && g.pct(g.dict) {
		return Op{K: "dict", U: g.pick("service", "object", "referer", "ua", "method", "apicall", "error", "login", "desc", "stackelem", "hmsg"), S: g.text("d")}
	}
	switch g.r.N(12) {
	case 0, 1, 2:
		return g.sleep()
	case 3, 4, 5:
		return Op{K: "msg", S: g.text("msg")}
	case 6:
		return Op{K: "hmsg", S: g.text("hm"), N: int64(int32(g.r.U64())) >> uint(g.r.N(32)), M: int64(g.r.N(100000))}
	case 7:
		o := Op{K: "pmsg", S: g.text("pm"), N: int64(g.r.N(5)), M: int64(g.r.N(1000))}
		for k := g.r.N(4); k > 0; k-- {
			o.L = append(o.L, g.text("a"))
		}
		return o
	case 8:
		if g.pct(g.errs * 3) {
			return Op{K: g.pick("err", "err", "errf"), S: g.text("error")}
		}
		return Op{K: "msg", S: g.text("msg")}
	case 9:
		if g.pct(30) {
			return Op{K: "name", S: g.name("renamed")}
		}
		return g.sleep()
	case 10:
		if g.pct(20) {
			return Op{K: "renest", S: "nested", N: int64(g.r.N(2))}
		}
		if g.pct(20) {
			return Op{K: "stream"}
		}
		return Op{K: "msg", S: g.text("msg")}
	default:
		if g.pct(20) {
			o := Op{K: "texts", S: g.text("login"), U: g.text("desc")}
			for k := 0; k < 5; k++ {
				o.L = append(o.L, g.text("t"))
			}
			if g.pct(8) { // long ones
				for k := range o.L {
					o.L[k] += strings.Repeat("w", []int{0, 2000, 9000, 12000, 33000}[g.r.N(5)])
				}
			}
			return o
		}
		return Op{K: "step", S: g.text("st")}
	}
}

// inherited is what an inheriting service does.
func (g *gen) inherited(goDepth int) []Op {
	ops := g.flat(g.r.N(4))
	if g.pct(40) {
		ops = append(ops, Op{K: "method", S: g.text("im"), Sub: g.flat(g.r.N(3))})
	}
	if g.pct(25) && goDepth < 2 && g.go_ > 0 {
		ops = append(ops, Op{K: "go", S: g.name("go"), Sub: g.body(goDepth+1, goDepth+1)})
	}
	if g.pct(25) {
		ops = append(ops, Op{K: "inherit", Sub: g.inherited(goDepth)})
	}
	return append(ops, g.flat(g.r.N(2))...)
}

func (g *gen) flat(n int) []Op {
	var ops []Op
	for i := 0; i < n; i++ {
		o := g.leaf()
		if g.fan {
			if g.pct(40) {
				o = Op{K: "api", S: g.text("api"), M: g.propag()}
				if g.pct(g.errs) {
					o.N = g.failure()
				}
				if g.pct(30) {
					o.Sub = []Op{g.sleep()}
				}
			}
			if o.K == "err" || o.K == "errf" || o.K == "name" {
				ops = append(ops, o)
				continue
			}
		}
		if o.K == "err" || o.K == "errf" || o.K == "name" || o.K == "texts" || o.K == "stream" || o.K == "renest" {
			o = Op{K: "msg", S: g.text("msg")}
		}
		ops = append(ops, o)
	}
	return ops
}

func (g *gen) service(goDepth int) Op {
	var o Op
	if g.pct(g.http) {
		o = Op{K: "http", S: g.name("web"), U: g.pick("GET", "POST", "PUT"), N: g.status()}
		if g.pct(50) {
			o.L = append(o.L, "User-Agent:"+g.text("ua"))
		}
		if g.pct(50) {
			o.L = append(o.L, "Referer:"+g.text("ref"))
		}
		if g.pct(30) {
			o.L = append(o.L, "X-Forwarded-For:"+g.ip())
		}
		if g.pct(30) {
			o.L = append(o.L, "X-A:"+g.text("hv"), "X-B:"+g.text("hv"))
			for i := g.r.N(4); i > 0; i-- { // more values of one header, in any order
				o.L = append(o.L, g.pick("X-A:", "X-B:", "User-Agent:", "Referer:")+g.text("hv"))
			}
		}
		if g.pct(70) {
			o.L = append(o.L, "@"+g.ip())
		}
	} else {
		o = Op{K: "svc", S: g.name("app"), U: g.ip()}
	}
	o.Sub = g.body(0, goDepth)
	x := g.r.N(100)
	switch {
	case x < g.never:
		o.M = 3
	case x < g.never+g.dbl:
		o.M = int64(1 + g.r.N(2))
	}
	return o
}

func (g *gen) tasks(n, svcs int) [][]Op {
	var ts [][]Op
	for i := 0; i < n; i++ {
		var ops []Op
		for k := g.r.N(svcs) + 1; k > 0; k-- {
			if g.pct(20) {
				ops = append(ops, g.sleep())
			}
			if g.pct(3) {
				ops = append(ops, Op{K: "untraced", N: int64(g.r.N(2))})
			}
			if g.pct(5) {
				ops = append(ops, Op{K: "go", S: g.name("untracedgo"), Sub: []Op{g.sleep()}})
			}
			ops = append(ops, g.service(0))
		}
		ts = append(ts, ops)
	}
	return ts
}

// sched picks the scheduling mode of a run. heavy runs get more deviations.
func (g *gen) sched() simrt.SchedCfg {
	switch g.r.N(10) {
	case 0:
		return simrt.SchedCfg{Mode: "sticky"}
	case 1, 2, 3:
		return simrt.SchedCfg{Mode: "rand", P: []float64{0.5, 0.2, 0.05, 0.01}[g.r.N(4)]}
	case 4, 5:
		return simrt.SchedCfg{Mode: "rand", P: []float64{0.05, 0.01}[g.r.N(2)], PauseP: 0.1, PauseMax: []int64{ms, 20 * ms, 500 * ms}[g.r.N(3)]}
	case 6, 7:
		return simrt.SchedCfg{Mode: "sites", P: 0.5, SiteFrac: []float64{0.02, 0.1, 0.3}[g.r.N(3)], PauseP: 0.2, PauseMax: []int64{ms, 20 * ms, 300 * ms}[g.r.N(3)]}
	default:
		return simrt.SchedCfg{Mode: "pct", PctPoints: 1 + g.r.N(8), PctLen: []int{3000, 20000, 100000}[g.r.N(3)], PauseP: float64(g.r.N(2)) * 0.3, PauseMax: 100 * ms}
	}
}

const epoch0 = int64(1_700_000_000) * sec

func basePlan(prop, scen string, seed uint64, g *gen) *Plan {
	p := &Plan{Prop: prop, Scen: scen, Seed: seed, Sched: g.sched(), Wall: epoch0 + int64(g.r.N(86400))*sec + int64(g.r.N(1000000000)),
		Conf: map[string]string{"net_collector_ip": "10.0.0.1"}, P: map[string]int64{}}
	if b := seed % 11; b < 3 {
		p.P["goid"] = []int64{32_700, 2_147_483_600, 5_000_000_000}[b]
	}
	return p
}

// status is what a web handler answers; 0 nothing.
func (g *gen) status() int64 {
	if g.pct(25) {
		return int64(100 + g.r.N(900))
	}
	return []int64{0, 200, 200, 404, 500}[g.r.N(5)]
}

// propag chooses how an outgoing call is made: 0 without propagation, 1 on a new request, 2 on one
// without a header map, 3 on one sent before (or forwarded), 4 with no request at all
func (g *gen) propag() int64 {
	if g.pct(50) {
		return 0
	}
	return int64(max(1, g.r.N(8)-3))
}

// failure chooses the error a call fails with: 1 an ordinary one, 2 a nil pointer, whose Error method fails
func (g *gen) failure() int64 {
	if g.pct(10) {
		return 2
	}
	return 1
}
