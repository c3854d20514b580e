package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/structure/cachemap"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/structure/cachemap2"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/structure/cacheset"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/structure/lra"

	"verifsim/simrt"
)

// Scenario "cache": goroutines operate on small instances of the agent's bounded containers;
// the recorded history must be linearizable with respect to a sequential model.
func init() {
	scenarios["cache"] = &Scenario{gen: genCache, run: runCache}
	defCheck("C17", "a case is a concurrent history of operations on one or two small caches under a seeded schedule; non-trivial when operations of different goroutines overlapped or an eviction happened", Part{"cache", 60000})
}

var cacheKinds = []string{"lra", "lra", "cachemap", "cachemap2", "cacheset"}

func genCache(prop string, seed uint64) *Plan {
	g := newGen(seed)
	p := basePlan(prop, "cache", seed, g)
	p.Lite = true
	p.Sched.PauseMax = min(p.Sched.PauseMax, 5*ms)
	if p.Sched.Mode == "pct" {
		p.Sched.PctLen = []int{200, 800, 2500}[g.r.N(3)]
	} else if p.Sched.Mode == "rand" && g.pct(70) {
		p.Sched.P = []float64{0.5, 0.3, 0.1}[g.r.N(3)]
	}
	n := 1 + g.r.N(2)
	for i := 0; i < n; i++ {
		p.Ev = append(p.Ev, Op{K: cacheKinds[g.r.N(len(cacheKinds))], N: int64(1 + g.r.N(4)), M: int64(g.r.N(2))})
		if p.Ev[i].K == "lra" && g.pct(10) {
			p.Ev[i].N = 0
		}
	}
	nt := 1 + g.r.N(4)
	per := 2 + g.r.N(6)
	if nt == 1 {
		per = 10 + g.r.N(40)
	}
	keys := 1 + g.r.N(6)
	for t := 0; t < nt; t++ {
		var ops []Op
		for i := 0; i < per; i++ {
			k := g.pick("add", "add", "add", "add", "get", "get", "has", "rm", "rm", "size", "empty", "vals", "clear", "str")
			ops = append(ops, Op{K: k, N: int64(g.r.N(n)), M: int64(g.r.N(keys))})
		}
		p.Tasks = append(p.Tasks, ops)
	}
	return p
}

type cacheOp struct {
	inst   int
	k      string
	key    int
	val    string
	res    string
	t0, t1 int64
	task   int
	done   bool
}

type anyCache struct {
	kind  string
	cap   int
	lra   *lra.Cache
	cm    *cachemap.CacheMap
	cm2   *cachemap2.CacheMap
	cs    *cacheset.CacheSet
	ev    map[*simrt.G]*[]string
	hasEv bool
}

func showVals(l []interface{}) string {
	var s []string
	for _, v := range l {
		s = append(s, fmt.Sprint(v))
	}
	sort.Strings(s)
	return strings.Join(s, ",")
}

func (c *anyCache) do(o *cacheOp) {
	var evs []string
	if c.hasEv {
		c.ev[simrt.Cur()] = &evs
	}
	switch c.kind {
	case "lra":
		switch o.k {
		case "add":
			c.lra.Add(o.key, o.val)
		case "get":
			o.res = fmt.Sprint(c.lra.Get(o.key))
		case "has":
			o.res = fmt.Sprint(c.lra.Contains(o.key))
		case "rm":
			c.lra.Remove(o.key)
		case "size":
			o.res = fmt.Sprint(c.lra.Size())
		case "empty":
			o.res = fmt.Sprint(c.lra.Empty())
		case "vals":
			o.res = showVals(c.lra.GetValues())
		case "clear":
			c.lra.Clear()
		}
		if c.hasEv {
			sort.Strings(evs)
			o.res += "|" + strings.Join(evs, ",")
		}
	case "cachemap":
		switch o.k {
		case "add":
			c.cm.Add(o.key, o.val)
		case "get":
			o.res = fmt.Sprint(c.cm.Get(o.key))
		case "has":
			o.res = fmt.Sprint(c.cm.Contains(o.key))
		case "rm":
			c.cm.Remove(o.key)
		case "size":
			o.res = fmt.Sprint(c.cm.Size())
		case "empty":
			o.res = fmt.Sprint(c.cm.Empty())
		case "vals":
			o.res = showVals(c.cm.GetValues())
		case "clear":
			c.cm.Clear()
		case "str":
			o.res = c.cm.String()
		}
	case "cachemap2":
		switch o.k {
		case "add":
			c.cm2.Add(o.key, o.val)
		case "get":
			o.res = fmt.Sprint(c.cm2.Get(o.key))
		case "has":
			o.res = fmt.Sprint(c.cm2.Contains(o.key))
		case "rm":
			c.cm2.Remove(o.key)
		case "size":
			o.res = fmt.Sprint(c.cm2.Size())
		case "empty":
			o.res = fmt.Sprint(c.cm2.Empty())
		case "vals":
			o.res = showVals(c.cm2.GetValues())
		case "clear":
			c.cm2.Clear()
		case "str":
			o.res = c.cm2.String()
		}
	case "cacheset":
		switch o.k {
		case "add":
			c.cs.Add(o.key)
		case "has", "get", "rm", "vals":
			o.k = "has"
			o.res = fmt.Sprint(c.cs.Contains(o.key))
		case "size":
			o.res = fmt.Sprint(c.cs.Size())
		case "empty":
			o.res = fmt.Sprint(c.cs.Empty())
		case "clear":
			c.cs.Clear()
		case "str":
			o.res = c.cs.String()
		}
	}
}

// cacheState is the sequential model: insertion-ordered, bounded, evicting the oldest insertion.
type cacheState struct {
	keys []int
	vals []string
}

func (s cacheState) find(k int) int {
	for i, x := range s.keys {
		if x == k {
			return i
		}
	}
	return -1
}
func (s cacheState) without(i int) cacheState {
	n := cacheState{}
	n.keys = append(append(n.keys, s.keys[:i]...), s.keys[i+1:]...)
	n.vals = append(append(n.vals, s.vals[:i]...), s.vals[i+1:]...)
	return n
}
func (s cacheState) String() string { return fmt.Sprint(s.keys, s.vals) }

func (c *anyCache) apply(s cacheState, o *cacheOp) (cacheState, string) {
	var evs []string
	gone := func(k int, v string) { evs = append(evs, fmt.Sprintf("%d:%s", k, v)) }
	res := ""
	i := s.find(o.key)
	switch o.k {
	case "add":
		if i >= 0 {
			if c.kind == "lra" {
				n := cacheState{append([]int{}, s.keys...), append([]string{}, s.vals...)}
				n.vals[i] = o.val
				s = n
			}
			break
		}
		n := cacheState{append(append([]int{}, s.keys...), o.key), append(append([]string{}, s.vals...), o.val)}
		for c.cap > 0 && len(n.keys) > c.cap {
			gone(n.keys[0], n.vals[0])
			n = n.without(0)
		}
		s = n
	case "get":
		res = "<nil>"
		if i >= 0 {
			res = s.vals[i]
		}
	case "has":
		res = fmt.Sprint(i >= 0)
	case "rm":
		if i >= 0 {
			gone(s.keys[i], s.vals[i])
			s = s.without(i)
		}
	case "size":
		res = fmt.Sprint(len(s.keys))
	case "empty":
		res = fmt.Sprint(len(s.keys) == 0)
	case "vals":
		v := append([]string{}, s.vals...)
		sort.Strings(v)
		res = strings.Join(v, ",")
	case "clear":
		for k := range s.keys {
			gone(s.keys[k], s.vals[k])
		}
		s = cacheState{}
	case "str":
		switch c.kind {
		case "cachemap", "cachemap2":
			res = fmt.Sprintf("CacheMap[%d]", len(s.keys))
		case "cacheset":
			res = fmt.Sprintf("CacheSet[%d]", len(s.keys))
		}
	}
	if c.hasEv {
		sort.Strings(evs)
		res += "|" + strings.Join(evs, ",")
	}
	return s, res
}

// linearizable searches for a legal order (Wing and Gong, with memoisation).
func (c *anyCache) linearizable(ops []*cacheOp) (bool, bool) {
	n := len(ops)
	if n > 62 {
		return true, false
	}
	sort.SliceStable(ops, func(i, j int) bool { return ops[i].t0 < ops[j].t0 })
	seen := map[string]struct{}{}
	budget := 2_000_000
	var try func(mask uint64, s cacheState) bool
	try = func(mask uint64, s cacheState) bool {
		if mask == uint64(1)<<n-1 {
			return true
		}
		if budget--; budget < 0 {
			return true
		}
		key := fmt.Sprint(mask, s)
		if _, ok := seen[key]; ok {
			return false
		}
		seen[key] = struct{}{}
		first := int64(1) << 62 // the earliest response among those not yet placed
		for i, o := range ops {
			if mask>>i&1 == 0 && o.t1 < first {
				first = o.t1
			}
		}
		for i, o := range ops {
			if mask>>i&1 == 1 || o.t0 > first {
				continue
			}
			if n, r := c.apply(s, o); r == o.res {
				if try(mask|1<<i, n) {
					return true
				}
			}
		}
		return false
	}
	ok := try(0, cacheState{})
	return ok, budget >= 0
}

func runCache(w *World) {
	p := w.p
	if !w.bootAgent(30 * sec) {
		w.fail("C17", "boot", "the process did not finish initialisation")
		return
	}
	var cs []*anyCache
	mk := w.task("new", func() {
		for i, e := range p.Ev {
			c := &anyCache{kind: e.K, cap: int(e.N), ev: map[*simrt.G]*[]string{}}
			switch e.K {
			case "lra":
				c.lra = lra.New(c.cap)
				if e.M == 1 {
					c.hasEv = true
					c.lra.OnEvicted = func(k lra.Key, v interface{}) {
						if l := c.ev[simrt.Cur()]; l != nil {
							*l = append(*l, fmt.Sprintf("%v:%v", k, v))
						}
					}
				}
			case "cachemap":
				c.cm = cachemap.New(c.cap)
			case "cachemap2":
				c.cm2 = cachemap2.New(c.cap)
			case "cacheset":
				c.cs = cacheset.New(c.cap)
			}
			cs = append(cs, c)
			_ = i
		}
	})
	w.wait(sec, mk)
	if len(cs) == 0 {
		return
	}
	var hist []*cacheOp
	var ts []*Task
	seq := int64(0)
	for t := range p.Tasks {
		ts = append(ts, w.task(fmt.Sprint("user", t), func() {
			for i := range p.Tasks[t] {
				op := &p.Tasks[t][i]
				if int(op.N) >= len(cs) {
					continue
				}
				seq++
				o := &cacheOp{inst: int(op.N), k: op.K, key: int(op.M), val: fmt.Sprintf("v%d_%d", t, i), t0: seq, task: t}
				if o.k == "str" && cs[o.inst].kind == "lra" {
					o.k = "size"
				}
				hist = append(hist, o)
				func() {
					defer func() {
						if r := recover(); r != nil {
							w.fail("C17", "panic", "%s %s(%d) panicked: %v (%s)", cs[o.inst].kind, o.k, o.key, r, shortStack())
						}
					}()
					cs[o.inst].do(o)
				}()
				seq++
				o.t1, o.done = seq, true
			}
		}))
	}
	if !w.wait(60*sec, ts...) {
		for i, t := range ts {
			if !t.Done {
				o := ""
				for _, h := range hist {
					if h.task == i && !h.done {
						o = cs[h.inst].kind + "." + h.k
					}
				}
				w.fail("C17", "blocked", "operation %s of goroutine %d never returned (%s)", o, i, t.G.Where())
			}
		}
		return
	}
	if w.dead() {
		for _, c := range w.crash {
			w.fail("C17", "crash", "the process died: %s %s (%s)", c.Kind, c.Msg, c.Stack)
		}
		return
	}
	overlap := 0
	for i, c := range cs {
		var ops []*cacheOp
		for _, o := range hist {
			if o.inst == i {
				ops = append(ops, o)
			}
		}
		for a := range ops {
			for b := range ops[:a] {
				if ops[a].t0 < ops[b].t1 && ops[b].t0 < ops[a].t1 {
					overlap++
				}
			}
		}
		ok, complete := c.linearizable(ops)
		if !complete {
			w.counts["undecided"]++
		}
		if !ok {
			var b strings.Builder
			for _, o := range ops {
				fmt.Fprintf(&b, " [%d-%d] g%d %s(%d,%s)=%q;", o.t0, o.t1, o.task, o.k, o.key, o.val, o.res)
			}
			w.fail("C17", "not-linearizable", "%s of capacity %d: no sequential order explains%s", c.kind, c.cap, b.String())
		}
		// the size never exceeds the capacity
		for _, o := range ops {
			var n int
			if o.k == "size" && c.cap > 0 {
				fmt.Sscan(o.res, &n)
				if n > c.cap {
					w.fail("C17", "over-capacity", "%s of capacity %d reports size %d", c.kind, c.cap, n)
				}
			}
		}
		w.state(fmt.Sprint(c.kind, c.cap, len(ops)))
	}
	w.counts["operations"] += int64(len(hist))
	w.counts["overlapping-pairs"] += int64(overlap)
	w.nontriv = overlap > 0 || len(hist) > 12
	fmt.Fprintf(&w.sample, "%d caches (%s cap %d), %d goroutines, %d operations, %d overlapping pairs, sched %s", len(cs), cs[0].kind, cs[0].cap, len(ts), len(hist), overlap, p.Sched.Mode)
}
