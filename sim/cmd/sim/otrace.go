package main

// Oracles over the history of a tracing run.

import (
	"fmt"
	"strconv"
	"strings"
	"verifsim/simrt"
)

type wire struct {
	packs []packRec
	xlogs map[int64][]*xlogRec
	xT    map[int64][]packRec
	profs map[int64][]packRec
	texts map[string][]packRec // type/hash
}

func collect(packs []packRec) *wire {
	wi := &wire{packs: packs, xlogs: map[int64][]*xlogRec{}, xT: map[int64][]packRec{}, profs: map[int64][]packRec{}, texts: map[string][]packRec{}}
	for _, p := range packs {
		switch v := p.V.(type) {
		case *xlogRec:
			wi.xlogs[v.Txid] = append(wi.xlogs[v.Txid], v)
			wi.xT[v.Txid] = append(wi.xT[v.Txid], p)
		case *profRec:
			wi.profs[v.Txid] = append(wi.profs[v.Txid], p)
		case *textRec:
			k := v.Type + "/" + strconv.Itoa(int(v.Hash))
			wi.texts[k] = append(wi.texts[k], p)
		}
	}
	return wi
}

func (s *svc) String() string {
	return fmt.Sprintf("service %d %q (kind %d, txid %x)", s.id, s.name, s.kind, uint64(s.txid))
}

// oracleExactlyOnce: C01. wantSent decides whether the record of an ended service is due.
func oracleExactlyOnce(w *World, a *App, wi *wire, wantSent func(s *svc) (must, may bool)) {
	for _, s := range a.svcs {
		if s.txid == 0 {
			continue
		}
		n := len(wi.xlogs[s.txid])
		must, may := wantSent(s)
		switch {
		case n > 1:
			w.fail("C01", "duplicate-record", "%v was reported %d times", s, n)
		case n == 0 && must:
			w.fail("C01", "missing-record", "%v ended at %d ms but no transaction record was sent", s, s.e0/ms)
		case n == 1 && !must && !may:
			if !s.ended {
				w.fail("C01", "premature-record", "%v never ended but was reported", s)
			} else {
				w.fail("C01", "unexpected-record", "%v should not have been reported", s)
			}
		}
	}
	for tx := range wi.xlogs {
		if a.byTx[tx] == nil {
			w.fail("C01", "unknown-record", "a transaction record with id %x belongs to no service", uint64(tx))
		}
	}
	for tx := range wi.profs {
		if a.byTx[tx] == nil {
			w.fail("C03", "unknown-profile", "a profile with id %x belongs to no service", uint64(tx))
		}
	}
}

func ipBytes(s string) [4]byte {
	s = strings.Split(s, ":")[0]
	var r [4]byte
	ps := strings.Split(s, ".")
	if len(ps) != 4 {
		return r
	}
	for i, p := range ps {
		n, err := strconv.ParseUint(p, 10, 8)
		if err != nil {
			return [4]byte{}
		}
		r[i] = byte(n)
	}
	return r
}

// lastMarks gives the texts that may be in force when s ends, of marks by several goroutines: with
// last, or if one is forced, a mark that comes after all others replaces them; otherwise the first
// one stays. "" is among them if there may be none.
func lastMarks(ms []mark, s *svc, last bool) (cand []string) { return marksAt(ms, s.k0, s.k1, last) }

func marksAt(ms []mark, k0, k1 int64, last bool) (cand []string) {
	none := true
	for i, m := range ms {
		if m.k1 < k0 {
			none = false
		}
		ok := m.k0 < k1
		for j, o := range ms {
			if i == j {
				continue
			}
			switch {
			case last || m.forced:
				// replaced by one that started later and was over in time
				if (last || o.forced) && o.k0 > m.k1 && o.k1 < k0 {
					ok = false
				}
			default:
				// not set if there was one before, replaced by one forced in time
				if o.k1 < m.k0 || o.forced && o.k1 < k0 {
					ok = false
				}
			}
		}
		if ok {
			cand = append(cand, m.text)
		}
	}
	if none && !last {
		cand = append(cand, "")
	}
	return
}

// oracleFidelity: C02, what each record says.
func oracleFidelity(w *World, a *App, wi *wire, objHash func(proc int) int32) {
	const P = "C02"
	for _, s := range a.svcs {
		xs := wi.xlogs[s.txid]
		if len(xs) != 1 || s.stuck {
			continue
		}
		x := xs[0]
		bad := func(field string, got, want any) {
			w.fail(P, "field-"+field, "%v: record says %s=%v, expected %v", s, field, got, want)
		}
		if !s.shared {
			if x.Service != textHashOf(s.name) {
				bad("service", x.Service, fmt.Sprintf("%d (%s)", textHashOf(s.name), s.name))
			}
		} else {
			// several goroutines may have set it: the last one, or one of those at the same time
			cand := lastMarks(append([]mark{{text: s.names[0]}}, s.nameSets...), s, true)
			if s.weak {
				cand = append([]string{}, s.names...)
				for p := s.parent; p != nil; p = p.parent {
					cand = append(cand, p.names...)
				}
			}
			ok := false
			for _, n := range cand {
				ok = ok || x.Service == textHashOf(n)
			}
			if !ok {
				bad("service", x.Service, fmt.Sprintf("the hash of one of %q", cand))
			}
		}
		if h := objHash(s.proc); h != 0 && x.ObjHash != h {
			bad("object", x.ObjHash, h)
		}
		wantType := map[int]byte{kWeb: 0, kApp: 1, kChild: 4}[s.kind]
		wantGx, wantCaller := s.txid, int64(0)
		if s.kind == kInherit {
			wantType = 1
			for p := s.parent; p != nil; p = p.parent {
				if p.kind != kInherit {
					wantType = map[int]byte{kWeb: 0, kApp: 1, kChild: 4}[p.kind]
					break
				}
			}
		}
		if s.parent != nil {
			root := s
			for root.parent != nil {
				root = root.parent
			}
			wantGx, wantCaller = root.txid, s.parent.txid
		}
		if x.XType != wantType {
			bad("type", x.XType, wantType)
		}
		if x.Gxid != wantGx {
			bad("gxid", fmt.Sprintf("%x", uint64(x.Gxid)), fmt.Sprintf("%x", uint64(wantGx)))
		}
		if x.Caller != wantCaller {
			bad("caller", fmt.Sprintf("%x", uint64(x.Caller)), fmt.Sprintf("%x", uint64(wantCaller)))
		}
		lo := (s.e0 - s.a1) / ms
		hi := int64(1 << 40)
		if s.e1 > 0 {
			hi = (s.e1-s.a0)/ms + 1
		} else if s.kind == kChild {
			hi = (wi.xT[s.txid][0].T-s.a0)/ms + 1
		}
		if int64(x.Elapsed) < lo-1 || int64(x.Elapsed) > hi {
			bad("elapsed", x.Elapsed, fmt.Sprintf("%d..%d ms", lo, hi))
		}
		// error
		if !s.shared {
			want := int32(0)
			if len(s.errs) > 0 {
				want = textHashOf(s.errs[0])
			}
			if x.Error != want {
				bad("error", x.Error, fmt.Sprintf("%d %q", want, s.errs))
			}
		} else {
			cand := lastMarks(s.marks, s, false)
			if s.weak {
				cand = append([]string{""}, s.errs...)
			}
			ok := false
			for _, e := range cand {
				ok = ok || x.Error == hashOr0(e)
			}
			if !ok {
				bad("error", x.Error, fmt.Sprintf("one of %q", cand))
			}
		}
		if got := ipBytes(s.ip); len(x.IP) != 4 || [4]byte(x.IP) != got {
			bad("ip", x.IP, fmt.Sprint(got, " for ", s.ip))
		}
		if s.kind == kWeb && x.Status != s.status {
			bad("status", x.Status, s.status)
		}
		if x.UA != hashOr0(s.ua) {
			bad("user-agent", x.UA, s.ua)
		}
		if x.Referer != hashOr0(s.ref) {
			bad("referer", x.Referer, s.ref)
		}
		if !s.weak && (s.late || s.shared) {
			// several goroutines may have ended calls, or still do so
			var c, t [2]int64
			for _, x := range s.calls {
				if x.k1 < s.k0 {
					c[0]++
					t[0] += x.lo
				}
				if x.k0 < s.k1 {
					c[1]++
					t[1] += x.hi
				}
			}
			if int64(x.ApiC) < c[0] || int64(x.ApiC) > c[1] {
				bad("apicall-count", x.ApiC, fmt.Sprint(c))
			}
			if int64(x.ApiT) < t[0] || int64(x.ApiT) > t[1] {
				bad("apicall-time", x.ApiT, fmt.Sprint(t))
			}
			if c[0] > 1 {
				w.counts["shared-call-counts-judged"]++
			}
		}
		if !s.late && !s.shared {
			if x.ApiC != s.apiC {
				bad("apicall-count", x.ApiC, s.apiC)
			}
			if int64(x.ApiT) < s.apiT[0] || int64(x.ApiT) > s.apiT[1] {
				bad("apicall-time", x.ApiT, fmt.Sprint(s.apiT))
			}
		}
		if x.Login != hashOr0(s.login) || x.Desc != hashOr0(s.desc) {
			bad("login/desc", fmt.Sprint(x.Login, x.Desc), s.login+"/"+s.desc)
		}
		if got := [5]string{x.T1, x.T2, x.T3, x.T4, x.T5}; got != s.t {
			bad("texts", got, s.t)
		}
	}
	// goroutine-call steps name the child transaction
}

func hashOr0(s string) int32 {
	if s == "" {
		return 0
	}
	return textHashOf(s)
}

// oracleProfile: C03.
func oracleProfile(w *World, a *App, wi *wire, complete func(s *svc) bool, maxSteps func() int) {
	const P = "C03"
	for _, s := range a.svcs {
		ps := wi.profs[s.txid]
		if s.txid == 0 {
			continue
		}
		var got []stepRec
		size := 0
		for _, p := range ps {
			v := p.V.(*profRec)
			size += len(v.Body)
			if m := maxSteps(); m > 0 && len(v.Steps) > m {
				w.fail(P, "chunk-too-big", "%v: a profile message carries %d steps, the configured maximum is %d", s, len(v.Steps), m)
			}
			if len(v.Steps) == 0 {
				w.fail(P, "empty-chunk", "%v: a profile message carries no step", s)
			}
			okS := false
			for _, n := range s.names {
				okS = okS || v.Service == textHashOf(n)
			}
			if len(v.Steps) > 0 && v.Steps[0].Index == 0 && v.Service == 0 {
				okS = true // flushed before the service had its name
			}
			if !okS {
				w.fail(P, "chunk-service", "%v: a profile message names service hash %d", s, v.Service)
			}
			if want := w.objHash(s.proc); v.Obj != want {
				w.fail(P, "chunk-object", "%v: a profile message names object hash %d, this object is %d", s, v.Obj, want)
			}
			got = append(got, v.Steps...)
		}
		if xs := wi.xlogs[s.txid]; len(xs) == 1 {
			if int(xs[0].PCount) != len(got) {
				w.fail(P, "profile-count", "%v: the record announces %d profile steps, %d were sent", s, xs[0].PCount, len(got))
			}
			if int(xs[0].PSize) != size {
				w.fail(P, "profile-size", "%v: the record announces %d profile bytes, %d were sent", s, xs[0].PSize, size)
			}
		}
		if s.stuck {
			continue
		}
		byIdx := map[int32]stepRec{}
		for _, g := range got {
			if o, dup := byIdx[g.Index]; dup {
				w.fail(P, "dup-index", "%v: two steps have index %d: %+v and %+v", s, g.Index, o, g)
			}
			byIdx[g.Index] = g
		}
		full := complete(s)
		if s.shared || s.late {
			matchMultiset(w, s, got, full)
			continue
		}
		for _, st := range s.steps {
			g, ok := byIdx[st.idx]
			anyOrder := st.level == -1 && st.typ == 3
			if st.idx == 0 {
				if ok && (g.Type != 3 || !strings.HasPrefix(g.Msg, "goroutine:") || st.msg != "goroutine:" && st.msg != g.Msg) {
					w.fail(P, "first-step", "%v: the first step is %+v", s, g)
				}
				if ok {
					delete(byIdx, 0)
				} else if full {
					w.fail(P, "step-lost", "%v: the first step was not sent", s)
				}
				continue
			}
			if !ok {
				if full && !st.optional {
					w.fail(P, "step-lost", "%v: step %d %s was recorded but not sent (%d of %d steps arrived)", s, st.idx, st.desc(), len(got), len(s.steps))
				}
				continue
			}
			delete(byIdx, st.idx)
			if anyOrder {
				continue
			}
			if d := st.diff(&g, s, true); d != "" {
				w.fail(P, "step-wrong", "%v: step %d was recorded as %s but sent as %+v: %s", s, st.idx, st.desc(), g, d)
			}
		}
		for _, i := range sortedIdx(byIdx) {
			w.fail(P, "step-invented", "%v: step %+v was never recorded", s, byIdx[i])
		}
	}
}

func sortedIdx(m map[int32]stepRec) []int32 {
	var r []int32
	for i := int32(0); len(r) < len(m) && i < 1<<20; i++ {
		if _, ok := m[i]; ok {
			r = append(r, i)
		}
	}
	return r
}

func (st *xstep) desc() string {
	return fmt.Sprintf("{type %d msg %q text %q parent %d}", st.typ, st.msg, st.text, st.parent)
}

func (st *xstep) diff(g *stepRec, s *svc, nest bool) string {
	if g.Type != st.typ {
		return "type"
	}
	if nest && g.Parent != st.parent {
		return fmt.Sprintf("parent is %d, the enclosing step is %d", g.Parent, st.parent)
	}
	lo, hi := (st.s0-s.a1)/ms-1, (st.s1-s.a0)/ms+1
	fixed := st.typ == 3 && st.s1 == 0
	if !fixed && !(st.typ == 3 && g.Start == 0) && (int64(g.Start) < lo || int64(g.Start) > hi) {
		return fmt.Sprintf("start %d ms outside %d..%d", g.Start, lo, hi)
	}
	if st.text != "" && st.text != "*" && g.Hash != textHashOf(st.text) {
		return "text hash"
	}
	elapsed := func() string {
		l, h := (st.e0-st.s1)/ms-2, (st.e1-st.s0)/ms+2
		if int64(g.Time) < l || int64(g.Time) > h {
			return fmt.Sprintf("elapsed %d ms outside %d..%d", g.Time, l, h)
		}
		return ""
	}
	switch st.typ {
	case 3:
		if g.Msg != wireStr(st.msg) {
			return "message"
		}
	case 9:
		if g.Value != st.value || g.Time != st.time {
			return "value/time"
		}
	case 17:
		if g.Time != st.time || g.Level != st.level || g.Msg != wireStr(st.msg) {
			return "elapsed/level/params"
		}
	case 1:
		return elapsed()
	case 6:
		if g.Txid != st.txid {
			return "callee txid"
		}
		if g.Err != hashOr0(st.errText) {
			return "error"
		}
		if (g.Opt == 1) != (st.addr != "") || g.Addr != wireStr(st.addr) {
			return "address"
		}
		return elapsed()
	case 14:
		if st.txid != 0 && g.Txid != st.txid {
			return fmt.Sprintf("child txid %x, expected %x", uint64(g.Txid), uint64(st.txid))
		}
	}
	return ""
}

// wireStr: strings over 100000 bytes are replaced on the wire, by protocol.
func wireStr(s string) string {
	if len(s) > 100000 {
		return "huge string omitted..."
	}
	return s
}

// matchMultiset: steps of a transaction several goroutines worked on; every recorded step must
// appear once, whatever its position.
func matchMultiset(w *World, s *svc, got []stepRec, full bool) {
	// a maximum matching between recorded and received steps
	ok := func(st *xstep, g *stepRec) bool {
		if st.idx == 0 && strings.HasPrefix(st.msg, "goroutine:") {
			return g.Type == 3 && strings.HasPrefix(g.Msg, "goroutine:")
		}
		return st.diff(g, s, false) == ""
	}
	adj := make([][]int, len(s.steps))
	for i, st := range s.steps {
		for k := range got {
			if ok(st, &got[k]) {
				adj[i] = append(adj[i], k)
			}
		}
	}
	owner := make([]int, len(got))
	for i := range owner {
		owner[i] = -1
	}
	var seen []bool
	var aug func(i int) bool
	aug = func(i int) bool {
		for _, k := range adj[i] {
			if seen[k] {
				continue
			}
			seen[k] = true
			if owner[k] < 0 || aug(owner[k]) {
				owner[k] = i
				return true
			}
		}
		return false
	}
	// obligatory steps first: optional ones must not take their place
	for pass := 0; pass < 2; pass++ {
		for i, st := range s.steps {
			if st.optional != (pass == 1) {
				continue
			}
			seen = make([]bool, len(got))
			if !aug(i) && full && !st.optional {
				w.fail("C03", "step-lost", "%v (used by several goroutines): step %s was recorded but not sent (%d of %d steps arrived)", s, st.desc(), len(got), len(s.steps))
			}
		}
	}
	for k := range got {
		if owner[k] < 0 {
			w.fail("C03", "step-invented", "%v (used by several goroutines): step %+v was never recorded, or sent twice", s, got[k])
		}
	}
}

// oracleTexts: C04. Every hash in anything sent can be resolved from what was sent.
// since(proc,T) gives the time after which the text must have been sent for a record of a
// service that began at T (cache resets).
func oracleTexts(w *World, a *App, wi *wire, resets [][2]int64, lim int64) {
	const P = "C04"
	lim += simrt.Suspended()
	for _, k := range sortedKeys(wi.texts) {
		for _, p := range wi.texts[k] {
			t := p.V.(*textRec)
			if textHashOf(t.Text) != t.Hash && !(t.Text == "huge string omitted...") {
				w.fail(P, "wrong-hash", "dictionary entry %s/%d carries text %q whose hash is %d", t.Type, t.Hash, t.Text, textHashOf(t.Text))
			}
		}
	}
	need := func(proc int, began int64, at int64, typ string, h int32, what string) {
		if h == 0 {
			return
		}
		after := int64(-1)
		for _, r := range resets {
			if r[1] < began && r[0] > after { // done before the use: the text must come after the command
				after = r[0]
			}
		}
		for _, p := range wi.texts[typ+"/"+strconv.Itoa(int(h))] {
			if p.Proc == proc && p.T >= after && p.T <= at+lim {
				return
			}
		}
		if at+lim > now() {
			return
		}
		w.fail(P, "text-missing", "%s refers to %s text with hash %d, which was never sent (cache reset at %d ms)", what, typ, h, after/ms)
	}
	for _, s := range a.svcs { // each use by the application
		for _, st := range s.steps {
			if st.text != "" && st.text != "*" && st.s1 != 0 && !st.optional {
				need(s.proc, st.s0, st.s1, st.ttype, textHashOf(st.text), fmt.Sprintf("a call of %s at %d ms", s, st.s0/ms))
			}
			if st.errText != "" && !st.optional && !st.open {
				need(s.proc, st.e0, st.e1, "error", textHashOf(st.errText), fmt.Sprintf("a failed API call of %s at %d ms", s, st.e0/ms))
			}
		}
	}
	for _, u := range a.dicts {
		need(u.proc, u.t0, u.t1, u.typ, hashOr0(u.text), fmt.Sprintf("a direct use of the dictionary at %d ms", u.t0/ms))
	}
	for _, p := range wi.packs {
		switch v := p.V.(type) {
		case *objRec: // the object's own name is a text as well; it is looked up at each announcement
			need(p.Proc, p.T-10*sec-simrt.S.PausedTotal, p.T, "object", v.Hash, "an announcement of the object")
		case *xlogRec:
			s := a.byTx[v.Txid]
			if s == nil {
				continue
			}
			what := "the record of " + s.String()
			// everything is looked up at start or end of the service; the name again at the end
			need(p.Proc, max(s.a0, s.e0), p.T, "service", v.Service, what)
			need(p.Proc, s.e0, p.T, "hmsg", v.Thread, what)
			root := s // an inherited error was looked up by the parent
			for root.kind == kInherit && root.parent != nil {
				root = root.parent
			}
			need(p.Proc, root.a0, p.T, "error", v.Error, what)
			if s.kind != kInherit {
				need(p.Proc, s.a0, p.T, "ua", v.UA, what)
				need(p.Proc, s.a0, p.T, "referer", v.Referer, what)
			}
			need(p.Proc, s.e0, p.T, "login", v.Login, what)
			need(p.Proc, s.e0, p.T, "desc", v.Desc, what)
		case *profRec:
			s := a.byTx[v.Txid]
			if s == nil {
				continue
			}
			what := "a profile step of " + s.String()
			for _, g := range v.Steps {
				switch g.Type {
				case 1:
					need(p.Proc, s.a0, p.T, "method", g.Hash, what)
				case 9, 17:
					need(p.Proc, s.a0, p.T, "hmsg", g.Hash, what)
				case 14:
					need(p.Proc, s.a0, p.T, "apicall", g.Hash, what)
				case 6:
					need(p.Proc, s.a0, p.T, "apicall", g.Hash, what)
					need(p.Proc, s.a0, p.T, "error", g.Err, what)
				}
			}
		}
	}
}
