package main

import (
	"fmt"
	"sort"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/netdata"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/netio/udpsender"

	clist "verifgen/clist"
	"verifsim/simrt"
)

// Scenario "udp": packets of chosen sizes are queued by several goroutines; the kernel delays,
// drops, duplicates and reorders datagrams or refuses them; the maximum and the address change.
func init() {
	scenarios["udp"] = &Scenario{gen: genUDP, run: runUDP}
	defCheck("C05", "a case is a set of bursts of packets with sizes chosen around the configured maximum, kernel and network faults, changes of the maximum or address, from one seed; non-trivial when at least one batched or fragmented datagram was decoded", Part{"udp", 14000})
}

var udpMaxes = []int64{100, 128, 300, 512, 1000, 1400, 4096, 30000, 60000, 65000}

func genUDP(prop string, seed uint64) *Plan {
	g := newGen(seed)
	p := basePlan(prop, "udp", seed, g)
	maxb := udpMaxes[g.r.N(len(udpMaxes))]
	if g.pct(25) {
		maxb = int64(60 + g.r.N(3000))
	}
	p.Conf["udp_max_bytes"] = fmt.Sprint(maxb)
	q := int64(0)
	if g.pct(30) {
		q = int64(1 + g.r.N(12))
		p.Conf["send_queue_size"] = fmt.Sprint(q)
	}
	p.P["q"] = q
	at, flood := int64(0), false
	for b := 1 + g.r.N(5); b > 0; b-- {
		nt := 1 + g.r.N(3)
		for t := 0; t < nt; t++ {
			var ops []Op
			for n := 1 + g.r.N(14); n > 0; n-- {
				ops = append(ops, Op{K: []string{"pack", "pack", "pack", "buf", "direct", "list"}[g.r.N(6)], N: g.udpSize(maxb), M: int64(g.r.N(5)), At: int64(g.r.N(3) / 2 * g.r.N(60) * int(ms))})
			}
			if !flood && g.pct(5) { // a flood of small packets; two might be more than the queue takes
				flood = true
				ops = append(ops, Op{K: []string{"many", "many", "listmany"}[g.r.N(3)], N: 15 + int64(g.r.N(40)), M: []int64{100, 126, 127, 128, 129, 254, 255, 256, 257, 300, 511, 513, 1000, 1500}[g.r.N(14)]})
			}
			p.Tasks = append(p.Tasks, ops)
			p.Ev = append(p.Ev, Op{K: "burst", At: at, N: int64(len(p.Tasks) - 1)})
		}
		at += 3 * sec
		if g.pct(25) {
			nm := udpMaxes[g.r.N(len(udpMaxes))]
			if g.pct(30) {
				p.Ev = append(p.Ev, Op{K: "addr", At: at, N: int64(g.r.N(5000)) * ms, M: int64(6101 + g.r.N(3))})
			} else {
				p.Ev = append(p.Ev, Op{K: "max", At: at, N: int64(g.r.N(5000)) * ms, M: nm})
				maxb = nm
			}
			if g.pct(40) { // burst right through the change
				at += int64(g.r.N(7000)) * ms
			} else {
				at += 9 * sec
			}
		}
	}
	p.Dur = at + 9*sec
	if g.pct(60) {
		for i := g.r.N(8); i > 0; i-- {
			p.Net = append(p.Net, Fault{K: g.pick("drop", "dup", "delay", "delay", "refused", "nobufs", "stall"), N: g.r.N(60), D: int64(g.r.N(900)) * ms})
		}
	}
	return p
}

// udpSize picks a packet size around the places where framing changes.
func (g *gen) udpSize(maxb int64) int64 {
	switch g.r.N(6) {
	case 0:
		return 20 + int64(g.r.N(60))
	case 1:
		return maxb/2 + int64(g.r.N(41)) - 20
	case 2:
		return maxb + int64(g.r.N(41)) - 20
	case 3:
		k := int64(1 + g.r.N(5))
		return min(k*maxb+int64(g.r.N(5))-2, 200000)
	case 4:
		return int64(20 + g.r.N(int(min(3*maxb, 150000))))
	default:
		return []int64{250, 251, 252, 253, 254, 255, 256, 257, 258, 65534, 65535, 65536, 65537, 32767, 32768}[g.r.N(15)]
	}
}

type udpItem struct {
	id      int
	typ     string // "q" queued, "d" sent directly, "l" list
	text    string
	t0, t1  int64
	burst   int
	must    bool
	task    int
	got     int
	failed  bool
	seq     int
	done    bool
	listPos [2]int
	viaPack bool
}

// udpText makes a text pack of exactly n bytes on the wire when that is possible.
func udpText(id int, n int64) (*netdata.TextPack, []byte) {
	enc := func(l int) (string, []byte) {
		b := make([]byte, l)
		h := uint64(id)*0x9e3779b97f4a7c15 + 1
		for i := range b {
			h ^= h << 13
			h ^= h >> 7
			h ^= h << 17
			b[i] = 'a' + byte(h>>32)%26
		}
		o := &wr{}
		o.u8(50)
		o.str("udp")
		o.i32(int32(id))
		o.str(string(b))
		return string(b), o.b
	}
	l := int(n) - 10
	if l < 1 {
		l = 1
	}
	s, b := enc(l)
	if d := len(b) - int(n); d > 0 && l-d > 0 {
		s, b = enc(l - d)
	}
	pk := netdata.NewTextPack()
	pk.Xtype, pk.Hash, pk.Text = "udp", int32(id), s
	return pk, b
}

func runUDP(w *World) {
	p := w.p
	if !w.bootAgent(30 * sec) {
		w.fail("C05", "boot", "the process did not finish initialisation")
		return
	}
	simrt.Sleep(500 * ms)
	var items []*udpItem
	var tasks []*Task
	type lim struct {
		from, max int64
	}
	lims := []lim{{0, atoi(p.Conf["udp_max_bytes"], 60000)}}
	conf := map[string]string{}
	for k, v := range p.Conf {
		conf[k] = v
	}
	start := simrt.Now()
	nItem := 0
	send := func(task, burst int, ops []Op) {
		tasks = append(tasks, w.task(fmt.Sprint("producer", task), func() {
			us := udpsender.GetInstance()
			for i := range ops {
				o := &ops[i]
				if o.At > 0 {
					simrt.Sleep(o.At)
				}
				mk := func(typ string, n int64) (*udpItem, *netdata.TextPack, []byte) {
					nItem++
					id := nItem
					pk, b := udpText(id, n)
					it := &udpItem{id: id, typ: typ, viaPack: o.K == "pack" || o.K == "direct", text: pk.Text, task: task, burst: burst, t0: simrt.Now()}
					items = append(items, it)
					return it, pk, b
				}
				switch o.K {
				case "pack":
					it, pk, _ := mk("q", o.N)
					w.api("AddPack", func() { us.AddPack(pk) })
					it.t1, it.done = simrt.Now(), true
				case "buf":
					it, _, b := mk("q", o.N)
					w.api("AddBuffer", func() { us.AddBuffer(b) })
					it.t1, it.done = simrt.Now(), true
				case "direct":
					it, pk, _ := mk("d", o.N)
					w.api("SendPackDirect", func() { us.SendPackDirect(pk) })
					it.t1, it.done = simrt.Now(), true
				case "many":
					for k := int64(0); k < o.M; k++ {
						it, _, b := mk("q", o.N+k%7)
						w.api("AddBuffer", func() { us.AddBuffer(b) })
						it.t1, it.done = simrt.Now(), true
					}
				case "list", "listmany":
					l := clist.New()
					var its []*udpItem
					for k := int64(0); k <= o.M; k++ {
						n := max(20, o.N/((k+o.N)%(o.M+1)+1)) // the big one anywhere
						if o.K == "listmany" {
							n = o.N + k%7
						}
						it, _, b := mk("l", n)
						it.listPos = [2]int{its0(its, it), int(k)}
						its = append(its, it)
						l.PushBack(b)
					}
					w.api("SendDirect", func() { us.SendDirect(l) })
					for _, it := range its {
						it.t1, it.done = simrt.Now(), true
					}
				}
			}
		}))
	}
	evs := append([]Op{}, p.Ev...)
	sort.SliceStable(evs, func(i, j int) bool { return evs[i].At < evs[j].At })
	for i := range evs {
		ev := evs[i]
		if d := start + ev.At - simrt.Now(); d > 0 {
			simrt.Sleep(d)
		}
		switch ev.K {
		case "burst":
			if int(ev.N) < len(p.Tasks) {
				send(int(ev.N), i, p.Tasks[ev.N])
			}
		case "max", "addr":
			k := map[string]string{"max": "udp_max_bytes", "addr": "net_collector_udp_port"}[ev.K]
			simrt.After(ev.N, func() {
				conf[k] = fmt.Sprint(ev.M)
				w.disk.HReplace(confPath, []byte(confText(conf)), 0)
				if ev.K == "max" {
					lims = append(lims, lim{simrt.Now(), ev.M})
				}
				w.faults["reconfigure-"+ev.K]++
			})
		}
	}
	if d := start + p.Dur - simrt.Now(); d > 0 {
		simrt.Sleep(d)
	}
	w.calmDown()
	w.wait(60*sec, tasks...)
	simrt.Sleep(5 * sec)
	slack := simrt.S.PausedTotal
	for _, f := range p.Net {
		slack += f.D
	}

	// datagram sizes
	for i, d := range w.col.dg {
		mx := int64(0)
		for k, l := range lims {
			until := int64(1) << 62
			if k+1 < len(lims) {
				until = lims[k+1].from + 7*sec + slack
			}
			if d.T >= l.from && d.T <= until {
				mx = max(mx, l.max)
			}
		}
		frame := int64(25) // a fragment's header and the length of its blob
		switch string(d.B[:min(4, len(d.B))]) {
		case "CAFE":
			frame = 4
		case "CAFN":
			frame = 6
		}
		if int64(len(d.B)) > mx+frame {
			w.fail("C05", "oversize", "datagram %d has %d bytes; the configured maximum is %d", i, len(d.B), mx)
		}
	}
	// content: what the kernel accepted
	var okd []dgram
	var bad []dgram
	for _, d := range w.col.dg {
		if d.Fate == "refused" || d.Fate == "nobufs" || d.Fate == "refusednobufs" || d.Fate == "nobufsrefused" {
			bad = append(bad, d)
		} else {
			okd = append(okd, d)
		}
	}
	w.col.sent("C05") // everything must decode, failed or not
	// packets lost with failed datagrams: everything in a failed datagram, whole or fragment
	lost := map[int]bool{}
	lostFrag := map[string]bool{}
	for _, d := range bad {
		if len(d.B) > 16 && string(d.B[:4]) == "CAFM" {
			lostFrag[string(d.B[8:16])] = true
			continue
		}
		for _, pk := range parseDgrams([]dgram{d}, func(int, string) {}) {
			if t, ok := pk.V.(*textRec); ok && t.Type == "udp" {
				lost[int(t.Hash)] = true
			}
		}
	}
	all := parseDgrams(w.col.dg, func(int, string) {})
	fragID := map[int]string{}
	for _, pk := range all { // which packets a failed fragment belongs to
		if t, ok := pk.V.(*textRec); ok && t.Type == "udp" {
			if b := w.col.dg[pk.Dg].B; string(b[:4]) == "CAFM" {
				fragID[int(t.Hash)] = string(b[8:16])
			}
		}
	}
	for id, f := range fragID {
		if lostFrag[f] {
			lost[id] = true
		}
	}
	byID := map[int]*udpItem{}
	for _, it := range items {
		byID[it.id] = it
		it.failed = lost[it.id]
	}
	judge := func(what string, ds []dgram, first bool) {
		seq := 0
		seen := map[int]int{}
		for _, pk := range parseDgrams(ds, func(i int, m string) {
			w.fail("C05", "malformed-"+what, "%s: datagram cannot be decoded: %s", what, m)
		}) {
			t, ok := pk.V.(*textRec)
			if !ok || t.Type != "udp" {
				continue
			}
			it := byID[int(t.Hash)]
			if it == nil {
				w.fail("C05", "unknown-packet", "%s: packet %d was never queued", what, t.Hash)
				continue
			}
			if t.Text != it.text && !(it.viaPack && t.Text == wireStr(it.text)) {
				w.fail("C05", "altered", "%s: packet %d of %d bytes arrived altered (%d bytes)", what, it.id, len(it.text), len(t.Text))
			}
			seen[it.id]++
			if first {
				seq++
				it.got++
				it.seq = seq
			}
		}
	}
	judge("sent", okd, true)
	judge("arrived", w.col.dlv, false)
	// completeness
	q := int(p.p("q"))
	var qd []*udpItem
	for _, it := range items {
		if !it.done {
			continue
		}
		if it.got > 1 {
			w.fail("C05", "duplicate", "packet %d (%s, %d bytes) was sent %d times", it.id, it.typ, len(it.text), it.got)
		}
		if it.typ != "q" {
			if it.got == 0 && !it.failed {
				w.fail("C05", "lost-direct", "packet %d (%s, %d bytes), sent directly, never reached the kernel", it.id, it.typ, len(it.text))
			}
			continue
		}
		qd = append(qd, it)
	}
	sort.SliceStable(qd, func(i, j int) bool { return qd[i].t1 < qd[j].t1 })
	if q == 0 {
		for _, it := range qd {
			if it.got == 0 && !it.failed {
				w.fail("C05", "lost", "queued packet %d (%d bytes) never reached the kernel", it.id, len(it.text))
			}
		}
	} else {
		// with a small queue, as many packets as fit are sure to be accepted once it has drained
		// (one place is left for the agent's own texts)
		byT0 := append([]*udpItem{}, qd...)
		sort.SliceStable(byT0, func(i, j int) bool { return byT0[i].t0 < byT0[j].t0 })
		n, got, lastT := 0, 0, int64(-1)
		flush := func() {
			if got < min(n, q-1) {
				w.fail("C05", "lost", "of %d packets offered to an empty queue of %d up to t=%d ms, only %d reached the kernel", n, q, lastT/ms, got)
			}
			n, got = 0, 0
		}
		for _, it := range byT0 {
			if lastT >= 0 && it.t0-lastT > 2*sec+slack {
				flush()
			}
			lastT = max(lastT, it.t1)
			n++
			if it.got > 0 || it.failed {
				got++
			}
		}
		flush()
	}
	// order: if one packet was queued before another was offered, it is handed over first
	maxSeqT0 := []*udpItem{}
	for _, it := range qd {
		if it.got == 1 && !it.failed {
			maxSeqT0 = append(maxSeqT0, it)
		}
	}
	sort.SliceStable(maxSeqT0, func(i, j int) bool { return maxSeqT0[i].seq < maxSeqT0[j].seq })
	// scanning backwards, no later-sent packet may have been queued completely before this one
	var minT1 *udpItem
	for i := len(maxSeqT0) - 1; i >= 0; i-- {
		it := maxSeqT0[i]
		if minT1 != nil && (minT1.t1 < it.t0 || minT1.task == it.task && minT1.id < it.id) {
			w.fail("C05", "order", "packet %d (%d bytes), queued before packet %d (%d bytes), was sent after it", minT1.id, len(minT1.text), it.id, len(it.text))
			break
		}
		if minT1 == nil || it.t1 < minT1.t1 || it.t1 == minT1.t1 && it.id < minT1.id {
			minT1 = it
		}
	}
	var nN, nM int
	for _, d := range w.col.dg {
		if len(d.B) > 4 {
			switch string(d.B[:4]) {
			case "CAFN":
				nN++
			case "CAFM":
				nM++
			}
		}
	}
	w.counts["packets"] += int64(len(items))
	w.counts["batch-datagrams"] += int64(nN)
	w.counts["fragments"] += int64(nM)
	w.nontriv = nN+nM > 0
	fmt.Fprintf(&w.sample, "%d packets (max %s) in %d datagrams (%d batches, %d fragments), %d failed, sched %s", len(items), p.Conf["udp_max_bytes"], len(w.col.dg), nN, nM, len(bad), p.Sched.Mode)
	w.state(fmt.Sprint(len(items), nN, nM, len(bad)))
}

func its0(its []*udpItem, it *udpItem) int {
	if len(its) > 0 {
		return its[0].id
	}
	return it.id
}
