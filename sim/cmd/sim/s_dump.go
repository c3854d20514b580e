package main

import (
	"fmt"
	"path"
	"strings"

	simpprof "verifsim/shadow/pprof"
	simruntime "verifsim/shadow/runtime"
	"verifsim/simrt"
)

// Scenario "dump": the collector takes dumps and profiles, lists, downloads and deletes them, with
// honest and hostile names, while the disk fails, the operator adds and removes files, the clock
// jumps, and the process is killed or the machine loses power.
func init() {
	scenarios["dump"] = &Scenario{gen: genDump, run: runDump}
	defCheck("C18", "a case is a history of dump, profile, list, download and delete commands, disk faults, operator edits, clock jumps, kills and power losses and a scheduler, from one seed; non-trivial when at least one dump was taken and one command on existing dumps answered", Part{"dump", 9000})
}

var dumpKinds = map[string]struct{ cmd, name, dir, pre, ext string }{
	"td": {"TRIGGER_THREAD_DUMP", "goroutine", "dump", "go_dump_", ".log"},
	"bt": {"TRIGGER_BLOCK_PROFILE", "block", "dump", "go_block_", ".log"},
	"mt": {"TRIGGER_MUTEX_PROFILE", "mutex", "dump", "go_mutex_", ".log"},
	"cc": {"OBJECT_CALL_CPU_PROFILE", "cpu", "binary_dump", "go_cpu_", ".pprof"},
	"cb": {"OBJECT_CALL_BLOCK_PROFILE", "block", "binary_dump", "go_block_", ".pprof"},
	"cm": {"OBJECT_CALL_MUTEX_PROFILE", "mutex", "binary_dump", "go_mutex_", ".pprof"},
}

var dumpNames = []string{"", ".", "..", "/", "pprof", ".pprof", "..pprof", "../secret.pprof", "../../secret.pprof", "../../../etc/secret.pprof",
	"/etc/secret.pprof", "../../../../../../../../etc/secret.pprof", "../conf/secret.pprof", "sub/../../secret.pprof", "./../secret.pprof", "x/../../secret.pprof",
	"../dump2/secret.pprof", "../binary_dump2/secret.pprof", "../binary_dump/../secret.pprof", "../emptydir.pprof", "../secret.log", "../conf/scouter.conf", "../logs/scouter.log",
	"sub/nested.pprof", "sub/nested.log", "nowhere.pprof", "op.pprof", "op.log", "op.pprof/", "op.pprof/.", "./op.pprof", "op.log/", "./op.log", "sub/../op.pprof", "../binary_dump/op.pprof", "../dump/op.log", "../dump/op.pprof", "../binary_dump/op.log",
	"..\\secret.pprof", "%2e%2e/secret.pprof", "op.pprof\x00.log", "한글 dump.pprof", "op.txt"}

// fileSize is often near a multiple of some buffer.
func (g *gen) fileSize() int {
	switch g.r.N(6) {
	case 0:
		return g.r.N(20)
	case 1:
		return g.r.N(20000)
	case 2:
		return g.r.N(200000)
	}
	b := []int{300, 512, 600, 1024, 3000, 4096, 4200, 8192, 12288, 16384, 32768, 65535, 65536, 98304, 131072}[g.r.N(15)]
	return max(0, b+g.r.N(2)*(g.r.N(35)-17))
}

func genDump(prop string, seed uint64) *Plan {
	g := newGen(seed)
	p := basePlan(prop, "dump", seed, g)
	if g.pct(20) {
		p.P["few"] = int64(1 + g.r.N(60))
	}
	p.Conf = nil
	p.Env = append(p.Env, "net_collector_ip=10.0.0.1")
	if g.pct(20) {
		p.P["home"] = 1
	}
	if g.pct(30) {
		p.P["mutex0"] = int64(1 + g.r.N(20))
	}
	p.P["pprof_size"] = int64(max(1, g.fileSize()))
	if g.pct(15) {
		p.P["nodirs"] = 1
	}
	n := 4 + g.r.N(16)
	at := int64(0)
	style := g.r.N(4)
	for i := 0; i < n; i++ {
		switch style {
		case 0: // bursts: several in one second
			if g.pct(30) {
				at += int64(g.r.N(35000)) * ms
			} else {
				at += int64(g.r.N(300)) * ms
			}
		default:
			at += []int64{0, int64(g.r.N(300)) * ms, int64(g.r.N(2000)) * ms, int64(g.r.N(35000)) * ms}[g.r.N(4)]
		}
		o := Op{At: at, ID: i + 1}
		k := g.r.N(100)
		switch {
		case k < 18:
			o.K = "td"
			if g.pct(2) { // many in one second
				o.K = g.pick("td", "bt", "mt")
				for j := 8 + g.r.N(20); j > 0; j-- {
					p.Ev = append(p.Ev, o)
				}
			}
		case k < 48:
			o.K = g.pick("bt", "mt", "cc", "cb", "cm")
			if g.pct(30) && i > 0 { // again the same
				for j := len(p.Ev) - 1; j >= 0; j-- {
					if _, ok := dumpKinds[p.Ev[j].K]; ok {
						o.K = p.Ev[j].K
						break
					}
				}
			}
		case k < 60:
			o.K = g.pick("list", "listb")
		case k < 86:
			o.K = g.pick("get", "get", "getb", "getb", "del")
			if g.pct(45) {
				o.S = g.pick(dumpNames...)
				o.U = "lit"
			} else {
				o.N = int64(g.r.N(20))
			}
		case k < 91:
			o.K, o.S = "put", g.pick("dump/op.log", "binary_dump/op.pprof", "binary_dump/한글 dump.pprof", "dump/op.txt", "binary_dump/op.txt", "dump/sub/nested.log", "binary_dump/sub/nested.pprof", "dump/op.pprof", "binary_dump/..pprof", "binary_dump/pprof")
			o.N = int64(g.fileSize())
		case k < 94:
			o.K, o.N, o.M = "rm", int64(g.r.N(20)), int64(g.r.N(12)) // the operator removes a file, at the M-th operation of the next command
		case k < 96:
			o.K, o.N = "jump", (int64(g.r.N(7201))-3600)*sec
			if g.pct(40) {
				o.N = int64(g.r.N(3)-1) * sec
			}
		case k < 97:
			o.K = "rmdir"
		default:
			o.K = g.pick("kill", "power")
		}
		if g.pct(18) {
			f := Fault{K: g.pick("EIO", "ENOSPC", "EDQUOT", "EACCES", "EROFS", "EMFILE", "short", "stall"), Op: g.pick("", "", "open", "write", "write", "read", "stat", "remove", "close", "mkdir", "readdir"), Path: "dump", N: 1 + g.r.N(10), Cnt: g.r.N(4), Part: float64(g.r.N(100)) / 100, From: at, To: at + int64(g.r.N(40000))*ms}
			if f.K == "stall" {
				f.D, f.Cnt = int64(1+g.r.N(2000))*ms, 1+g.r.N(3)
			}
			p.FS = append(p.FS, f)
		}
		p.Ev = append(p.Ev, o)
	}
	p.Dur = at
	return p
}

type dumpTrig struct {
	kind     string
	t, paus  int64
	t1       int64 // when it was answered, or given up: a connection may have had to come first
	proc     int
	answered bool
}

func runDump(w *World) {
	p, c, d := w.p, w.col, w.disk
	base := "/app/scouter"
	if p.p("home") != 0 {
		base = "/opt/agent"
		d.HMkdir(base)
		w.setenv("SCOUTER_AGENT_HOME=" + base)
	}
	simruntime.MutexFrac = int(p.p("mutex0"))
	dirs := []string{base + "/dump", base + "/binary_dump"}
	in := func(f string) bool { return strings.HasPrefix(f, dirs[0]+"/") || strings.HasPrefix(f, dirs[1]+"/") }
	known := map[string]string{} // files that must stay as they are
	mine := map[string]bool{}    // those the harness wrote
	place := func(f, text string) {
		d.HWrite(f, []byte(text))
		known[f] = text
		mine[f] = true
	}
	out := []string{base + "/secret.pprof", "/secret.pprof", "/app/secret.pprof", "/opt/secret.pprof", "/etc/secret.pprof", base + "/conf/secret.pprof", base + "/dump2/secret.pprof", base + "/binary_dump2/secret.pprof", base + "/secret.log"}
	for _, f := range out {
		place(f, "outside file "+f+strings.Repeat(" .", 300))
	}
	d.HMkdir(base + "/emptydir.pprof")
	if p.p("nodirs") == 0 {
		d.HMkdir(dirs[0])
		d.HMkdir(dirs[1])
	}

	// every path a disk fault hit
	hit := map[string]int{}
	hits := 0
	w.onFault = func(kind, op, f string) {
		if kind == "stall" {
			return
		}
		hit[f]++
		hits++
	}
	delName := "" // the file a delete command under way may remove
	opRm, opRmAt, opsNow := "", int64(0), int64(0)
	written := map[string]int{} // profile -> its index in simpprof.Prods, by file
	seen := 0
	find := func(text string) int {
		for i, r := range simpprof.Prods {
			if r.Done && r.Content == text {
				return i
			}
		}
		return -1
	}
	// sweep: nothing the agent completed, and nothing others own, is lost or altered
	sweep := func(when string) {
		for _, f := range sortedKeys(known) {
			b, ok := d.HRead(f)
			switch {
			case !ok && f == delName:
				delete(known, f)
				w.counts["deleted"]++
			case !ok:
				w.fail("C18", "lost", "%s %s is gone though no delete command named it", when, f)
				delete(known, f)
			case string(b) != known[f]:
				w.fail("C18", "altered", "%s %s (%d bytes) is not what it was (%d bytes)", when, f, len(b), len(known[f]))
				delete(known, f)
			}
		}
		if !d.HIsDir(base + "/emptydir.pprof") {
			w.fail("C18", "lost", "%s the directory emptydir.pprof outside the dump directories is gone", when)
			d.HMkdir(base + "/emptydir.pprof")
		}
		n := 0
		for _, r := range simpprof.Prods {
			if r.Done {
				n++
			}
		}
		if n != seen || n > 0 {
			seen = n
			for _, dir := range dirs {
				for _, f := range d.HTree(dir) {
					if _, ok := known[f]; ok || strings.HasSuffix(f, "/") {
						continue
					}
					b, _ := d.HRead(f)
					if i := find(string(b)); i >= 0 {
						known[f] = string(b)
						written[f] = i
					}
				}
			}
		}
	}
	w.onFS = func(op, f string) bool {
		if op == "read" {
			return false
		}
		if opRm != "" && in(f) {
			opsNow++
			if opsNow > opRmAt {
				delete(known, opRm)
				d.HRemove(opRm)
				hit[opRm]++
				opRm = ""
			}
		}
		sweep("before " + op + " of " + f)
		return false
	}
	if !w.bootAgent(60 * sec) {
		if !w.dead() {
			w.fail("C18", "boot", "the process did not finish initialisation within 60 s")
		}
		return
	}
	files := func(dir string) map[string]string { // the regular files, by path
		m := map[string]string{}
		for _, f := range d.HTree(dir) {
			if !strings.HasSuffix(f, "/") {
				b, _ := d.HRead(f)
				m[f] = string(b)
			}
		}
		return m
	}
	all := func() map[string]string {
		m := files(dirs[0])
		for f, t := range files(dirs[1]) {
			m[f] = t
		}
		return m
	}
	var trigs []*dumpTrig
	deleted := map[int]bool{} // profiles whose file was removed by command or operator
	answered, dumps := 0, 0
	ask := func(name string, param map[string]any) *Cmd {
		for end := simrt.Now() + 60*sec; c.cur() == nil; simrt.Sleep(5 * ms) {
			if w.dead() {
				return nil
			}
			if simrt.Now() > end {
				w.fail("C18", "no-connection", "no connection for 60 s")
				return nil
			}
		}
		cmd := c.cur().send(name, param, nil, 0)
		end := simrt.Now() + 30*sec + simrt.S.PausedTotal
		for !cmd.Done && !cmd.P.closed && simrt.Now() < end && !w.dead() {
			simrt.Sleep(ms)
		}
		if !cmd.Done {
			if !cmd.P.closed && !w.dead() {
				w.fail("C18", "no-answer", "%s is not answered within 30 s", name)
			}
			return nil
		}
		answered++
		return cmd
	}
	cut := 0 // files removed before they were complete
	gone := func(f string) {
		if i, ok := written[f]; ok {
			deleted[i] = true
			delete(written, f)
		} else if !mine[f] {
			cut++
		}
	}
	pickFile := func(n int64, dir string) string {
		l := sortedKeys(files(dir))
		if len(l) == 0 {
			return dir + "/nowhere.pprof"
		}
		return l[int(n)%len(l)]
	}
	rng := simrt.NewRng(simrt.Mix(p.Seed, 91))
	down := func(how string) bool {
		w.killAgent()
		w.faults[how]++
		if how == "power" {
			d.Crash(rng)
			for _, f := range sortedKeys(known) {
				if b, ok := d.HRead(f); !mine[f] && (!ok || string(b) != known[f]) { // not yet durable
					delete(known, f)
					gone(f)
				}
			}
			for i, r := range simpprof.Prods {
				if r.Done {
					deleted[i] = true
				}
			}
			d.HMkdir(base + "/emptydir.pprof")
		}
		opRm = ""
		sweep("after " + how)
		for _, t := range trigs {
			if t.proc == w.proc && t.t1+30*sec+simrt.S.PausedTotal-t.paus+5*sec > simrt.Now() {
				t.answered = false // may have been cut short
			}
		}
		for i, r := range simpprof.Prods {
			if r.Proc == w.proc && (!r.Done || r.Start+5*sec+fsStalls(p)+simrt.S.PausedTotal > simrt.Now()) {
				deleted[i] = true // may have been cut short
			}
		}
		simrt.Sleep(int64(rng.N(3000)) * ms)
		simruntime.MutexFrac, simruntime.BlockRate = int(p.p("mutex0")), 0
		if !w.bootAgent(60*sec) && !w.dead() {
			w.fail("C18", "boot", "the process did not start again after %s", how)
			return false
		}
		return !w.dead()
	}
	checkName := func(f string, t dumpTrig) {
		i, r := -1, ""
		if b, ok := d.HRead(f); ok {
			r = string(b)
			i = find(r)
		}
		if hit[f] > 0 {
			return
		}
		if path.Dir(f) != dirs[0] {
			w.fail("C18", "place", "a thread dump is answered with the name %q, outside the dump directory %s", f, dirs[0])
		} else if i < 0 || simpprof.Prods[i].Name != "goroutine" {
			w.fail("C18", "incomplete", "the thread dump answered as %s holds %d bytes, not the complete dump", f, len(r))
		}
	}
	do := func(ev *Op) bool {
		if k, ok := dumpKinds[ev.K]; ok {
			t := &dumpTrig{kind: ev.K, t: simrt.Now(), paus: simrt.S.PausedDone, proc: w.proc}
			trigs = append(trigs, t)
			h0 := hits
			cmd := ask(k.cmd, nil)
			t.t1 = simrt.Now()
			if w.dead() {
				return false
			}
			t.answered = cmd != nil
			dumps++
			if cmd != nil && ev.K == "td" {
				name := ""
				if m := cmd.m(); m != nil {
					name, _ = m["name"].(string)
				}
				if name != "" {
					checkName(name, *t)
				} else if hits == h0 {
					w.fail("C18", "refused", "a thread dump is answered without a name though no disk fault occurred")
				}
			}
			return true
		}
		switch ev.K {
		case "put":
			f := base + "/" + ev.S
			if _, ok := d.HRead(f); ok {
				return true
			}
			place(f, strings.Repeat(fmt.Sprintf("operator file %d ", ev.ID), int(ev.N)/16+1)[:ev.N])
		case "rm":
			dir := dirs[ev.N%2]
			f := pickFile(ev.N, dir)
			if _, ok := d.HRead(f); !ok || delName != "" {
				return true
			}
			gone(f)
			opRm, opRmAt, opsNow = f, ev.M, 0
			w.faults["operator-removes-file"]++
		case "rmdir":
			for _, f := range d.HTree(dirs[1]) {
				if !strings.HasSuffix(f, "/") {
					gone(f)
					delete(known, f)
					d.HRemove(f)
					hit[f]++
				}
			}
			d.HRemove(dirs[1] + "/sub")
			d.HRemove(dirs[1])
			for i, r := range simpprof.Prods { // one that is being written
				if !r.Done && r.Proc == w.proc {
					deleted[i] = true
				}
			}
			for _, t := range trigs { // one about to be: its directory is gone
				if t.proc == w.proc && t.kind[0] == 'c' && t.t1+30*sec+simrt.S.PausedTotal-t.paus+5*sec > simrt.Now() {
					t.answered = false
				}
			}
			w.faults["operator-removes-directory"]++
		case "jump":
			simrt.JumpWall(ev.N)
			w.faults["clock-jump"]++
		case "kill", "power":
			return down(ev.K)
		case "list", "listb":
			name, dir := "OBJECT_DUMP_FILE_LIST", dirs[0]
			if ev.K == "listb" {
				name, dir = "OBJECT_LIST_HEAP_DUMP", dirs[1]
			}
			before, h0, rm := files(dir), hits, opRm
			mt := map[string]int64{}
			for f := range before {
				mt[f] = d.HMtime(f)
			}
			cmd := ask(name, nil)
			if cmd == nil {
				return !w.dead()
			}
			after := files(dir)
			m := cmd.m()
			if m == nil {
				w.fail("C18", "list", "%s is answered without a pack", name)
				return true
			}
			ns, _ := m["name"].([]any)
			ss, _ := m["size"].([]any)
			ls, _ := m["last_modified"].([]any)
			if len(ns) != len(ss) || ev.K == "list" && len(ls) != len(ns) {
				w.fail("C18", "list", "%s gives %d names, %d sizes, %d times", name, len(ns), len(ss), len(ls))
				return true
			}
			lo, hi := map[string]int64{}, map[string]int64{} // by base name: sizes it may have
			see := func(f, t string) {
				b, n := path.Base(f), int64(len(t))
				if x, ok := lo[b]; !ok || n < x {
					lo[b] = n
				}
				if n > hi[b] {
					hi[b] = n
				}
			}
			for f, t := range before {
				see(f, t)
			}
			for f, t := range after {
				see(f, t)
				if _, ok := before[f]; !ok {
					lo[path.Base(f)] = 0
				}
			}
			cnt := map[string]int{}
			for i := range ns {
				b := fmt.Sprint(ns[i])
				cnt[b]++
				x, ok := lo[path.Base(b)]
				n, _ := ss[i].(int64)
				if !ok {
					w.fail("C18", "list", "%s lists %q, which is not there", name, b)
				} else if n < x || n > hi[path.Base(b)] {
					w.fail("C18", "list", "%s lists %q with %d bytes, it has %d", name, b, n, hi[path.Base(b)])
				}
			}
			if hits == h0 {
				for f, t := range before {
					b := path.Base(f)
					if a, ok := after[f]; !ok || a != t || f == rm || path.Dir(f) != dir || ev.K == "listb" && !strings.HasSuffix(f, "pprof") {
						continue
					}
					if cnt[b] == 0 || path.Dir(f) == dir && cnt[b] > 1 && !d.HIsDir(dir+"/sub") {
						w.fail("C18", "list", "%s lists %s %d times", name, f, cnt[b])
						continue
					}
					if ev.K == "list" && lo[b] == hi[b] && mt[f] == d.HMtime(f) {
						ok := false
						for i := range ns {
							x, _ := ls[i].(int64)
							ok = ok || ns[i] == b && x == mt[f]/1e6
						}
						if !ok {
							w.fail("C18", "list", "%s lists %s with a modification time other than %d", name, f, mt[f]/1e6)
						}
					}
				}
				w.counts["lists"]++
			}
		case "get", "getb":
			name, dir, key := "OBJECT_DUMP_FILE_DETAIL", dirs[0], "name"
			if ev.K == "getb" {
				name, dir, key = "OBJECT_DOWNLOAD_HEAP_DUMP", dirs[1], "fileName"
			}
			arg := ev.S
			if ev.U != "lit" {
				arg = strings.TrimPrefix(pickFile(ev.N, dir), dir+"/")
			}
			before, h0, rm := all(), hits, opRm
			cmd := ask(name, map[string]any{key: arg})
			if cmd == nil {
				return !w.dead()
			}
			after := all()
			var got strings.Builder
			for _, b := range cmd.Chunks {
				got.Write(b)
			}
			g := got.String()
			f := path.Join(dir, arg)
			t, ok := before[f]
			a, ok2 := after[f]
			switch {
			case simple(arg) && (ev.K == "get" || strings.HasSuffix(arg, "pprof")) && ok && ok2 && t == a && f != rm && hits == h0:
				if g != t {
					w.fail("C18", "content", "%s %q returns %d bytes, the file has %d", name, arg, len(g), len(t))
				}
				w.counts["downloads"]++
			case g != "":
				fine := false
				for x, y := range after {
					fine = fine || strings.HasPrefix(y, g) && x != ""
				}
				for _, y := range before {
					fine = fine || strings.HasPrefix(y, g)
				}
				for _, r := range simpprof.Prods {
					fine = fine || strings.HasPrefix(r.Content, g)
				}
				if !fine {
					w.fail("C18", "leak", "%s %q returns %d bytes that no dump file starts with: %.60q", name, arg, len(g), g)
				}
			}
		case "del":
			arg := ev.S
			if ev.U != "lit" {
				arg = strings.TrimPrefix(pickFile(ev.N, dirs[1]), dirs[1]+"/")
			}
			f := path.Join(dirs[1], arg)
			if opRm != "" {
				return true
			}
			before, h0 := all(), hits
			_, had := before[f]
			if in(f) {
				delName = f
			}
			cmd := ask("OBJECT_DELETE_HEAP_DUMP", map[string]any{"delfileName": arg})
			if w.dead() {
				return false
			}
			sweep("after a delete of " + fmt.Sprintf("%q", arg))
			delName = ""
			_, still := d.HRead(f)
			if had && !still {
				gone(f)
			}
			if cmd == nil {
				return true
			}
			m := cmd.m()
			ok := m != nil && fmt.Sprint(m["success"]) == "true"
			if m == nil || !ok && fmt.Sprint(m["success"]) != "false" {
				w.fail("C18", "answer", "a delete of %q is answered %v", arg, m)
				return true
			}
			w.counts["deletes"]++
			switch {
			case ok && (!had || still):
				if simple(arg) && strings.HasSuffix(arg, "pprof") || had != still {
					w.fail("C18", "delete", "the delete of %q is answered as done, the file was there: %v, is there: %v", arg, had, still)
				}
			case !ok && had && !still:
				w.fail("C18", "delete", "the delete of %q is answered as failed, the file is gone", arg)
			case !ok && had && simple(arg) && strings.HasSuffix(arg, "pprof") && hits == h0 && mine[f]:
				w.fail("C18", "delete", "the delete of %q fails though no disk fault occurred", arg)
			}
		}
		return true
	}
	for i := range p.Ev {
		ev := &p.Ev[i]
		if t := ev.At - simrt.Now(); t > 0 {
			simrt.Sleep(t)
		}
		if w.dead() || !do(ev) {
			return
		}
	}
	// faults end; what is under way finishes
	w.calmDown()
	w.fsOff = true
	opRm = ""
	pz := simrt.S.PausedDone
	simrt.Sleep(35*sec + simrt.S.PausedTotal - pz + 3*sec)
	for end := simrt.Now() + 40*sec; simrt.Now() < end; simrt.Sleep(sec) {
		busy := false
		for i, r := range simpprof.Prods {
			busy = busy || r.Proc == w.proc && !r.Done && r.Err == nil && !deleted[i]
		}
		if !busy && !simpprof.CPUOn() {
			break
		}
	}
	if w.dead() {
		return
	}
	sweep("at the end")
	// every profile the runtime produced is on disk, whole
	tree := all()
	lookup := func(r *simpprof.Prod) (string, string) {
		head := r.Content[:strings.IndexByte(r.Content, '\n')]
		for _, f := range sortedKeys(tree) {
			if strings.HasPrefix(tree[f], head) {
				return f, tree[f]
			}
		}
		return "", ""
	}
	faulted := 0
	for _, f := range sortedKeys(hit) {
		if in(f) {
			faulted++
		}
	}
	lost := 0
	for i, r := range simpprof.Prods {
		if deleted[i] {
			continue
		}
		f, t := lookup(r)
		if f == "" {
			lost++
			if lost > faulted+cut {
				w.fail("C18", "incomplete", "the %s profile written at %.3f s is in no file (%d files hit by disk faults)", r.Name, float64(r.Start)/1e9, faulted)
			}
			continue
		}
		if hit[f] > 0 {
			continue
		}
		if t != r.Content {
			w.fail("C18", "incomplete", "%s holds %d bytes, the %s profile it was taken for has %d", f, len(t), r.Name, len(r.Content))
		}
		if (r.Name == "block" || r.Name == "mutex") && r.Rate <= 0 {
			w.fail("C18", "rate", "the %s profile of %s was taken while the runtime was not recording", r.Name, f)
		}
		okName := false
		for _, k := range dumpKinds {
			okName = okName || k.name == r.Name && base+"/"+k.dir == path.Dir(f) && strings.HasPrefix(path.Base(f), k.pre) && strings.HasSuffix(f, k.ext)
		}
		if !okName {
			w.fail("C18", "place", "the %s profile is in %s", r.Name, f)
		}
	}
	// a profile covers the half minute its command announced
	for _, r := range simpprof.Prods {
		if r.Name == "goroutine" || !r.Done && r.Err == nil { // or cut off by a crash
			continue
		}
		ok := false
		for _, x := range trigs {
			k := dumpKinds[x.kind]
			ok = ok || k.name == r.Name && (k.ext == ".pprof") == (r.Debug == 0) && r.Start-x.t >= 29*sec && r.Start-x.t1 <= 33*sec+simrt.S.PausedTotal-x.paus+fsStalls(p)
		}
		if !ok {
			w.fail("C18", "duration", "the %s profile written at %.3f s (form %d) is the half minute announced after no command", r.Name, float64(r.Start)/1e9, r.Debug)
		}
	}
	// every trigger answered led to a profile
	for _, k := range sortedKeys(map[string]string{"goroutine": "", "block/dump": "", "block/binary_dump": "", "mutex/dump": "", "mutex/binary_dump": "", "cpu": ""}) {
		want, max, got, forgive := 0, 0, 0, 0
		for _, t := range trigs {
			x := dumpKinds[t.kind]
			if x.name+"/"+x.dir == k || x.name == k {
				max++
				if t.answered {
					want++
				}
				for _, f := range sortedKeys(hit) {
					if strings.HasPrefix(f, base+"/"+x.dir) && (f == base+"/"+x.dir || strings.HasPrefix(path.Base(f), x.pre)) {
						forgive += hit[f]
					}
				}
			}
		}
		for _, r := range simpprof.Prods {
			dir := "dump"
			if r.Debug == 0 {
				dir = "binary_dump"
			}
			if r.Name == k || r.Name+"/"+dir == k {
				got++
			}
		}
		if k == "cpu" {
			forgive += len(simpprof.Refused)
		}
		if hit[base] > 0 {
			forgive += hit[base]
		}
		if got > max {
			w.fail("C18", "extra", "%d %s profiles were written for %d commands", got, k, max)
		}
		if got+forgive < want {
			w.fail("C18", "missing", "%d %s profiles were commanded and answered, %d were written (%d failures of the disk or refusals)", want, k, got, forgive)
		}
	}
	for _, t := range simpprof.Refused {
		ok := false
		for _, x := range trigs {
			ok = ok || x.kind == "cc" && x.t < t && t < x.t1+31*sec+simrt.S.PausedTotal-x.paus+5*sec+fsStalls(p)
		}
		if !ok {
			w.fail("C18", "cpu-stuck", "a CPU profile was refused though none had been started in the 30 s before")
		}
	}
	if simpprof.CPUOn() {
		w.fail("C18", "cpu-stuck", "CPU profiling is still on though no profile is being taken")
	}
	if simruntime.MutexFrac != int(p.p("mutex0")) {
		w.fail("C18", "rate", "mutex profiling is left at 1/%d, it was 1/%d before", simruntime.MutexFrac, p.p("mutex0"))
	}
	if simruntime.BlockRate > 0 {
		w.fail("C18", "rate", "block profiling is left on at rate %d", simruntime.BlockRate)
	}
	// and everything still works
	hit = map[string]int{}
	for i, k := range []string{"td", "list", "listb"} {
		if !do(&Op{K: k, ID: 9000 + i}) {
			return
		}
	}
	for i := int64(0); i < 3; i++ {
		if !do(&Op{K: "get", N: i}) || !do(&Op{K: "getb", N: i}) {
			return
		}
	}
	if !do(&Op{K: "del", N: int64(rng.N(5))}) {
		return
	}
	sweep("at the very end")
	w.nontriv = dumps > 0 && answered > dumps
	fmt.Fprintf(&w.sample, "%d dumps, %d answers, %d profiles, %d disk faults hit, sched %s", dumps, answered, len(simpprof.Prods), hits, p.Sched.Mode)
	w.state(fmt.Sprint(len(trigs), w.counts, len(simpprof.Prods), hits))
}

func fsStalls(p *Plan) (n int64) {
	for _, f := range p.FS {
		if f.K == "stall" {
			n += f.D * int64(f.Cnt)
		}
	}
	return
}

// simple: a plain file name
func simple(s string) bool {
	return s != "" && s != "." && s != ".." && !strings.ContainsAny(s, "/\\\x00") && len(s) < 250
}
