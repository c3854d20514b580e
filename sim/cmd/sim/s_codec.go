package main

import (
	"errors"
	"fmt"
	"io"
	"math"
	"reflect"
	"strings"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/netdata"

	"verifsim/simrt"
)

// Scenario "codec": values and packs are written by the agent's encoder or by the collector's,
// and read back by the agent's decoder over a stream that fragments, stalls, ends or fails.
func init() {
	scenarios["codec"] = &Scenario{gen: genCodec, run: runCodec, maxSpin: 8_000_000}
	defCheck("C19", "a case is a sequence of random values, packs and steps with a stream behaviour (fragmented, cut, failing, corrupted) from one seed; non-trivial when at least one value was decoded", Part{"codec", 200000})
}

var codecKinds = []string{"value", "value", "value", "mappack", "mappack", "prims", "perf", "k8s", "object", "xlog", "profile", "text", "alert", "decimal", "blob", "string", "intbytes"}

func genCodec(prop string, seed uint64) *Plan {
	g := newGen(seed)
	p := basePlan(prop, "codec", seed, g)
	p.Lite = true
	p.Sched = simrt.SchedCfg{Mode: "sticky"} // one goroutine: the stream is the adversary
	var ops []Op
	for n := 1 + g.r.N(6); n > 0; n-- {
		op := Op{K: codecKinds[g.r.N(len(codecKinds))], N: int64(g.r.U64() >> 1), S: g.pick("agent", "java"), M: int64(g.r.N(5)), U: g.pick("frag", "one", "whole", "dataeof", "zero")}
		ops = append(ops, op)
	}
	p.Tasks = [][]Op{ops}
	return p
}

// specimen generation
type spec struct{ r *simrt.Rng }

func (s *spec) num() int64 {
	edge := []int64{0, 1, -1, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 0x7fffff, 0x800000, -0x800000, -0x800001, math.MaxInt32, math.MaxInt32 + 1, math.MinInt32, math.MinInt32 - 1,
		0x7fffffffff, 0x8000000000, -0x8000000000, -0x8000000001, math.MaxInt64, math.MinInt64, 1_700_000_000_000}
	switch s.r.N(4) {
	case 0, 1:
		return edge[s.r.N(len(edge))]
	case 2:
		return int64(s.r.N(200)) - 100
	default:
		return int64(s.r.U64()) >> uint(s.r.N(63))
	}
}
func (s *spec) num32() int32 {
	for {
		if n := s.num(); n >= math.MinInt32 && n <= math.MaxInt32 {
			return int32(n)
		}
	}
}
func (s *spec) size() int {
	switch s.r.N(12) {
	case 0:
		return []int{252, 253, 254, 255, 256, 257}[s.r.N(6)]
	case 1:
		return []int{32766, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 70000, 99999, 100000}[s.r.N(11)]
	case 2, 3, 4:
		return 0
	default:
		return s.r.N(40)
	}
}
func (s *spec) bytes(n int) []byte {
	b := make([]byte, n)
	h := s.r.U64()
	for i := range b {
		h = h*6364136223846793005 + 1442695040888963407
		b[i] = byte(h >> 56)
	}
	return b
}
func (s *spec) str() string {
	n := s.size()
	if s.r.N(3) == 0 {
		return strings.Repeat("é漢a", n/6)
	}
	b := s.bytes(n)
	for i := range b {
		b[i] = 32 + b[i]%94
	}
	return string(b)
}
func (s *spec) value(depth int) any {
	k := s.r.N(10)
	if depth <= 0 && k >= 8 {
		k = 1
	}
	switch k {
	case 0:
		return nil
	case 1:
		return s.num()
	case 2:
		return s.r.N(2) == 0
	case 3:
		return math.Float32frombits(uint32(s.r.U64()))
	case 4:
		return math.Float64frombits(s.r.U64())
	case 5:
		return s.str()
	case 6:
		if s.r.N(3) == 0 {
			var v ip4
			copy(v[:], s.bytes(4))
			return v
		}
		return textHash(s.num32())
	case 7:
		return s.bytes(s.size())
	case 8:
		l := []any{}
		for n := s.r.N(5); n > 0; n-- {
			l = append(l, s.value(depth-1))
		}
		return l
	default:
		return s.mapv(depth - 1)
	}
}
func (s *spec) mapv(depth int) map[string]any {
	m := map[string]any{}
	for n := s.r.N(6); n > 0; n-- {
		k := fmt.Sprint("k", s.r.N(100))
		if s.r.N(10) == 0 {
			k = s.str()
		}
		m[k] = s.value(depth)
	}
	return m
}

// alt picks among the ways the encoder offers to say the same thing; seeded by the specimen.
var alt = simrt.NewRng(1)

func toAgent(v any) netdata.Value {
	switch t := v.(type) {
	case nil:
		return netdata.NewNilValue()
	case int64:
		return netdata.NewDecimalValue(t)
	case bool:
		return netdata.NewBooleanValue(t)
	case float32:
		return netdata.NewFloatValue(t)
	case float64:
		if alt.N(2) == 0 {
			return netdata.NewDoubleValue(t)
		}
		x := netdata.NewDoubleEmptyValue()
		x.Value = t
		return x
	case string:
		return netdata.NewTextValue(t)
	case textHash:
		return netdata.NewTextHashValue(int32(t))
	case []byte:
		return netdata.NewBlobValue(t)
	case ip4:
		if alt.N(2) == 0 {
			return netdata.NewIp4Value(fmt.Sprintf("%d.%d.%d.%d", t[0], t[1], t[2], t[3]))
		}
		x := netdata.NewIp4EmptyValue()
		x.Value = append([]byte{}, t[:]...)
		return x
	case []any:
		l := netdata.NewListValue()
		for _, e := range t {
			if alt.N(2) == 0 {
				l.Add(toAgent(e))
				continue
			}
			switch x := e.(type) {
			case int64:
				if x == int64(int32(x)) && alt.N(2) == 0 {
					l.AddInt32(int32(x))
				} else {
					l.AddInt64(x)
				}
			case float32:
				l.AddFloat(x)
			case string:
				l.AddString(x)
			case bool:
				l.AddBoolean(x)
			default:
				l.Add(toAgent(e))
			}
		}
		return l
	case map[string]any:
		m := netdata.NewMapValue()
		for _, k := range sortedKeys(t) {
			m.Put(k, plain(t[k], false, false))
		}
		return m
	}
	panic(fmt.Sprintf("toAgent %T", v))
}

// plain gives a value the way an application puts it: as a Go value where the container takes
// that type, as a wire value otherwise.
func plain(v any, ints, unsigned bool) any {
	if alt.N(2) == 0 {
		return toAgent(v)
	}
	switch x := v.(type) {
	case string, bool, float32:
		return x
	case int64:
		if !ints {
			return x
		}
		switch k := alt.N(6); {
		case k == 0 && x == int64(int32(x)):
			return int32(x)
		case k == 1:
			return int(x)
		case k == 2 && unsigned && x == int64(uint32(x)):
			return uint32(x)
		case k == 3 && unsigned && x >= 0:
			return uint64(x)
		}
		return x
	}
	return toAgent(v)
}

// getters compares the typed accessors of a decoded container with what was written.
type getter interface {
	GetString(string) string
	GetBoolean(string) bool
	GetInt8(string) int8
	GetInt16(string) int16
	GetInt32(string) int32
	GetInt64(string) int64
	IsEmpty() bool
}

func getters(what string, m getter, has func(string) bool, want map[string]any) {
	bad := func(k, f string, got, exp any) {
		W.fail("C19", "accessor", "%s: %s(%.40q) gives %s, %s was written", what, f, k, brief(got), brief(exp))
	}
	if m.IsEmpty() != (len(want) == 0) {
		bad("", "IsEmpty", m.IsEmpty(), len(want))
	}
	if has("no such key") || m.GetString("no such key") != "" || m.GetInt64("no such key") != 0 || m.GetBoolean("no such key") {
		bad("no such key", "Get", "a value", nil)
	}
	for _, k := range sortedKeys(want) {
		if !has(k) {
			bad(k, "ContainsKey", false, want[k])
		}
		switch x := want[k].(type) {
		case string:
			if m.GetString(k) != x {
				bad(k, "GetString", m.GetString(k), x)
			}
		case bool:
			if m.GetBoolean(k) != x {
				bad(k, "GetBoolean", m.GetBoolean(k), x)
			}
		case int64:
			if m.GetInt64(k) != x {
				bad(k, "GetInt64", m.GetInt64(k), x)
			}
			if x == int64(int32(x)) && int64(m.GetInt32(k)) != x {
				bad(k, "GetInt32", m.GetInt32(k), x)
			}
			if x == int64(int16(x)) && int64(m.GetInt16(k)) != x {
				bad(k, "GetInt16", m.GetInt16(k), x)
			}
			if x == int64(int8(x)) && int64(m.GetInt8(k)) != x {
				bad(k, "GetInt8", m.GetInt8(k), x)
			}
		}
	}
}

// checkGetters does the same for every container within a decoded value.
func checkGetters(v netdata.Value, want any) {
	bad := func(i int, f string, got, exp any) {
		W.fail("C19", "accessor", "list: %s(%d) gives %s, %s was written", f, i, brief(got), brief(exp))
	}
	switch t := v.(type) {
	case *netdata.MapValue:
		wm := want.(map[string]any)
		getters("map value", t, t.ContainesKey, wm)
		for _, k := range sortedKeys(wm) {
			checkGetters(t.Table[k], wm[k])
		}
	case *netdata.ListValue:
		wl := want.([]any)
		if t.Size() != len(wl) {
			bad(0, "Size", t.Size(), len(wl))
			return
		}
		for i, e := range wl {
			switch x := e.(type) {
			case string:
				if t.GetString(i) != x {
					bad(i, "GetString", t.GetString(i), x)
				}
			case bool:
				if t.GetBoolean(i) != x {
					bad(i, "GetBoolean", t.GetBoolean(i), x)
				}
			case float32:
				if math.Float32bits(t.GetFloat(i)) != math.Float32bits(x) {
					bad(i, "GetFloat", t.GetFloat(i), x)
				}
			case int64:
				if t.GetInt64(i) != x || x == int64(int32(x)) && int64(t.GetInt32(i)) != x {
					bad(i, "GetInt", t.GetInt64(i), x)
				}
			}
			checkGetters(t.Value[i], e)
		}
	}
}

func fromAgent(v netdata.Value) any {
	switch t := v.(type) {
	case *netdata.NilValue:
		return nil
	case *netdata.DecimalValue:
		return t.Value
	case *netdata.BooleanValue:
		return t.Value
	case *netdata.Float32Value:
		return t.Value
	case *netdata.DoubleValue:
		return t.Value
	case *netdata.TextValue:
		return t.Value
	case *netdata.TextHashValue:
		return textHash(t.Value)
	case *netdata.BlobValue:
		return append([]byte{}, t.Value...)
	case *netdata.Ip4Value:
		var x ip4
		copy(x[:], t.Value)
		return x
	case *netdata.ListValue:
		l := []any{}
		for _, e := range t.Value {
			l = append(l, fromAgent(e))
		}
		return l
	case *netdata.MapValue:
		return fromAgentMap(t.Table)
	}
	return fmt.Sprintf("unknown %T", v)
}
func fromAgentMap(t map[string]netdata.Value) map[string]any {
	m := map[string]any{}
	for k, e := range t {
		m[k] = fromAgent(e)
	}
	return m
}

// same compares two specimens bit by bit.
func same(a, b any) bool {
	switch x := a.(type) {
	case float32:
		y, ok := b.(float32)
		return ok && math.Float32bits(x) == math.Float32bits(y)
	case float64:
		y, ok := b.(float64)
		return ok && math.Float64bits(x) == math.Float64bits(y)
	case []byte:
		y, ok := b.([]byte)
		return ok && string(x) == string(y)
	case []any:
		y, ok := b.([]any)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !same(x[i], y[i]) {
				return false
			}
		}
		return true
	case map[string]any:
		y, ok := b.(map[string]any)
		if !ok || len(x) != len(y) {
			return false
		}
		for k := range x {
			z, ok := y[k]
			if !ok || !same(x[k], z) {
				return false
			}
		}
		return true
	}
	return a == b
}

func brief(v any) string {
	s := fmt.Sprintf("%#v", v)
	if len(s) > 200 {
		s = s[:200] + "..."
	}
	return s
}

// flaky is a stream that hands out data in pieces and may end or fail.
type flaky struct {
	w    *World
	b    []byte
	i    int
	mode string
	r    *simrt.Rng
	end  error // what follows the last byte
	n    int
	zero bool
}

var errStream = errors.New("connection reset by peer")

func (f *flaky) Read(p []byte) (int, error) {
	f.n++
	if f.n > 1_000_000 {
		panic("the decoder reads on for ever")
	}
	if len(p) == 0 {
		return 0, nil
	}
	left := len(f.b) - f.i
	if left == 0 {
		return 0, f.end
	}
	n := len(p)
	switch f.mode {
	case "one":
		n = 1
	case "frag", "dataeof":
		n = 1 + f.r.N(min(n, 1+f.r.N(40)))
	case "zero":
		if !f.zero && f.r.N(3) == 0 {
			f.zero = true
			return 0, nil
		}
		f.zero = false
		n = 1 + f.r.N(n)
	}
	n = min(n, left, len(p))
	copy(p, f.b[f.i:f.i+n])
	f.i += n
	if f.mode == "dataeof" && f.i == len(f.b) {
		return n, f.end
	}
	return n, nil
}

// codecCase is one thing to encode and decode.
type codecCase struct {
	what  string
	enc   []byte                                      // agent's or collector's encoding
	dec   func(in *netdata.DataInputX) (any, error)   // agent's decoder
	want  any                                         // what it must return
	check func(b []byte) (got any, used int, e error) // independent decoder, for the agent's encoder
}

func intsOf(s *spec, n int) []int64 {
	var l []int64
	for ; n > 0; n-- {
		l = append(l, s.num())
	}
	return l
}

func mkCase(o *Op) (c codecCase) {
	s := &spec{simrt.NewRng(uint64(o.N))}
	alt = simrt.NewRng(uint64(o.N) + 7)
	agent := o.S != "java"
	c.what = o.K
	out := netdata.NewDataOutputX(nil)
	jw := &wr{}
	switch o.K {
	case "value":
		v := s.value(3)
		if agent {
			out.WriteValue(toAgent(v))
		} else {
			jw.value(v)
		}
		c.want = v
		c.dec = func(in *netdata.DataInputX) (any, error) {
			x, err := in.ReadValue()
			if err != nil {
				return nil, err
			}
			got := fromAgent(x)
			if same(v, got) {
				checkGetters(x, v)
			}
			return got, nil
		}
		c.check = func(b []byte) (any, int, error) { r := &rd{b: b}; v := r.value(); return v, r.i, r.err }
	case "mappack":
		m := s.mapv(2)
		if agent {
			p := netdata.NewMapPack()
			for _, k := range sortedKeys(m) {
				if l, ok := m[k].([]any); ok && alt.N(2) == 0 {
					lv := p.NewList(k)
					for _, e := range l {
						lv.Add(toAgent(e))
					}
					continue
				}
				p.Put(k, plain(m[k], true, true))
			}
			out.WritePack(p)
		} else {
			jw.u8(10)
			jw.mapBody(m)
		}
		c.want = m
		c.dec = func(in *netdata.DataInputX) (any, error) {
			x, err := in.ReadPack()
			if err != nil {
				return nil, err
			}
			mp, ok := x.(*netdata.MapPack)
			if !ok {
				return fmt.Sprintf("%T", x), nil
			}
			got := fromAgentMap(mp.Table)
			if same(m, got) {
				getters("map pack", mp, mp.ContainsKey, m)
				checkGetters(&netdata.MapValue{Table: mp.Table}, m)
			}
			return got, nil
		}
		c.check = func(b []byte) (any, int, error) {
			r := &rd{b: b}
			_, v := r.pack()
			if m, ok := v.(mapRec); ok {
				return m.M, r.i, r.err
			}
			return nil, r.i, r.err
		}
	case "perf", "k8s", "object", "text", "alert":
		mkPackCase(&c, s, out)
		agent = true
	case "decimal":
		ns := intsOf(s, 1+s.r.N(8))
		for _, n := range ns {
			if !agent {
				jw.dec(n)
			} else if n >= math.MinInt32 && n <= math.MaxInt32 && s.r.N(2) == 0 {
				out.WriteDecimal32(int32(n))
			} else {
				out.WriteDecimal(n)
			}
		}
		var want []any
		for _, n := range ns {
			want = append(want, n)
		}
		c.want = want
		c.dec = func(in *netdata.DataInputX) (any, error) {
			got := []any{}
			for range ns {
				n, err := in.ReadDecimal()
				if err != nil {
					return nil, err
				}
				got = append(got, n)
			}
			return got, nil
		}
		c.check = func(b []byte) (any, int, error) {
			r := &rd{b: b}
			got := []any{}
			for range ns {
				got = append(got, r.dec())
			}
			return got, r.i, r.err
		}
	case "blob", "string":
		b := s.bytes(s.size())
		if o.K == "string" {
			b = []byte(s.str())
		} else if s.r.N(10) == 0 {
			b = s.bytes(70000 + s.r.N(200000))
		}
		switch {
		case !agent:
			jw.blob(b)
		case o.K == "string":
			out.WriteString(string(b))
		default:
			out.WriteBlob(b)
		}
		c.want = b
		c.dec = func(in *netdata.DataInputX) (any, error) {
			if o.K == "string" {
				x, err := in.ReadString()
				return []byte(x), err
			}
			return in.ReadBlob()
		}
		c.check = func(b []byte) (any, int, error) {
			r := &rd{b: b}
			x := append([]byte{}, r.blob()...)
			return x, r.i, r.err
		}
	case "intbytes":
		b := s.bytes(s.size())
		if agent {
			out.WriteIntBytes(b)
		} else {
			jw.i32(int32(len(b)))
			jw.b = append(jw.b, b...)
		}
		c.want = b
		c.dec = func(in *netdata.DataInputX) (any, error) { return in.ReadIntBytes() }
		c.check = func(b []byte) (any, int, error) {
			r := &rd{b: b}
			x := append([]byte{}, r.take(int(r.i32()))...)
			return x, r.i, r.err
		}
	case "prims":
		mkPrims(&c, s, out, jw, agent)
	case "xlog", "profile":
		mkXlogCase(&c, s, out)
		agent = true
	}
	if agent {
		c.enc = append([]byte{}, out.Bytes()...)
		if int(out.Size()) != len(c.enc) || int(out.GetWriteSize()) != len(c.enc) {
			W.fail("C19", "size", "%s: the encoder says it wrote %d (%d) bytes; it wrote %d", c.what, out.Size(), out.GetWriteSize(), len(c.enc))
		}
	} else {
		c.enc = jw.b
		c.check = nil
	}
	return c
}

func mkPrims(c *codecCase, s *spec, out *netdata.DataOutputX, jw *wr, agent bool) {
	var kinds []int
	var want []any
	for n := 1 + s.r.N(8); n > 0; n-- {
		k := s.r.N(9)
		kinds = append(kinds, k)
		v := s.num()
		var b []byte
		jb := &wr{}
		switch k {
		case 0:
			want = append(want, int64(int8(v)))
			out.WriteInt8(int8(v))
			jb.u8(byte(v))
		case 1:
			want = append(want, int64(uint8(v)))
			out.WriteUInt8(uint8(v))
			jb.u8(byte(v))
		case 2:
			want = append(want, int64(int16(v)))
			out.WriteInt16(int16(v))
			jb.i16(int16(v))
		case 3:
			want = append(want, int64(int32(v)))
			out.WriteInt32(int32(v))
			jb.i32(int32(v))
		case 4:
			want = append(want, v)
			out.WriteInt64(v)
			jb.i64(v)
		case 5:
			want = append(want, v&1 == 1)
			out.WriteBoolean(v&1 == 1)
			jb.u8(byte(v & 1))
		case 6:
			want = append(want, math.Float64frombits(uint64(v)))
			out.WriteFloat64(math.Float64frombits(uint64(v)))
			jb.i64(v)
		case 7:
			want = append(want, v)
			out.WriteUInt64(uint64(v))
			jb.i64(v)
		case 8:
			want = append(want, math.Float32frombits(uint32(v)))
			out.WriteFloat32(math.Float32frombits(uint32(v)))
			jb.i32(int32(v))
		}
		b = jb.b
		jw.b = append(jw.b, b...)
	}
	c.want = want
	c.dec = func(in *netdata.DataInputX) (any, error) {
		got := []any{}
		for _, k := range kinds {
			var err error
			var x any
			switch k {
			case 0:
				var v int8
				v, err = in.ReadInt8()
				x = int64(v)
			case 1:
				var v uint8
				v, err = in.ReadUInt8()
				x = int64(v)
			case 2:
				var v int16
				v, err = in.ReadInt16()
				x = int64(v)
			case 3:
				var v int32
				v, err = in.ReadInt32()
				x = int64(v)
			case 4, 7:
				x, err = in.ReadInt64()
			case 8:
				x, err = in.ReadFloat32()
			case 5:
				x, err = in.ReadBoolean()
			case 6:
				x, err = in.ReadFloat64()
			}
			if err != nil {
				return nil, err
			}
			got = append(got, x)
		}
		return got, nil
	}
	c.check = func(b []byte) (any, int, error) {
		if string(b) != string(jw.b) {
			return nil, len(b), fmt.Errorf("encoded as %x, the protocol says %x", head(b, 40), head(jw.b, 40))
		}
		return c.want, len(b), nil
	}
}

func mkPackCase(c *codecCase, s *spec, out *netdata.DataOutputX) {
	tags := s.mapv(1)
	switch c.what {
	case "perf":
		p := netdata.NewPerfCounterPack()
		p.Time, p.ObjName, p.Timetype = s.num(), s.str(), int8(s.r.N(8))
		if alt.N(2) == 0 {
			for _, k := range sortedKeys(tags) {
				p.Put(k, plain(tags[k], true, true))
			}
		} else {
			p.Data = toAgent(tags).(*netdata.MapValue)
		}
		out.WritePack(p)
		want := perfRec{p.Time, p.ObjName, byte(p.Timetype), tags}
		c.want = []any{want.Time, want.Obj, int64(want.TT), tags}
		c.dec = func(in *netdata.DataInputX) (any, error) {
			x, err := in.ReadPack()
			if err != nil {
				return nil, err
			}
			q, ok := x.(*netdata.PerfCounterPack)
			if !ok {
				return fmt.Sprintf("%T", x), nil
			}
			return []any{q.Time, q.ObjName, int64(q.Timetype), fromAgent(q.Data)}, nil
		}
		c.check = func(b []byte) (any, int, error) {
			r := &rd{b: b}
			_, v := r.pack()
			if q, ok := v.(*perfRec); ok {
				return []any{q.Time, q.Obj, int64(q.TT), q.Data}, r.i, r.err
			}
			return nil, r.i, r.err
		}
	case "k8s":
		p := netdata.NewPerfCounterK8SPack()
		p.Time, p.SiteID, p.Cluster, p.NameSpace, p.NodeName = s.num(), s.str(), s.str(), s.str(), s.str()
		p.DaemonSetName, p.DeploymentName, p.PodName, p.ContainerName, p.ObjName = s.str(), s.str(), s.str(), s.str(), s.str()
		p.Timetype, p.MetricLevel, p.Data = int8(s.r.N(8)), int8(s.r.N(8)), toAgent(tags).(*netdata.MapValue)
		if alt.N(2) == 0 { // numbers, texts and flags are all a caller can put
			p.Data = netdata.NewMapValue()
			for _, k := range sortedKeys(tags) {
				switch v := tags[k].(type) {
				case string, bool, float32, int64:
					x := plain(v, true, false)
					if _, ok := x.(netdata.Value); ok {
						x = v
					}
					p.Put(k, x)
				default:
					delete(tags, k)
				}
			}
		}
		viaPack := alt.N(2) == 0
		if viaPack {
			out.WritePack(p)
		} else {
			p.Write(out)
		}
		f := func(p *netdata.PerfCounterK8SPack) any {
			return []any{p.Time, p.SiteID, p.Cluster, p.NameSpace, p.NodeName, p.DaemonSetName, p.DeploymentName, p.PodName, p.ContainerName, p.ObjName, int64(p.Timetype), int64(p.MetricLevel), fromAgent(p.Data)}
		}
		c.want = f(p)
		c.want.([]any)[12] = tags
		c.dec = func(in *netdata.DataInputX) (any, error) {
			if viaPack {
				x, err := in.ReadPack()
				q, ok := x.(*netdata.PerfCounterK8SPack)
				if err != nil || !ok {
					return fmt.Sprintf("%T", x), err
				}
				return f(q), nil
			}
			q := netdata.NewPerfCounterK8SPack()
			_, err := q.Read(in)
			return f(q), err
		}
	case "object":
		if alt.N(4) == 0 {
			p := netdata.NewObjectPack2()
			p.SiteID, p.ObjType, p.ObjHash, p.ObjName, p.Address, p.Version = s.str(), s.str(), s.num32(), s.str(), s.str(), s.str()
			p.Alive, p.Wakeup, p.Family, p.Tags = s.r.N(2) == 0, s.num(), int8(s.r.N(256)), toAgent(tags).(*netdata.MapValue)
			p.Write(out)
			f := func(p *netdata.ObjectPack2) any {
				return []any{p.SiteID, p.ObjType, int64(p.ObjHash), p.ObjName, p.Address, p.Version, p.Alive, p.Wakeup, int64(p.Family), fromAgent(p.Tags)}
			}
			c.want = f(p)
			c.dec = func(in *netdata.DataInputX) (any, error) {
				q := netdata.NewObjectPack2()
				_, err := q.Read(in)
				return f(q), err
			}
			return
		}
		viaPack := alt.N(3) != 0
		p := netdata.NewObjectPack()
		p.ObjType, p.ObjHash, p.ObjName, p.Address, p.Version = s.str(), s.num32(), s.str(), s.str(), s.str()
		p.Alive, p.Wakeup, p.Tags = s.r.N(2) == 0, s.num(), toAgent(tags).(*netdata.MapValue)
		if viaPack {
			out.WritePack(p)
		} else {
			p.Write(out)
		}
		c.want = []any{p.ObjType, int64(p.ObjHash), p.ObjName, p.Address, p.Version, p.Alive, p.Wakeup, tags}
		f := func(q *netdata.ObjectPack) any {
			return []any{q.ObjType, int64(q.ObjHash), q.ObjName, q.Address, q.Version, q.Alive, q.Wakeup, fromAgent(q.Tags)}
		}
		c.dec = func(in *netdata.DataInputX) (any, error) {
			if viaPack {
				x, err := in.ReadPack()
				q, ok := x.(*netdata.ObjectPack)
				if err != nil || !ok {
					return fmt.Sprintf("%T", x), err
				}
				return f(q), nil
			}
			q := netdata.NewObjectPack()
			_, err := q.Read(in)
			return f(q), err
		}
		c.check = func(b []byte) (any, int, error) {
			pre := 0
			if !viaPack {
				b, pre = append([]byte{80}, b...), 1
			}
			r := &rd{b: b}
			_, v := r.pack()
			q, ok := v.(*objRec)
			if !ok {
				return nil, r.i - pre, r.err
			}
			return []any{q.Type, int64(q.Hash), q.Name, q.Addr, q.Version, q.Alive, q.Wakeup, q.Tags}, r.i - pre, r.err
		}
	case "text":
		p := netdata.NewTextPack()
		p.Xtype, p.Hash, p.Text = "service", s.num32(), s.str()
		out.WritePack(p)
		c.want = []any{"service", int64(p.Hash), p.Text}
		c.dec = func(in *netdata.DataInputX) (any, error) {
			x, err := in.ReadPack()
			if err != nil {
				return nil, err
			}
			q, ok := x.(*netdata.TextPack)
			if !ok {
				return fmt.Sprintf("%T", x), nil
			}
			return []any{string(q.Xtype), int64(q.Hash), q.Text}, nil
		}
		c.check = func(b []byte) (any, int, error) {
			r := &rd{b: b}
			_, v := r.pack()
			if q, ok := v.(*textRec); ok {
				return []any{q.Type, int64(q.Hash), q.Text}, r.i, r.err
			}
			return nil, r.i, r.err
		}
	case "alert":
		p := netdata.NewAlertPack()
		p.Time, p.Level, p.ObjType, p.ObjHash, p.Title, p.Message = s.num(), netdata.AlertLevel(s.r.N(4)), s.str(), s.num32(), s.str(), s.str()
		p.Tags = toAgent(tags).(*netdata.MapValue)
		out.WritePack(p)
		c.want = []any{p.Time, int64(p.Level), p.ObjType, int64(p.ObjHash), p.Title, p.Message, tags}
		c.dec = func(in *netdata.DataInputX) (any, error) {
			x, err := in.ReadPack()
			if err != nil {
				return nil, err
			}
			q, ok := x.(*netdata.AlertPack)
			if !ok {
				return fmt.Sprintf("%T", x), nil
			}
			return []any{q.Time, int64(q.Level), q.ObjType, int64(q.ObjHash), q.Title, q.Message, fromAgent(q.Tags)}, nil
		}
		c.check = func(b []byte) (any, int, error) {
			r := &rd{b: b}
			_, v := r.pack()
			if q, ok := v.(*alertRec); ok {
				return []any{q.Time, int64(q.Level), q.ObjType, int64(q.Obj), q.Title, q.Msg, q.Tags}, r.i, r.err
			}
			return nil, r.i, r.err
		}
	}
}

var xlogFields = [][2]string{{"EndTime", "EndTime"}, {"ObjHash", "ObjHash"}, {"Service", "Service"}, {"Txid", "Txid"}, {"Caller", "Caller"}, {"Gxid", "Gxid"}, {"Elapsed", "Elapsed"}, {"Error", "Error"}, {"Cpu", "Cpu"},
	{"SqlCount", "SqlC"}, {"SqlTime", "SqlT"}, {"Ipaddr", "IP"}, {"Kbytes", "Kbytes"}, {"Status", "Status"}, {"Userid", "Userid"}, {"UserAgent", "UA"}, {"Referer", "Referer"}, {"Group", "Group"}, {"ApicallCount", "ApiC"}, {"ApicallTime", "ApiT"},
	{"CountryCode", "Country"}, {"City", "City"}, {"XType", "XType"}, {"Login", "Login"}, {"Desc", "Desc"}, {"WebHash", "WebH"}, {"WebTime", "WebT"}, {"HasDump", "HasDump"}, {"ThreadNameHash", "Thread"}, {"Text1", "T1"}, {"Text2", "T2"}, {"Text3", "T3"}, {"Text4", "T4"}, {"Text5", "T5"}, {"ProfileCount", "PCount"}, {"ProfileSize", "PSize"}}

// mkXlogCase: transaction records and profiles have no decoder in the agent; what its encoder
// writes is compared through the collector's.
func mkXlogCase(c *codecCase, s *spec, out *netdata.DataOutputX) {
	switch c.what {
	case "xlog":
		p := netdata.NewXlogPack()
		v := reflect.ValueOf(p).Elem()
		var names []string
		for _, f := range xlogFields {
			fv := v.FieldByName(f[0])
			if !fv.IsValid() {
				continue
			}
			names = append(names, f[0])
			switch fv.Kind() {
			case reflect.Int32:
				fv.SetInt(int64(s.num32()))
			case reflect.Int64:
				fv.SetInt(s.num())
			case reflect.Uint8:
				fv.SetUint(uint64(s.r.N(256)))
			case reflect.String:
				fv.SetString(s.str())
			case reflect.Slice:
				fv.SetBytes(s.bytes(4))
			}
		}
		out.WritePack(p)
		norm := func(x reflect.Value) any {
			switch x.Kind() {
			case reflect.Int32, reflect.Int64:
				return x.Int()
			case reflect.Uint8:
				return int64(x.Uint())
			case reflect.String:
				return x.String()
			case reflect.Slice:
				return x.Bytes()
			}
			return nil
		}
		var want []any
		for _, n := range names {
			want = append(want, norm(v.FieldByName(n)))
		}
		c.want = want
		c.check = func(b []byte) (any, int, error) {
			r := &rd{b: b}
			_, x := r.pack()
			q, ok := x.(*xlogRec)
			if !ok {
				return nil, r.i, r.err
			}
			var got []any
			for _, f := range xlogFields {
				if v.FieldByName(f[0]).IsValid() {
					got = append(got, norm(reflect.ValueOf(q).Elem().FieldByName(f[1])))
				}
			}
			return got, r.i, r.err
		}
	case "profile":
		var steps []netdata.Step
		var want []any
		for n := 1 + s.r.N(12); n > 0; n-- {
			par, idx, st := s.num32(), s.num32(), s.num32()
			row := []any{int64(par), int64(idx), int64(st)}
			set := func(x *netdata.SingleStep) { x.Parent, x.Index, x.StartTime = par, idx, st }
			switch s.r.N(6) {
			case 0:
				x := netdata.NewMessageStep(s.str(), st)
				set(&x.SingleStep)
				steps = append(steps, x)
				row = append(row, int64(3), x.Message)
			case 1:
				x := netdata.NewHashedMessageStep(s.num32(), st)
				set(&x.SingleStep)
				x.Time, x.Value = s.num32(), s.num32()
				steps = append(steps, x)
				row = append(row, int64(9), int64(x.Hash), int64(x.Time), int64(x.Value))
			case 2:
				x := netdata.NewPMessageStep(st)
				set(&x.SingleStep)
				a, b := s.str(), s.str()
				h := s.num32()
				x.SetMessage(h, a, b)
				x.Elapsed, x.Level = s.num32(), netdata.PMessageLevel(s.r.N(5))
				steps = append(steps, x)
				row = append(row, int64(17), int64(h), int64(x.Elapsed), int64(x.Level), wireStr(a+"\x03"+b+"\x03"))
			case 3:
				x := netdata.NewMethodStep()
				set(&x.SingleStep)
				x.Hash, x.Elapsed, x.CpuTime = s.num32(), s.num32(), s.num32()
				steps = append(steps, x)
				row = append(row, int64(1), int64(x.Hash), int64(x.Elapsed), int64(x.CpuTime))
			case 4:
				x := netdata.NewApiCallStep()
				set(&x.SingleStep)
				x.Txid, x.Hash, x.Elapsed, x.CpuTime, x.Error, x.Opt, x.Address = s.num(), s.num32(), s.num32(), s.num32(), s.num32(), uint8(s.r.N(2)), s.str()
				steps = append(steps, x)
				ad := x.Address
				if x.Opt != 1 {
					ad = ""
				}
				row = append(row, int64(6), x.Txid, int64(x.Hash), int64(x.Elapsed), int64(x.CpuTime), int64(x.Error), ad)
			case 5:
				x := netdata.NewAsyncServiceStep()
				set(&x.SingleStep)
				x.Txid, x.Hash, x.Elapsed = s.num(), s.num32(), s.num32()
				steps = append(steps, x)
				row = append(row, int64(14), x.Txid, int64(x.Hash), int64(x.Elapsed))
			}
			want = append(want, row)
		}
		p := netdata.NewXlogProfilePack()
		p.Time, p.ObjHash, p.Service, p.Txid = s.num(), s.num32(), s.num32(), s.num()
		p.Profile = netdata.StepsToBytes(steps)
		out.WritePack(p)
		c.want = []any{p.Time, int64(p.ObjHash), int64(p.Service), p.Txid, want}
		c.check = func(b []byte) (any, int, error) {
			r := &rd{b: b}
			_, x := r.pack()
			q, ok := x.(*profRec)
			if !ok {
				return nil, r.i, r.err
			}
			var rows []any
			for _, t := range q.Steps {
				row := []any{int64(t.Parent), int64(t.Index), int64(t.Start), int64(t.Type)}
				switch t.Type {
				case 3:
					row = append(row, t.Msg)
				case 9:
					row = append(row, int64(t.Hash), int64(t.Time), int64(t.Value))
				case 17:
					row = append(row, int64(t.Hash), int64(t.Time), int64(t.Level), t.Msg)
				case 1:
					row = append(row, int64(t.Hash), int64(t.Time), int64(t.Cpu))
				case 6:
					row = append(row, t.Txid, int64(t.Hash), int64(t.Time), int64(t.Cpu), int64(t.Err), t.Addr)
				case 14:
					row = append(row, t.Txid, int64(t.Hash), int64(t.Time))
				}
				rows = append(rows, row)
			}
			return []any{q.Time, int64(q.Obj), int64(q.Service), q.Txid, rows}, r.i, r.err
		}
	}
}

const codecModes = "roundtrip, roundtrip, cut, error, corrupt"

func runCodec(w *World) {
	p := w.p
	if !w.bootAgent(30 * sec) {
		w.fail("C19", "boot", "the process did not finish initialisation")
		return
	}
	var ops []Op
	if len(p.Tasks) > 0 {
		ops = p.Tasks[0]
	}
	cur := ""
	t := w.task("codec", func() {
		for i := range ops {
			o := &ops[i]
			cur = fmt.Sprintf("%s (%s encoding, mode %d, stream %s)", o.K, o.S, o.M, o.U)
			func() {
				defer func() {
					if r := recover(); r != nil {
						w.fail("C19", "panic", "%s: the codec panicked: %v (%s)", cur, r, shortStack())
					}
				}()
				runCodecOp(w, o)
			}()
		}
	})
	simrt.S.AllocMax = 1 << 22
	w.quietCrash = true
	if !w.wait(600*sec, t) && !w.dead() {
		w.fail("C19", "hang", "%s: the codec never returned (%s)", cur, t.G.Where())
	}
	for _, c := range w.crash {
		w.fail("C19", "harm", "%s: %s: %s (%s)", cur, c.Kind, c.Msg, c.Stack)
	}
	fmt.Fprintf(&w.sample, "%d specimens, last %s", len(ops), cur)
}

func runCodecOp(w *World, o *Op) {
	c := mkCase(o)
	w.nontriv = true
	w.counts["specimens"]++
	w.counts["bytes"] += int64(len(c.enc))
	w.note(strHash(string(c.enc)))
	w.state(fmt.Sprint(o.K, o.S, o.M, o.U, len(c.enc)))
	if c.check != nil {
		got, used, err := c.check(c.enc)
		if err != nil {
			w.fail("C19", "encoding", "%s: the collector cannot decode what the agent encoded: %v", c.what, err)
		} else if used != len(c.enc) {
			w.fail("C19", "encoding", "%s: the collector uses %d of %d bytes the agent encoded", c.what, used, len(c.enc))
		} else if !same(c.want, got) {
			w.fail("C19", "encoding", "%s: encoded %s, the collector reads %s", c.what, brief(c.want), brief(got))
		}
	}
	if c.dec == nil {
		return
	}
	r := simrt.NewRng(uint64(o.N) + 99)
	const tail = 7
	f := &flaky{w: w, mode: o.U, r: r, end: io.EOF}
	switch o.M {
	case 0, 1: // complete; what follows belongs to the next message
		f.b = append(append([]byte{}, c.enc...), "NEXTMSG"...)
		if o.U == "dataeof" { // the last bytes come together with the end of the stream
			f.b = f.b[:len(c.enc)]
		}
		w.faults["stream-"+o.U]++
		got, err := c.dec(netdata.NewDataInputX(f))
		if err != nil {
			w.fail("C19", "decode-error", "%s of %d bytes (%s encoding) over a %q stream: %v", c.what, len(c.enc), o.S, o.U, err)
		} else if !same(c.want, got) {
			w.fail("C19", "decode-differs", "%s (%s encoding) over a %q stream: wrote %s, read %s", c.what, o.S, o.U, brief(c.want), brief(got))
		} else if f.i != len(c.enc) {
			w.fail("C19", "decode-consumed", "%s: %d bytes written, %d consumed", c.what, len(c.enc), f.i)
		}
	case 2, 3: // ends or fails early
		if len(c.enc) == 0 {
			return
		}
		k := r.N(len(c.enc))
		if r.N(3) == 0 { // within the head: types, counts, lengths
			k = r.N(min(12, len(c.enc)))
		}
		f.b = c.enc[:k]
		kind := "cut"
		if o.M == 3 {
			f.end = errStream
			kind = "error"
		}
		w.faults["stream-"+kind]++
		got, err := c.dec(netdata.NewDataInputX(f))
		if err == nil {
			w.fail("C19", "truncated-accepted", "%s of %d bytes, stream %s after %d: reported as good: %s", c.what, len(c.enc), kind, k, brief(got))
		}
	case 4: // corrupted
		b := append([]byte{}, c.enc...)
		for n := 1 + r.N(3); n > 0 && len(b) > 0; n-- {
			switch r.N(3) {
			case 0:
				b[r.N(len(b))] ^= 1 << uint(r.N(8))
			case 1:
				b[r.N(len(b))] = []byte{0, 1, 3, 5, 8, 0x7f, 0x80, 0xfe, 0xff, 10, 20, 50, 60, 61, 70, 80}[r.N(16)]
			case 2:
				k := r.N(len(b))
				b = append(b[:k], b[min(len(b), k+1+r.N(4)):]...)
			}
		}
		f.b = b
		w.faults["stream-corrupt"]++
		c.dec(netdata.NewDataInputX(f))
	}
}
