package main

// Independent decoder of what the agent puts on the wire: collector-side view, written from the
// Scouter protocol, sharing no code with the agent.

import (
	"encoding/binary"
	"fmt"
	"math"
)

type rd struct {
	b   []byte
	i   int
	err error
}

func (r *rd) fail(f string, a ...any) {
	if r.err == nil {
		r.err = fmt.Errorf("at offset %d of %d: "+f, append([]any{r.i, len(r.b)}, a...)...)
	}
}
func (r *rd) take(n int) []byte {
	if r.err != nil {
		return nil
	}
	if n < 0 || r.i+n > len(r.b) {
		r.fail("need %d bytes", n)
		return nil
	}
	v := r.b[r.i : r.i+n]
	r.i += n
	return v
}
func (r *rd) u8() byte {
	if b := r.take(1); b != nil {
		return b[0]
	}
	return 0
}
func (r *rd) i16() int16 {
	if b := r.take(2); b != nil {
		return int16(binary.BigEndian.Uint16(b))
	}
	return 0
}
func (r *rd) i32() int32 {
	if b := r.take(4); b != nil {
		return int32(binary.BigEndian.Uint32(b))
	}
	return 0
}
func (r *rd) i64() int64 {
	if b := r.take(8); b != nil {
		return int64(binary.BigEndian.Uint64(b))
	}
	return 0
}
func (r *rd) dec() int64 {
	switch n := r.u8(); n {
	case 0:
		return 0
	case 1:
		return int64(int8(r.u8()))
	case 2:
		return int64(r.i16())
	case 3:
		b := r.take(3)
		if b == nil {
			return 0
		}
		return int64(int32(uint32(b[0])<<24|uint32(b[1])<<16|uint32(b[2])<<8) >> 8)
	case 4:
		return int64(r.i32())
	case 5:
		b := r.take(5)
		if b == nil {
			return 0
		}
		return int64(int8(b[0]))<<32 | int64(binary.BigEndian.Uint32(b[1:]))
	case 8:
		return r.i64()
	default:
		r.fail("bad decimal length %d", n)
	}
	return 0
}
func (r *rd) blob() []byte {
	switch n := r.u8(); n {
	case 0:
		return nil
	case 255:
		b := r.take(2)
		if b == nil {
			return nil
		}
		return r.take(int(binary.BigEndian.Uint16(b)))
	case 254:
		return r.take(int(r.i32()))
	default:
		return r.take(int(n))
	}
}
func (r *rd) str() string { return string(r.blob()) }

// values decode to: nil, bool, int64, float32, float64, string, []byte, texthash, []any, map
type textHash int32
type ip4 [4]byte

func (r *rd) value() any {
	switch t := r.u8(); t {
	case 0:
		return nil
	case 10:
		return r.u8() != 0
	case 20:
		return r.dec()
	case 30:
		return math.Float32frombits(uint32(r.i32()))
	case 40:
		return math.Float64frombits(uint64(r.i64()))
	case 50:
		return r.str()
	case 51:
		return textHash(r.i32())
	case 60:
		return append([]byte{}, r.blob()...)
	case 61:
		var v ip4
		copy(v[:], r.take(4))
		return v
	case 70:
		n := r.dec()
		if n < 0 || n > int64(len(r.b)) {
			r.fail("list of %d", n)
			return nil
		}
		l := []any{}
		for i := int64(0); i < n && r.err == nil; i++ {
			l = append(l, r.value())
		}
		return l
	case 80:
		return r.mapBody()
	default:
		r.fail("bad value type %d", t)
	}
	return nil
}
func (r *rd) mapBody() map[string]any {
	n := r.dec()
	if n < 0 || n > int64(len(r.b)) {
		r.fail("map of %d", n)
		return nil
	}
	m := map[string]any{}
	for i := int64(0); i < n && r.err == nil; i++ {
		k := r.str()
		m[k] = r.value()
	}
	return m
}

type xlogRec struct {
	EndTime                         int64
	ObjHash, Service                int32
	Txid, Caller, Gxid              int64
	Elapsed, Error, Cpu, SqlC, SqlT int32
	IP                              []byte
	Kbytes, Status                  int32
	Userid                          int64
	UA, Referer, Group              int32
	ApiC, ApiT                      int32
	Country                         string
	City                            int32
	XType                           byte
	Login, Desc, WebH, WebT         int32
	HasDump                         byte
	Thread                          int32
	T1, T2                          string
	Q                               [4]int32
	T3, T4, T5                      string
	PCount                          int32
	B3                              bool
	PSize                           int32
	Discard                         byte
	Ignore                          bool
}
type textRec struct {
	Type string
	Hash int32
	Text string
}
type profRec struct {
	Time         int64
	Obj, Service int32
	Txid         int64
	Body         []byte
	Steps        []stepRec
}
type stepRec struct {
	Type                 byte
	Parent, Index, Start int32
	Msg                  string
	Hash, Time, Value    int32 // Time: elapsed
	Level                int32
	Txid                 int64
	Cpu, Err             int32
	Opt                  byte
	Addr                 string
}
type alertRec struct {
	Time    int64
	Level   byte
	ObjType string
	Obj     int32
	Title   string
	Msg     string
	Tags    any
}
type perfRec struct {
	Time int64
	Obj  string
	TT   byte
	Data map[string]any
}
type objRec struct {
	Type    string
	Hash    int32
	Name    string
	Addr    string
	Version string
	Alive   bool
	Wakeup  int64
	Tags    any
}
type mapRec struct{ M map[string]any }

func (r *rd) step() stepRec {
	var s stepRec
	s.Type = r.u8()
	s.Parent, s.Index, s.Start = int32(r.dec()), int32(r.dec()), int32(r.dec())
	if z := r.dec(); z != 0 {
		r.fail("step cpu field %d", z)
	}
	switch s.Type {
	case 3:
		s.Msg = r.str()
	case 9:
		s.Hash, s.Time, s.Value = int32(r.dec()), int32(r.dec()), int32(r.dec())
	case 17:
		s.Hash, s.Time, s.Level, s.Msg = int32(r.dec()), int32(r.dec()), int32(r.dec()), r.str()
	case 1:
		s.Hash, s.Time, s.Cpu = int32(r.dec()), int32(r.dec()), int32(r.dec())
	case 14:
		s.Txid, s.Hash, s.Time = r.dec(), int32(r.dec()), int32(r.dec())
		s.Opt = r.u8()
	case 6:
		s.Txid, s.Hash, s.Time, s.Cpu, s.Err = r.dec(), int32(r.dec()), int32(r.dec()), int32(r.dec()), int32(r.dec())
		s.Opt = r.u8()
		if s.Opt == 1 {
			s.Addr = r.str()
		}
	default:
		r.fail("bad step type %d", s.Type)
	}
	return s
}

// pack decodes one pack; typ is its wire type.
func (r *rd) pack() (typ byte, v any) {
	typ = r.u8()
	switch typ {
	case 10:
		return typ, mapRec{r.mapBody()}
	case 21:
		o := &rd{b: r.blob()}
		if r.err != nil {
			return
		}
		x := &xlogRec{}
		x.EndTime, x.ObjHash, x.Service = o.dec(), int32(o.dec()), int32(o.dec())
		x.Txid, x.Caller, x.Gxid = o.i64(), o.i64(), o.i64()
		x.Elapsed, x.Error, x.Cpu, x.SqlC, x.SqlT = int32(o.dec()), int32(o.dec()), int32(o.dec()), int32(o.dec()), int32(o.dec())
		x.IP = append([]byte{}, o.blob()...)
		x.Kbytes, x.Status, x.Userid = int32(o.dec()), int32(o.dec()), o.dec()
		x.UA, x.Referer, x.Group, x.ApiC, x.ApiT = int32(o.dec()), int32(o.dec()), int32(o.dec()), int32(o.dec()), int32(o.dec())
		x.Country, x.City, x.XType = o.str(), int32(o.dec()), o.u8()
		x.Login, x.Desc, x.WebH, x.WebT = int32(o.dec()), int32(o.dec()), int32(o.dec()), int32(o.dec())
		x.HasDump, x.Thread = o.u8(), int32(o.dec())
		x.T1, x.T2 = o.str(), o.str()
		for i := range x.Q {
			x.Q[i] = int32(o.dec())
		}
		x.T3, x.T4, x.T5 = o.str(), o.str(), o.str()
		x.PCount, x.B3, x.PSize, x.Discard, x.Ignore = int32(o.dec()), o.u8() != 0, int32(o.dec()), o.u8(), o.u8() != 0
		if o.err != nil {
			r.fail("xlog: %v", o.err)
		} else if o.i != len(o.b) {
			r.fail("xlog: %d trailing bytes", len(o.b)-o.i)
		}
		return typ, x
	case 26:
		p := &profRec{Time: r.dec(), Obj: int32(r.dec()), Service: int32(r.dec()), Txid: r.i64()}
		p.Body = append([]byte{}, r.blob()...)
		o := &rd{b: p.Body}
		for o.err == nil && o.i < len(o.b) {
			s := o.step()
			if o.err == nil {
				p.Steps = append(p.Steps, s)
			}
		}
		if o.err != nil {
			r.fail("profile: %v", o.err)
		}
		return typ, p
	case 50:
		return typ, &textRec{r.str(), r.i32(), r.str()}
	case 60:
		p := &perfRec{Time: r.i64(), Obj: r.str(), TT: r.u8()}
		if m, ok := r.value().(map[string]any); ok {
			p.Data = m
		} else {
			r.fail("perf counter data is no map")
		}
		return typ, p
	case 70:
		return typ, &alertRec{r.i64(), r.u8(), r.str(), r.i32(), r.str(), r.str(), r.value()}
	case 80:
		return typ, &objRec{r.str(), int32(r.dec()), r.str(), r.str(), r.str(), r.u8() != 0, r.dec(), r.value()}
	default:
		r.fail("bad pack type %d", typ)
	}
	return typ, nil
}

// wr writes the collector's side of the wire.
type wr struct{ b []byte }

func (w *wr) u8(v byte)   { w.b = append(w.b, v) }
func (w *wr) i16(v int16) { w.b = binary.BigEndian.AppendUint16(w.b, uint16(v)) }
func (w *wr) i32(v int32) { w.b = binary.BigEndian.AppendUint32(w.b, uint32(v)) }
func (w *wr) i64(v int64) { w.b = binary.BigEndian.AppendUint64(w.b, uint64(v)) }

// dec writes a decimal the way the Java collector does (lengths 0,1,2,3,4,5,8).
func (w *wr) dec(v int64) {
	switch {
	case v == 0:
		w.u8(0)
	case v >= math.MinInt8 && v <= math.MaxInt8:
		w.u8(1)
		w.u8(byte(v))
	case v >= math.MinInt16 && v <= math.MaxInt16:
		w.u8(2)
		w.i16(int16(v))
	case v >= -0x800000 && v <= 0x7fffff:
		w.u8(3)
		w.b = append(w.b, byte(v>>16), byte(v>>8), byte(v))
	case v >= math.MinInt32 && v <= math.MaxInt32:
		w.u8(4)
		w.i32(int32(v))
	case v >= -0x8000000000 && v <= 0x7fffffffff:
		w.u8(5)
		w.b = append(w.b, byte(v>>32), byte(v>>24), byte(v>>16), byte(v>>8), byte(v))
	default:
		w.u8(8)
		w.i64(v)
	}
}
func (w *wr) blob(b []byte) {
	switch n := len(b); {
	case n == 0:
		w.u8(0)
	case n <= 253:
		w.u8(byte(n))
	case n <= 65535:
		w.u8(255)
		w.i16(int16(n))
	default:
		w.u8(254)
		w.i32(int32(n))
	}
	w.b = append(w.b, b...)
}
func (w *wr) str(s string) { w.blob([]byte(s)) }
func (w *wr) value(v any) {
	switch t := v.(type) {
	case nil:
		w.u8(0)
	case bool:
		w.u8(10)
		if t {
			w.u8(1)
		} else {
			w.u8(0)
		}
	case int:
		w.u8(20)
		w.dec(int64(t))
	case int64:
		w.u8(20)
		w.dec(t)
	case float32:
		w.u8(30)
		w.i32(int32(math.Float32bits(t)))
	case float64:
		w.u8(40)
		w.i64(int64(math.Float64bits(t)))
	case string:
		w.u8(50)
		w.str(t)
	case textHash:
		w.u8(51)
		w.i32(int32(t))
	case []byte:
		w.u8(60)
		w.blob(t)
	case ip4:
		w.u8(61)
		w.b = append(w.b, t[:]...)
	case []any:
		w.u8(70)
		w.dec(int64(len(t)))
		for _, x := range t {
			w.value(x)
		}
	case map[string]any:
		w.u8(80)
		w.mapBody(t)
	default:
		panic(fmt.Sprintf("wr.value %T", v))
	}
}
func (w *wr) mapBody(m map[string]any) {
	w.dec(int64(len(m)))
	for _, k := range sortedKeys(m) {
		w.str(k)
		w.value(m[k])
	}
}

// hash of a text as the collector computes it (CRC32-like polynomial of the Scouter protocol)
func textHashOf(s string) int32 {
	crc := ^uint32(0)
	for i := 0; i < len(s); i++ {
		crc = crcTab[byte(crc)^s[i]] ^ crc>>8
	}
	return int32(crc ^ ^uint32(0))
}

var crcTab = func() (t [256]uint32) {
	for i := range t {
		c := uint32(i)
		for k := 0; k < 8; k++ {
			if c&1 != 0 {
				c = c>>1 ^ 0xedb88320
			} else {
				c >>= 1
			}
		}
		t[i] = c
	}
	return
}()

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	for i := 1; i < len(ks); i++ {
		for j := i; j > 0 && ks[j] < ks[j-1]; j-- {
			ks[j], ks[j-1] = ks[j-1], ks[j]
		}
	}
	return ks
}
