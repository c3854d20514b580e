prop = "C19"
pkg = "scouterx/common/netdata"
needs = "a Go int beyond 32 bits put into a map pack"
breaks = "the value is cut to its low 32 bits on the way into the pack, so another number is read back"
edits = [("scouterx/common/netdata/mappack.go", "	case int:\n		mapPack.Table[key] = NewDecimalValue(int64(t))", "	case int:\n		mapPack.Put(key, int32(t))")]
demo = r'''
package netdata

import "testing"

func TestDemo(t *testing.T) {
	for _, n := range []int{0, -1, 1 << 20, -1 << 31, 1<<31 - 1, 1 << 31, 1 << 40, -1 << 62} {
		p := NewMapPack()
		p.Put("n", n)
		out := NewDataOutputX(nil)
		out.WritePack(p)
		x, err := NewDataInputX(out.Bytes()).ReadPack()
		if err != nil {
			t.Fatal(err)
		}
		if got := x.(*MapPack).GetInt64("n"); got != int64(n) {
			t.Fatalf("%d was written, %d is read back", n, got)
		}
	}
}
'''
