prop = "C19"
pkg = "scouterx/common/netdata"
needs = "a text or blob of exactly 65536 bytes"
breaks = "its length does not fit the two bytes it is written in, so it is read back as empty and everything after it as garbage"
edits = [("scouterx/common/netdata/dataoutputx.go", "} else if valueLen <= 65535 {", "} else if valueLen < 65537 {")]
demo = r'''
package netdata

import "testing"

func TestDemo(t *testing.T) {
	for _, n := range []int{0, 1, 253, 254, 255, 65534, 65535, 65536, 65537} {
		out := NewDataOutputX(nil)
		out.WriteBlob(make([]byte, n))
		b, err := NewDataInputX(out.Bytes()).ReadBlob()
		if err != nil || len(b) != n {
			t.Fatalf("a blob of %d bytes is read back with %d: %v", n, len(b), err)
		}
	}
}
'''
