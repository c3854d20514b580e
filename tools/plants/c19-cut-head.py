prop = "C19"
pkg = "scouterx/common/netdata"
needs = "a blob of more than 65535 bytes and a stream that ends within its length"
breaks = "the missing length counts as 0 and an empty blob is reported as good"
edits = [("scouterx/common/netdata/datainputx.go", """		length, err = in.ReadInt32()
	default""", """		length, _ = in.ReadInt32()
	default""")]
demo = r'''
package netdata

import "testing"

func TestDemo(t *testing.T) {
	out := NewDataOutputX(nil)
	out.WriteBlob(make([]byte, 70000))
	for n := 1; n < 8; n++ {
		if b, err := NewDataInputX(out.Bytes()[:n]).ReadBlob(); err == nil {
			t.Fatalf("%d bytes are taken for a blob of %d", n, len(b))
		}
	}
}
'''
