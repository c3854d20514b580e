prop = "C05"
pkg = "scouterx/netio/udpclient"
needs = "a packet that is split into more than 127 fragments"
breaks = "fragments from the 128th on carry wrong numbers"
edits = [("scouterx/netio/udpclient/udpclient.go", """	out.WriteInt16(int16(num))
""", """	out.WriteInt16(int16(int8(num)))
""")]
demo = r'''
package udpclient

import (
	"encoding/binary"
	"net"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	l, err := net.ListenUDP("udp", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1)})
	if err != nil {
		t.Skip(err)
	}
	defer l.Close()
	c := New("127.0.0.1", l.LocalAddr().(*net.UDPAddr).Port)
	c.SetUDPMaxBytes(100)
	c.WriteBuffer(make([]byte, 15000))
	buf := make([]byte, 70000)
	seen := map[int]bool{}
	for i := 0; i < 150; i++ {
		l.SetReadDeadline(time.Now().Add(2 * time.Second))
		n, err := l.Read(buf)
		if err != nil || n < 20 {
			t.Fatal(err)
		}
		seen[int(int16(binary.BigEndian.Uint16(buf[18:])))] = true
	}
	for i := 0; i < 150; i++ {
		if !seen[i] {
			t.Fatalf("no fragment has number %d", i)
		}
	}
}
'''
