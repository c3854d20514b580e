prop = "C05"
pkg = "scouterx/netio/udpclient"
needs = "more than 255 small packets waiting, so that one datagram takes them all"
breaks = "the datagram announces the number of its packets modulo 256, so the collector ignores the rest"
edits = [("scouterx/netio/udpclient/udpclient.go", """	out.WriteInt16(bufferCount)
""", """	out.WriteInt16(int16(byte(bufferCount)))
""")]
demo = r'''
package udpclient

import (
	"container/list"
	"encoding/binary"
	"net"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	l, err := net.ListenUDP("udp", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1)})
	if err != nil {
		t.Skip(err)
	}
	defer l.Close()
	c := New("127.0.0.1", l.LocalAddr().(*net.UDPAddr).Port)
	ls := list.New()
	for i := 0; i < 300; i++ {
		ls.PushBack(make([]byte, 20))
	}
	c.WriteBufferList(ls)
	buf := make([]byte, 70000)
	l.SetReadDeadline(time.Now().Add(2 * time.Second))
	if _, err := l.Read(buf); err != nil {
		t.Fatal(err)
	}
	if n := binary.BigEndian.Uint16(buf[4:]); n != 300 {
		t.Fatalf("300 packets announced as %d", n)
	}
}
'''
