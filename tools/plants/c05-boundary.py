prop = "C05"
pkg = "scouterx/netio/udpsender"
needs = "a backlog in the send queue whose packets add up to exactly one byte less than udp_max_bytes"
breaks = "the packets collected so far are thrown away instead of being sent"
edits = [("scouterx/netio/udpsender/udpsender.go", """		bytes += len(buffer)
		bufferList.PushBack(buffer)
	}
	udpSender.udpClient.WriteBufferList(bufferList)

""", """		bytes += len(buffer)
		bufferList.PushBack(buffer)
		if bytes == ac.UDPMaxBytes-1 { // exactly full
			bufferList = list.New()
			bytes = 0
		}
	}
	udpSender.udpClient.WriteBufferList(bufferList)

""")]
demo = r'''
package udpsender

import (
	"net"
	"testing"
	"time"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/netio/udpclient"
)

func TestDemo(t *testing.T) {
	l, err := net.ListenUDP("udp", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1)})
	if err != nil {
		t.Skip(err)
	}
	defer l.Close()
	old := ac.UDPMaxBytes
	ac.UDPMaxBytes = 1001
	defer func() { ac.UDPMaxBytes = old }()
	s := &UDPSender{udpChannel: make(chan []byte, 100), udpClient: udpclient.New("127.0.0.1", l.LocalAddr().(*net.UDPAddr).Port)}
	for i := 0; i < 20; i++ {
		b := make([]byte, 100)
		for k := range b {
			b[k] = byte('a' + i)
		}
		s.udpChannel <- b
	}
	s.send(20)
	seen := map[byte]bool{}
	l.SetReadDeadline(time.Now().Add(2 * time.Second))
	buf := make([]byte, 70000)
	for len(seen) < 20 {
		n, err := l.Read(buf)
		if err != nil {
			break
		}
		for _, x := range buf[6:n] {
			if x >= 'a' && x < 'a'+20 {
				seen[x] = true
			}
		}
	}
	if len(seen) != 20 {
		t.Fatalf("%d of 20 packets arrived", len(seen))
	}
}
'''
