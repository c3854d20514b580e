prop = "C01"
pkg = "scouterx/netio"
needs = "the send queue full at the moment a service ends"
breaks = "its record is dropped with the texts instead of being sent directly"
edits = [("scouterx/netio/dataproxy.go", """	pack.ObjHash = ac.ObjHash
	udpsender.GetInstance().SendPackDirect(pack)
}

func SendProfile""", """	pack.ObjHash = ac.ObjHash
	udpsender.GetInstance().AddPack(pack) // can be batched with others
}

func SendProfile""")]
demo = r'''
package netio

import (
	"bytes"
	"fmt"
	"net"
	"testing"
	"time"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/netdata"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/conf"
)

func TestDemo(t *testing.T) {
	l, err := net.ListenUDP("udp", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1)})
	if err != nil {
		t.Skip(err)
	}
	defer l.Close()
	l.SetReadBuffer(8 << 20)
	conf.GetInstance().NetCollectorUDPPort = l.LocalAddr().(*net.UDPAddr).Port
	SendServiceName("warm up")
	time.Sleep(300 * time.Millisecond)
	for i := 0; i < 60000; i++ {
		SendHashedMessage(fmt.Sprint("text ", i))
	}
	x := netdata.NewXlogPack()
	x.Txid = 0x1122334455667788
	SendXlog(x)
	want := []byte{0x11, 0x22, 0x33, 0x44, 0x55, 0x66, 0x77, 0x88}
	buf := make([]byte, 70000)
	end := time.Now().Add(8 * time.Second)
	for time.Now().Before(end) {
		l.SetReadDeadline(end)
		n, err := l.Read(buf)
		if err == nil && bytes.Contains(buf[:n], want) {
			return
		}
	}
	t.Fatal("the record was not sent")
}
'''
