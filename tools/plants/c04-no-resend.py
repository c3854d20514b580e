prop = "C04"
pkg = "scouterx/strace"
needs = "the collector resets the text caches while a service is running and nothing else uses its name"
breaks = "the record of a service refers to a service name that was not sent since the caches were reset"
edits = [("scouterx/strace/tracemain.go", """	tctx.ServiceHash = netio.SendServiceName(tctx.ServiceName)
	tctxmanager.End(tctx)
""", """	if tctx.ServiceHash == 0 {
		tctx.ServiceHash = netio.SendServiceName(tctx.ServiceName)
	}
	tctxmanager.End(tctx)
""")]
demo = r'''
package strace

import (
	"bytes"
	"context"
	"net"
	"testing"
	"time"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/netio"
)

func TestDemo(t *testing.T) {
	l, err := net.ListenUDP("udp", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1)})
	if err != nil {
		t.Skip(err)
	}
	ac.NetCollectorUDPPort = l.LocalAddr().(*net.UDPAddr).Port
	ctx := StartService(context.Background(), "/the/demo/name", "1.2.3.4")
	time.Sleep(2500 * time.Millisecond)
	netio.ResetTextSent()
	b := make([]byte, 70000)
	for {
		l.SetReadDeadline(time.Now().Add(100 * time.Millisecond))
		if _, err := l.Read(b); err != nil {
			break
		}
	}
	EndService(ctx)
	for end := time.Now().Add(3 * time.Second); time.Now().Before(end); {
		l.SetReadDeadline(end)
		n, err := l.Read(b)
		if err != nil {
			break
		}
		if bytes.Contains(b[:n], []byte("/the/demo/name")) {
			return
		}
	}
	t.Fatal("the name was not sent again after the reset")
}
'''
