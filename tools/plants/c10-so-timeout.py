prop = "C10"
pkg = "scouterx/netio/tcpclient"
needs = "net_collector_tcp_so_timeout_ms changed while a connection to the collector is open"
breaks = "the timeout of the open connection stays what it was when it was made"
edits = [("scouterx/netio/tcpclient/tcpclient.go", """c.conn.SetReadDeadline(time.Now().Add(time.Duration(ac.NetCollectorTcpSoTimeoutMs) * time.Millisecond))
""", """c.conn.SetReadDeadline(time.Now().Add(time.Duration(c.soTimeout) * time.Millisecond))
""")]
demo = r'''
package tcpclient

import (
	"net"
	"testing"
	"time"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/netdata"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/conf"
)

func TestDemo(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Skip(err)
	}
	c := conf.GetInstance()
	c.NetCollectorIP, c.NetCollectorTCPPort = "127.0.0.1", l.Addr().(*net.TCPAddr).Port
	c.NetCollectorTcpConnectionTimeoutMs, c.NetCollectorTcpSoTimeoutMs = 1000, 60000
	cl := &TCPClient{}
	if !cl.Prepare() {
		t.Fatal("no connection")
	}
	done := make(chan error, 1)
	go func() { done <- cl.Process() }()
	x, err := l.Accept()
	if err != nil {
		t.Fatal(err)
	}
	time.Sleep(200 * time.Millisecond)
	c.NetCollectorTcpSoTimeoutMs = 500
	in := netdata.NewDataOutputX(nil)
	in.WriteString("KEEP_ALIVE")
	in.WritePack(netdata.NewMapPack())
	out := netdata.NewDataOutputX(x)
	out.WriteIntBytes(in.Bytes())
	select {
	case <-done:
	case <-time.After(4 * time.Second):
		t.Fatal("the connection did not time out after 500 ms")
	}
}
'''
