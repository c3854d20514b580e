prop = "C09"
pkg = "scouterx/netio/tcpclient"
needs = "the collector's address changing after the first connection was made"
breaks = "the TCP channel keeps dialling the address it was started with"
edits = [("scouterx/netio/tcpclient/tcpclient.go", """	c.host = ac.NetCollectorIP
	c.port = ac.NetCollectorTCPPort
	c.connectionTimeout""", """	if c.host == "" || c.port != ac.NetCollectorTCPPort {
		c.host = ac.NetCollectorIP
		c.port = ac.NetCollectorTCPPort
	}
	c.connectionTimeout""")]
demo = r'''
package tcpclient

import (
	"net"
	"strconv"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	a, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Skip(err)
	}
	defer a.Close()
	port := a.Addr().(*net.TCPAddr).Port
	b, err := net.Listen("tcp", "127.0.0.2:"+strconv.Itoa(port))
	if err != nil {
		t.Skip(err)
	}
	defer b.Close()
	c := &TCPClient{}
	ac.NetCollectorIP, ac.NetCollectorTCPPort, ac.NetCollectorTcpConnectionTimeoutMs = "127.0.0.1", port, 2000
	if !c.Prepare() {
		t.Fatal("no connection")
	}
	c.Close()
	ac.NetCollectorIP = "127.0.0.2"
	c.Prepare()
	b.(*net.TCPListener).SetDeadline(time.Now().Add(2 * time.Second))
	if _, err := b.Accept(); err != nil {
		t.Fatal("no connection to the new address: ", err)
	}
}
'''
