prop = "C08"
pkg = "scouterx/netio/tcpclient"
needs = "two commands that arrive in one segment"
breaks = "what was read ahead of the first command is thrown away with its buffer, so the second is not answered"
edits = [("scouterx/netio/tcpclient/tcpclient.go", """		in := netdata.NewDataInputX(c.conn)
""", """		in := netdata.NewDataInputX(bufio.NewReader(c.conn))
"""), ("scouterx/netio/tcpclient/tcpclient.go", """import (
""", """import (
	"bufio"
""")]
demo = r'''
package tcpclient

import (
	"net"
	"testing"
	"time"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/netdata"
)

func TestDemo(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	conn, err := net.Dial("tcp", l.Addr().String())
	if err != nil {
		t.Fatal(err)
	}
	peer, err := l.Accept()
	if err != nil {
		t.Fatal(err)
	}
	defer peer.Close()
	c := &TCPClient{conn: conn.(*net.TCPConn), host: ac.NetCollectorIP, port: ac.NetCollectorTCPPort, objHash: ac.ObjHash}
	go c.Process()
	peer.SetDeadline(time.Now().Add(3 * time.Second))
	cmd := netdata.NewDataOutputX(nil)
	cmd.WriteString("KEEP_ALIVE")
	cmd.WritePack(netdata.NewMapPack())
	both := netdata.NewDataOutputX(nil)
	both.WriteIntBytes(cmd.Bytes())
	both.WriteIntBytes(cmd.Bytes())
	peer.Write(both.Bytes())
	in := netdata.NewDataInputX(peer)
	in.ReadInt32()
	in.ReadInt32()
	for n := 1; n <= 2; n++ {
		for {
			flag, err := in.ReadUInt8()
			if err != nil {
				t.Fatalf("command %d is not answered: %v", n, err)
			}
			if flag == 4 { // no more
				break
			}
			in.ReadIntBytes()
		}
	}
}
'''
