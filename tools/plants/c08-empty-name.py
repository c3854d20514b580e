prop = "C08"
pkg = "scouterx/netio/tcpclient"
needs = "a command with an empty name, followed by others on the same connection"
breaks = "a command with an empty name gets no answer, so that every later answer on the connection is taken for the one before"
edits = [("scouterx/netio/tcpclient/tcpclient.go", """		res := handle(cmd, parameter, in, out0)
		if res != nil {""", """		res := handle(cmd, parameter, in, out0)
		if res == nil && len(out0.Bytes()) == 0 && cmd == "" {
			continue
		}
		if res != nil {""")]
demo = r'''
package tcpclient

import (
	"net"
	"testing"
	"time"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/netdata"
)

func TestDemo(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Skip(err)
	}
	defer l.Close()
	ac.NetCollectorIP, ac.NetCollectorTCPPort = "127.0.0.1", l.Addr().(*net.TCPAddr).Port
	c := &TCPClient{}
	go func() {
		if c.Prepare() {
			c.Process()
		}
	}()
	s, err := l.Accept()
	if err != nil {
		t.Fatal(err)
	}
	defer s.Close()
	s.SetDeadline(time.Now().Add(5 * time.Second))
	in := netdata.NewDataInputX(s)
	in.ReadInt32()
	in.ReadInt32()
	body := netdata.NewDataOutputX(nil)
	body.WriteString("")
	body.WritePack(netdata.NewMapPack())
	out := netdata.NewDataOutputX(nil)
	out.WriteIntBytes(body.Bytes())
	s.Write(out.Bytes())
	b := make([]byte, 1)
	if _, err := s.Read(b); err != nil || b[0] != 4 {
		t.Fatalf("no empty answer to an unknown command: %v %v", b, err)
	}
}
'''
