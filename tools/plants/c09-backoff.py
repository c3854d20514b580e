prop = "C09"
pkg = "scouterx/netio/tcpclient"
needs = "a collector that is away for a minute or two and then comes back"
breaks = "the pause between attempts grows to a minute and never shrinks again"
edits = [("scouterx/netio/tcpclient/tcpmanager.go", """		minSleep := 3000
		sleep := minSleep
		maxSleep := 60000

""", """"""), ("scouterx/netio/tcpclient/tcpmanager.go", """func startTcp() {
""", """func startTcp() {
	minSleep := 3000
	sleep := minSleep
	maxSleep := 60000
""")]
demo = r'''
package tcpclient

import (
	"net"
	"testing"
	"time"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/conf"
)

func TestDemo(t *testing.T) {
	// counts the attempts seen by a collector that closes every connection
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Skip(err)
	}
	c := conf.GetInstance()
	go func() { // the configuration is loaded once more
		for {
			c.NetCollectorIP, c.NetCollectorTCPPort = "127.0.0.1", l.Addr().(*net.TCPAddr).Port
			time.Sleep(time.Millisecond)
		}
	}()
	go StartTcp()
	n := 0
	end := time.Now().Add(27 * time.Second)
	for time.Now().Before(end) {
		l.(*net.TCPListener).SetDeadline(end)
		x, err := l.Accept()
		if err == nil {
			n++
			x.(*net.TCPConn).SetLinger(0)
			x.Close()
		}
	}
	if n < 5 {
		t.Fatalf("%d attempts in 27 s", n)
	}
}
'''
