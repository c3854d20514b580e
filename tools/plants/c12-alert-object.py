prop = "C12"
pkg = "scouterx/netio"
needs = "an alert, then the object renamed, then another alert"
breaks = "alerts name the object as it was called when the first alert was sent"
edits = [("scouterx/netio/dataproxy.go", """	pack.ObjHash = ac.ObjHash
	pack.Level = level
""", """	alertOnce.Do(func() { alertObj = ac.ObjHash })
	pack.ObjHash = alertObj
	pack.Level = level
"""), ("scouterx/netio/dataproxy.go", """var objNameSent = lra.New(100)
""", """var objNameSent = lra.New(100)
var alertOnce sync.Once
var alertObj int32
"""), ("scouterx/netio/dataproxy.go", """	"time"
)
""", """	"sync"
	"time"
)
""")]
demo = r'''
package netio

import (
	"bytes"
	"net"
	"testing"
	"time"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/netdata"
)

func TestDemo(t *testing.T) {
	c, err := net.ListenUDP("udp", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1)})
	if err != nil {
		t.Skip(err)
	}
	defer c.Close()
	ac.NetCollectorIP, ac.NetCollectorUDPPort = "127.0.0.1", c.LocalAddr().(*net.UDPAddr).Port
	time.Sleep(3 * time.Second)
	recv := func(title string, hash []byte) bool {
		buf := make([]byte, 65536)
		for end := time.Now().Add(10 * time.Second); time.Now().Before(end); {
			SendAlert(netdata.AlertError, title, "message")
			c.SetReadDeadline(time.Now().Add(time.Second))
			for {
				n, err := c.Read(buf)
				if err != nil {
					break
				}
				if bytes.Contains(buf[:n], []byte(title)) {
					return bytes.Contains(buf[:n], hash)
				}
			}
		}
		t.Skip("no alert arrived")
		return false
	}
	ac.ObjHash = 0x31323334
	if !recv("first-alert", []byte("1234")) {
		t.Fatal("the alert does not name the object")
	}
	ac.ObjHash = 0x35363738
	if !recv("second-alert", []byte("5678")) {
		t.Fatal("the alert does not name the object by its new name")
	}
}
'''
