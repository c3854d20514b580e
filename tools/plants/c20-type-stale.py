prop = "C20"
pkg = "scouterx/task/agenttask"
needs = "obj_type changed in the configuration while the object name stays"
breaks = "heartbeats go on carrying the old object type until the name changes too"
edits = [("scouterx/task/agenttask/agenttask.go", """	objPack.ObjType = ac.ObjType
""", """	if objName != lastName { // look it up only for a new object
		lastName, lastType = objName, ac.ObjType
	}
	objPack.ObjType = lastType
"""), ("scouterx/task/agenttask/agenttask.go", """func Start() {
""", """var lastName, lastType string

func Start() {
""")]
demo = r'''
package agenttask

import (
	"bytes"
	"net"
	"testing"
	"time"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/conf"
)

func TestDemo(t *testing.T) {
	l, err := net.ListenUDP("udp", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1)})
	if err != nil {
		t.Skip(err)
	}
	c := conf.GetInstance()
	c.NetCollectorUDPPort = l.LocalAddr().(*net.UDPAddr).Port
	c.ObjType = "type-one"
	SendObjPack()
	time.Sleep(500 * time.Millisecond)
	c.ObjType = "type-two"
	SendObjPack()
	b := make([]byte, 70000)
	for end := time.Now().Add(3 * time.Second); time.Now().Before(end); {
		l.SetReadDeadline(end)
		n, err := l.Read(b)
		if err != nil {
			break
		}
		if bytes.Contains(b[:n], []byte("type-two")) {
			return
		}
	}
	t.Fatal("no heartbeat carries the type now configured")
}
'''
