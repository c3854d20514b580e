prop = "C06"
pkg = "scouterx/netio/udpsender"
needs = "a full send queue: sending stuck, or more texts at once than the queue holds"
breaks = "with a full send queue every tracing call that sends a text waits half a second for room instead of returning"
edits = [("scouterx/netio/udpsender/udpsender.go", """		return true
	default:
""", """		return true
	case <-time.After(500 * time.Millisecond): // no room
""")]
demo = r'''
package udpsender

import (
	"testing"
	"time"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/netdata"
)

func TestDemo(t *testing.T) {
	s := &UDPSender{udpChannel: make(chan []byte, 1)}
	s.AddPack(&netdata.TextPack{"x", 1, "a"})
	t0 := time.Now()
	s.AddPack(&netdata.TextPack{"x", 2, "b"})
	if d := time.Since(t0); d > 300*time.Millisecond {
		t.Fatalf("the call took %v with a full queue", d)
	}
}
'''
