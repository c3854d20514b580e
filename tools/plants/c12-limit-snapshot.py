prop = "C12"
pkg = "scouterx/strace/tctxmanager"
needs = "stuck_service_base_time_ms changed while the agent runs"
breaks = "services are judged by the limit the agent was started with"
edits = [("scouterx/strace/tctxmanager/tctxmanager.go", """	now := time.Now()
	for _, v := range values {
""", """	now := time.Now()
	if usualLimit == 0 {
		usualLimit = ac.StuckServiceBaseTimeMs
	}
	for _, v := range values {
"""), ("scouterx/strace/tctxmanager/tctxmanager.go", """			active[2]++
		}
""", """			active[2]++
		}
		if elapsed < usualLimit { // saves looking closer
			continue
		}
"""), ("scouterx/strace/tctxmanager/tctxmanager.go", """var ac = conf.GetInstance()
""", """var ac = conf.GetInstance()
var usualLimit int
""")]
demo = r'''
package tctxmanager

import (
	"testing"
	"time"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/netio"
)

func TestDemo(t *testing.T) {
	var stuck []*netio.TraceContext
	RegisterEndStuckServiceForciblyFunc(func(c *netio.TraceContext) { stuck = append(stuck, c) })
	c := netio.NewTraceContext()
	Start(c)
	defer End(c)
	GetActiveCount()
	ac.StuckServiceBaseTimeMs = 50
	time.Sleep(200 * time.Millisecond)
	GetActiveCount()
	if len(stuck) != 1 {
		t.Fatalf("%d stuck services, the limit is 50 ms now", len(stuck))
	}
}
'''
