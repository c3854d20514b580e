prop = "C20"
pkg = "scouterx/task/countertask"
needs = "a failure while a period's counters are collected"
breaks = "the failure is reported, and no counters are sent ever after"
edits = [("scouterx/task/countertask/countertask.go", """func startRealTimeCounter() {
""", """func startRealTimeCounter() {
	defer common.ReportScouterPanic()
"""), ("scouterx/task/countertask/countertask.go", """func getAllCounterOnPack() netdata.Pack {
	defer common.ReportScouterPanic()

""", """func getAllCounterOnPack() netdata.Pack {
""")]
demo = r'''
package countertask

import (
	"testing"
	"time"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/netio"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace/tctxmanager"
)

func TestDemo(t *testing.T) {
	n := 0
	tctxmanager.RegisterEndStuckServiceForciblyFunc(func(*netio.TraceContext) {
		n++
		panic("demo")
	})
	c := netio.NewTraceContext()
	c.StartTime = time.Now().Add(-24 * time.Hour)
	tctxmanager.Start(c)
	defer tctxmanager.End(c)
	go startRealTimeCounter()
	time.Sleep(7 * time.Second)
	if n < 2 {
		t.Fatalf("the counters were collected %d times in 7 s", n)
	}
}
'''
