prop = "C12"
pkg = "scouterx/strace"
needs = "a traced goroutine (not a plain service) that runs longer than stuck_service_base_time_ms"
breaks = "a stuck traced goroutine raises the alert but is never ended and stays in the active list"
edits = [("scouterx/strace/tracemain.go", """	if ac.StuckServiceRemoveEnabled {
		step""", """	if ac.StuckServiceRemoveEnabled && tctx.XType != netdata.XTYPE_BACK_THREAD2 {
		step""")]
demo = r'''
package strace

import (
	"context"
	"testing"
	"time"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace/tctxmanager"
)

func TestDemo(t *testing.T) {
	tctxmanager.RegisterEndStuckServiceForciblyFunc(endStuckServiceForcibly)
	ac.StuckServiceBaseTimeMs = 50
	ctx := StartService(context.Background(), "parent", "1.2.3.4")
	got, done := make(chan bool), make(chan bool)
	GoWithTrace(ctx, "child", func(c context.Context) {
		time.Sleep(200 * time.Millisecond)
		tctxmanager.GetActiveCount()
		got <- tctxmanager.GetTraceContext(c).Closed
		close(done)
	})
	if !<-got {
		t.Fatal("the stuck goroutine was not ended")
	}
	<-done
}
'''
