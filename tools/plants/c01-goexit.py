prop = "C01"
pkg = "scouterx/strace"
needs = "a goroutine started with GoWithTrace that ends through runtime.Goexit (or t.FailNow, log-and-exit helpers) instead of returning"
breaks = "its service is never ended: no record is reported and it stays on the active list"
edits = [("scouterx/strace/tracemain.go", """		defer endChildGoroutineService(newCtx)
		func4Goroutine(newCtx)
""", """		func4Goroutine(newCtx)
		endChildGoroutineService(newCtx)
""")]
demo = r'''
package strace

import (
	"context"
	"runtime"
	"testing"
	"time"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace/tctxmanager"
)

func TestDemo(t *testing.T) {
	ctx := StartService(context.Background(), "/demo", "10.0.0.1")
	defer EndService(ctx)
	id := make(chan int64, 1)
	GoWithTrace(ctx, "child", func(c context.Context) {
		id <- tctxmanager.GetTraceContext(c).Txid
		runtime.Goexit()
	})
	txid := <-id
	for i := 0; i < 100; i++ {
		if tctxmanager.GetTraceContextByTxid(txid) == nil {
			return
		}
		time.Sleep(20 * time.Millisecond)
	}
	t.Fatal("the ended goroutine's service is still active after 2 s")
}
'''
