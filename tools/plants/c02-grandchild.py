prop = "C02"
pkg = "scouterx/strace"
needs = "a traced goroutine that starts another traced goroutine: for the first generation the two ids are the same"
breaks = "the record of a grandchild names the whole trace's id as its caller instead of the service that started it"
edits = [("scouterx/strace/tracemain.go", """	childTctx.Caller = parentTctx.Txid
	childTctx.Gxid = parentTctx.Gxid
	if childTctx.Gxid == 0 {
		childTctx.Gxid = parentTctx.Txid
		parentTctx.Gxid = parentTctx.Txid
	}
""", """	childTctx.Gxid = parentTctx.Gxid
	if childTctx.Gxid == 0 {
		childTctx.Gxid = parentTctx.Txid
		parentTctx.Gxid = parentTctx.Txid
	}
	childTctx.Caller = childTctx.Gxid
""")]
demo = r'''
package strace

import (
	"context"
	"testing"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace/tctxmanager"
)

func TestDemo(t *testing.T) {
	ctx := StartService(context.Background(), "/demo", "10.0.0.1")
	defer EndService(ctx)
	done := make(chan [2]int64)
	GoWithTrace(ctx, "child", func(c context.Context) {
		me := tctxmanager.GetTraceContext(c).Txid
		GoWithTrace(c, "grandchild", func(c2 context.Context) {
			done <- [2]int64{me, tctxmanager.GetTraceContext(c2).Caller}
		})
	})
	if r := <-done; r[0] != r[1] {
		t.Fatalf("the grandchild's caller is %x, it was started by %x", r[1], r[0])
	}
}
'''
