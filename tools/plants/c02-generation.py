prop = "C02"
pkg = "scouterx/strace"
needs = "a goroutine traced inside a service that inherits from one which inherits itself"
breaks = "the goroutine's transaction carries the id of its grandparent as global id instead of the root's"
edits = [("scouterx/strace/tracemain.go", """	childTctx.Gxid = parentTctx.Gxid
""", """	childTctx.Gxid = parentTctx.Gxid
	if parentTctx.IsChildTx {
		childTctx.Gxid = parentTctx.Caller // the one it was inherited from
	}
""")]
demo = r'''
package strace

import (
	"context"
	"testing"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace/tctxmanager"
)

func TestDemo(t *testing.T) {
	ctx := StartService(context.Background(), "/demo", "10.0.0.1")
	defer EndService(ctx)
	root := tctxmanager.GetTraceContext(ctx)
	ctx2, second := StartNewInheritanceService(context.Background(), root)
	defer EndService(ctx2)
	ctx3, _ := StartNewInheritanceService(context.Background(), second)
	defer EndService(ctx3)
	gxid := make(chan int64)
	GoWithTrace(ctx3, "go", func(c context.Context) { gxid <- tctxmanager.GetTraceContext(c).Gxid })
	if g := <-gxid; g != root.Txid {
		t.Fatalf("the goroutine's global id is %d, the root's id is %d", g, root.Txid)
	}
}
'''
