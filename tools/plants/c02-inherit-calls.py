prop = "C02"
pkg = "scouterx/strace"
needs = "a service started with StartNewInheritanceService from one that has recorded API calls"
breaks = "the inheriting service does not take over the count of API calls when their time is below a millisecond"
edits = [("scouterx/strace/tracemain.go", """	newTctx.ApicallCount = parentTctx.ApicallCount
	newTctx.ApicallTime = parentTctx.ApicallTime
""", """	if parentTctx.ApicallTime > 0 {
		newTctx.ApicallCount = parentTctx.ApicallCount
		newTctx.ApicallTime = parentTctx.ApicallTime
	}
""")]
demo = r'''
package strace

import (
	"context"
	"testing"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace/tctxmanager"
)

func TestDemo(t *testing.T) {
	ctx := StartService(context.Background(), "parent", "1.2.3.4")
	EndApiCall(ctx, StartApiCall(ctx, "call", ""), nil)
	p := tctxmanager.GetTraceContext(ctx)
	p.ApicallTime = 0
	_, n := StartNewInheritanceService(context.Background(), p)
	if n.ApicallCount != p.ApicallCount {
		t.Fatalf("%d calls were inherited as %d", p.ApicallCount, n.ApicallCount)
	}
}
'''
