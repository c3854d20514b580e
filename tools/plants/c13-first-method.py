prop = "C13"
pkg = "scouterx/strace"
needs = "the detail of a service asked for after its second method has begun"
breaks = "the present step is shown as the first method for as long as the service runs"
edits = [("scouterx/strace/tracemain.go", """	tctx.LastMethod = funcName

""", """	if tctx.LastMethod == "" || tctx.Noop {
		tctx.LastMethod = funcName
	}

""")]
demo = r'''
package strace

import (
	"context"
	"testing"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace/tctxmanager"
)

func TestDemo(t *testing.T) {
	ctx := StartService(context.Background(), "/demo", "10.0.0.1")
	defer EndService(ctx)
	EndMethod(ctx, StartCustomMethod(ctx, "one"))
	StartCustomMethod(ctx, "two")
	if m := tctxmanager.GetTraceContext(ctx).LastMethod; m != "two" {
		t.Fatalf("the present step is %s", m)
	}
}
'''
