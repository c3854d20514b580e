prop = "C16"
pkg = "scouterx/strace"
needs = "an API call started while another one of the same service is still open"
breaks = "both calls get the same id"
edits = [("scouterx/strace/tracemain.go", """	step.Txid = keygen.Next()
	tctx.Profile.Push(step)
""", """	step.Txid = keygen.Next()
	if tctx.ApicallCount > 0 { // stay close to the service's id
		step.Txid = tctx.Txid ^ int64(tctx.ApicallCount)
	}
	tctx.Profile.Push(step)
""")]
demo = r'''
package strace

import (
	"context"
	"testing"
)

func TestDemo(t *testing.T) {
	ctx := StartService(context.Background(), "/demo", "10.0.0.1")
	defer EndService(ctx)
	EndApiCall(ctx, StartApiCall(ctx, "one", ""), nil)
	a := StartApiCall(ctx, "two", "")
	b := StartApiCall(ctx, "three", "")
	if a.Txid == b.Txid {
		t.Fatal("two API calls have the same id")
	}
}
'''
