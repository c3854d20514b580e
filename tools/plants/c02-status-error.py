prop = "C02"
pkg = "scouterx/strace"
needs = "a web service that recorded an error and answered with a status below 400"
breaks = "its record carries no status"
edits = [("scouterx/strace/tracemain.go", """		tctx.Status = int32(res.StatusCode)
""", """		if tctx.Error == 0 || res.StatusCode >= 400 {
			tctx.Status = int32(res.StatusCode)
		}
""")]
demo = r'''
package strace

import (
	"context"
	"net/http"
	"net/http/httptest"
	"testing"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace/tctxmanager"
)

func TestDemo(t *testing.T) {
	req := httptest.NewRequest("GET", "/demo", nil)
	ctx := StartHttpService(context.Background(), req)
	MarkAsError(ctx, "it failed")
	EndHttpService(ctx, req, &http.Response{StatusCode: 206})
	if s := tctxmanager.GetTraceContext(ctx).Status; s != 206 {
		t.Fatalf("the status is %d", s)
	}
}
'''
