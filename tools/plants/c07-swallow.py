prop = "C07"
pkg = "scouterx"
needs = "a function given to GoWithTrace that panics"
breaks = "the application's own panic is caught by the agent and the process goes on as if nothing had happened"
edits = [("scouterx/strace/tracemain.go", """		if childTctx != nil {
			childTctx.StartTime = time.Now()
		}
""", """		defer common.ReportScouterPanic()
		if childTctx != nil {
			childTctx.StartTime = time.Now()
		}
""")]
demo = r'''
package scouterx

import (
	"context"
	"os"
	"os/exec"
	"testing"
	"time"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace"
)

func TestDemo(t *testing.T) {
	if os.Getenv("DEMO_CHILD") == "1" {
		ctx := strace.StartService(context.Background(), "/demo", "10.0.0.1")
		strace.GoWithTrace(ctx, "child", func(c context.Context) { panic("the application's own") })
		time.Sleep(500 * time.Millisecond)
		os.Exit(0)
	}
	cmd := exec.Command(os.Args[0], "-test.run=^TestDemo$")
	cmd.Env = append(os.Environ(), "DEMO_CHILD=1")
	if err := cmd.Run(); err == nil {
		t.Fatal("the application's panic did not end the process")
	}
}
'''
