prop = "C07"
pkg = "scouterx/strace"
needs = "a traced goroutine started with a context that is cancelled, or has a deadline"
breaks = "the goroutine's context is detached: it keeps the values but is never cancelled"
edits = [("scouterx/strace/tracemain.go", """	ctx4Goroutine, childTctx = startService(ctx, serviceName, parentTctx.RemoteIp)
""", """	ctx4Goroutine, childTctx = startService(valuesOf{ctx}, serviceName, parentTctx.RemoteIp)
"""), ("scouterx/strace/tracemain.go", """var ac = conf.GetInstance()
""", """var ac = conf.GetInstance()

// valuesOf is a context which outlives the one it is made of: a goroutine may go on after the request.
type valuesOf struct{ context.Context }

func (valuesOf) Deadline() (t time.Time, ok bool) { return }
func (valuesOf) Done() <-chan struct{}            { return nil }
func (valuesOf) Err() error                       { return nil }
""")]
demo = r'''
package strace

import (
	"context"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	ctx, cancel := context.WithCancel(context.Background())
	ctx = StartService(ctx, "/demo", "10.0.0.1")
	defer EndService(ctx)
	res := make(chan bool, 1)
	GoWithTrace(ctx, "child", func(c context.Context) {
		select {
		case <-c.Done():
			res <- true
		case <-time.After(2 * time.Second):
			res <- false
		}
	})
	cancel()
	if !<-res {
		t.Fatal("the goroutine was not cancelled")
	}
}
'''
