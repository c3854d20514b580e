prop = "C13"
pkg = "scouterx/netio/tcpclient"
needs = "the active services asked for in the moment in which one of them ends"
breaks = "a service that ends while the list is made cuts off the rest of the list"
edits = [("scouterx/netio/tcpclient/handlers.go", """		if tctx0 == nil {
			return mpack
		}
		tctx := tctx0.(*netio.TraceContext)
""", """		if tctx0 == nil {
			return mpack
		}
		tctx := tctx0.(*netio.TraceContext)
		if tctx.Closed { // has ended
			break
		}
""")]
demo = r'''
package tcpclient

import (
	"fmt"
	"testing"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/netdata"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/netio"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace/tctxmanager"
)

func TestDemo(t *testing.T) {
	for i := 0; i < 20; i++ {
		x := netio.NewTraceContext()
		x.ServiceName = fmt.Sprint("s", i)
		x.Closed = i == 10 // ending, not yet taken off
		tctxmanager.Start(x)
	}
	for i := 0; i < 30; i++ {
		if v := GetActiveList().Table["service"].(*netdata.ListValue); v.Size() < 19 {
			t.Fatalf("19 services are active but only %d are listed", v.Size())
		}
	}
}
'''
