prop = "C13"
pkg = "scouterx/strace/tctxmanager"
needs = "exactly 2000 active services"
breaks = "the last of 2000 services is not counted as active (nor looked at when stuck ones are searched)"
edits = [("scouterx/strace/tctxmanager/tctxmanager.go", """		if  count > max {
""", """		if count >= max {
""")]
demo = r'''
package tctxmanager

import (
	"testing"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/netio"
)

func TestDemo(t *testing.T) {
	for i := 0; i < 2000; i++ {
		c := netio.NewTraceContext()
		c.Txid = int64(i + 1)
		Start(c)
		defer End(c)
	}
	if a := GetActiveCount(); a[0]+a[1]+a[2] != 2000 {
		t.Fatalf("%v services are active, 2000 were started", a)
	}
}
'''
