prop = "C14"
pkg = "scouterx/strace"
needs = "sampling or discard patterns that drop some transactions"
breaks = "services whose record is discarded are not counted in TPS, response time and error rate"
edits = [("scouterx/strace/tracemain.go", """	counter.GetServiceMeter().Add(int(xlog.Elapsed), xlog.Error != 0)
""", ""), ("scouterx/strace/tracemain.go", """		netio.SendXlog(xlog)
	} else {
""", """		counter.GetServiceMeter().Add(int(xlog.Elapsed), xlog.Error != 0)
		netio.SendXlog(xlog)
	} else {
""")]
demo = r'''
package strace

import (
	"context"
	"testing"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/counter"
)

func TestDemo(t *testing.T) {
	ac.XlogSamplingEnabled = true
	ac.XlogSamplingStep1Ms, ac.XlogSamplingStep1RatePct = 1000, 0
	for i := 0; i < 30; i++ {
		ctx := StartService(context.Background(), "sampled", "1.2.3.4")
		EndService(ctx)
	}
	if tps := counter.GetServiceMeter().GetAllCounter(30).Tps; tps < 0.9 {
		t.Fatalf("30 services ended within the last 30 seconds, TPS %v", tps)
	}
}
'''
