prop = "C15"
pkg = "scouterx/strace"
needs = "a service of a sampling pattern's second group that took exactly the first step's time"
breaks = "it is judged by the first range's rate"
edits = [("scouterx/strace/xlogsampler.go", """	if elapsed < ac.XlogPatterned2SamplingStep1Ms {
""", """	if elapsed <= ac.XlogPatterned2SamplingStep1Ms {
""")]
demo = r'''
package strace

import (
	"testing"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/netdata"
)

func TestDemo(t *testing.T) {
	ac.XlogPatterned2SamplingStep1Ms, ac.XlogPatterned2SamplingStep1RatePct = 100, 0
	ac.XlogPatterned2SamplingStep2Ms, ac.XlogPatterned2SamplingStep2RatePct = 1000, 100
	if m := GetXlogSampler().samplingPatterned2(100, netdata.XLOG_DISCARD_NONE); m != netdata.XLOG_DISCARD_NONE {
		t.Fatal("a service of 100 ms is discarded by the rate for those below 100 ms")
	}
}
'''
