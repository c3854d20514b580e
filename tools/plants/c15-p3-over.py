prop = "C15"
pkg = "scouterx/strace"
needs = "the third sampling pattern group enabled, a slow service that matches it, and an over rate that differs from the second group's"
breaks = "the slowest services of the third pattern group are sampled at the second group's rate"
edits = [("scouterx/strace/xlogsampler.go", """ac.XlogPatterned3SamplingOverRatePct {""", """ac.XlogPatterned2SamplingOverRatePct {""")]
demo = r'''
package strace

import (
	"testing"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/netdata"
)

func TestDemo(t *testing.T) {
	ac.XlogPatterned3SamplingStep3Ms, ac.XlogPatterned3SamplingOverRatePct, ac.XlogPatterned2SamplingOverRatePct = 10, 0, 100
	if GetXlogSampler().samplingPatterned3(1000, netdata.XLOG_DISCARD_NONE) == netdata.XLOG_DISCARD_NONE {
		t.Fatal("a slow service of the third group was recorded, at a rate of 0%")
	}
}
'''
