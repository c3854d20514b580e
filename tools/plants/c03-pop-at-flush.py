prop = "C03"
pkg = "scouterx/netio"
needs = "a method that ends exactly when profile_step_max_keep_in_memory_count steps are buffered, with more steps after it"
breaks = "the parent is not restored when the end of a method makes the buffer full, so later steps hang below a method that has ended"
edits = [("scouterx/netio/profilecollector.go", """	c.checkDumpStep()
	c.parentLevel = ss.GetParent()
	c.process(ss)
""", """	c.checkDumpStep()
	c.process(ss)
	if c.pos > 0 { // nothing to restore in an empty profile
		c.parentLevel = ss.GetParent()
	}
""")]
demo = r'''
package netio

import (
	"testing"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/netdata"
)

func TestDemo(t *testing.T) {
	aconf.ProfileStepMaxKeepInMemoryCount = 9
	tctx := NewTraceContext()
	c := tctx.Profile
	c.Add(netdata.NewMessageStep("goroutine", 0))
	m := netdata.NewMethodStep()
	c.Push(m)
	for i := 0; i < 7; i++ {
		c.Add(netdata.NewMessageStep("x", 0))
	}
	c.Pop(m)
	s := netdata.NewMessageStep("after", 0)
	c.Add(s)
	if s.GetParent() == m.Index {
		t.Fatalf("a step after the method's end has it as its parent")
	}
}
'''
