prop = "C20"
pkg = "scouterx/task/countertask"
needs = "the object renamed while the agent runs"
breaks = "the five-minute counters go on under the old name"
edits = [("scouterx/task/countertask/countertask.go", """	pack.ObjName = ac.ObjName
	pack.Timetype = netdata.TimeTypeFiveMin
""", """	nameOnce.Do(func() { name = ac.ObjName })
	pack.ObjName = name
	pack.Timetype = netdata.TimeTypeFiveMin
"""), ("scouterx/task/countertask/countertask.go", """func Start() {
""", """var nameOnce sync.Once
var name string

func Start() {
"""), ("scouterx/task/countertask/countertask.go", """	"time"
""", """	"sync"
	"time"
""")]
demo = r'''
package countertask

import (
	"testing"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/netdata"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/conf"
)

func TestDemo(t *testing.T) {
	getAll5MinCounterOnPack()
	conf.GetInstance().ObjName = "/host/other"
	if p := getAll5MinCounterOnPack().(*netdata.PerfCounterPack); p.ObjName != "/host/other" {
		t.Fatalf("the counters are sent as %s", p.ObjName)
	}
}
'''
