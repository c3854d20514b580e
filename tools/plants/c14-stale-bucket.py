prop = "C14"
pkg = "scouterx/counter"
needs = "no service for more than five minutes, and then a report at the right second"
breaks = "the counts of one second of more than five minutes ago come back"
edits = [("scouterx/counter/metering.go", """i < curTime-m.time && i < m.bucketSize; i++""", """i < curTime-m.time && i < m.bucketSize-1; i++""")]
demo = r'''
package counter

import "testing"

func TestDemo(t *testing.T) {
	type b struct{ n int }
	m := NewMetering(func() interface{} { return &b{} }, func(x interface{}) { x.(*b).n = 0 })
	m.GetCurrentBucket()
	for i := range m.table {
		m.table[i].(*b).n = 7
	}
	m.time -= 1000 // idle since
	m.GetCurrentBucket()
	for i := range m.table {
		if m.table[i].(*b).n != 0 {
			t.Fatalf("bucket %d still counts %d", i, m.table[i].(*b).n)
		}
	}
}
'''
