prop = "C14"
pkg = "scouterx/counter"
needs = "fewer than all and more than no services that fail, at a rate that is no whole number of percent"
breaks = "the error rate is cut to whole percents, so one failure among more than a hundred is none"
edits = [("scouterx/counter/serviceMetering.go", """float32(errorSum) / float32(countSum) * 100.0""", """float32(errorSum * 100 / countSum)""")]
demo = r'''
package counter

import "testing"

func TestDemo(t *testing.T) {
	m := GetServiceMeter()
	for i := 0; i < 200; i++ {
		m.Add(1, i == 7)
	}
	if r := m.GetAllCounter(30).ErrorRate; r <= 0 {
		t.Fatalf("one of 200 services failed, the error rate is %v", r)
	}
}
'''
