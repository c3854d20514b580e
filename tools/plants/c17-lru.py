prop = "C17"
pkg = "scouterx/common/structure/lra"
needs = "an entry read after others were added, and then more entries than fit"
breaks = "the entry read last survives and a younger one is evicted, and readers change the order without a write lock"
edits = [("scouterx/common/structure/lra/lra.go", """	if ele, contains := c.table[key]; contains {
		return ele.Value.(*entry).value
""", """	if ele, contains := c.table[key]; contains {
		c.lst.MoveToFront(ele)
		return ele.Value.(*entry).value
""")]
demo = r'''
package lra

import "testing"

func TestDemo(t *testing.T) {
	c := New(2)
	c.Add("a", 1)
	c.Add("b", 2)
	c.Get("a")
	c.Add("c", 3)
	if c.Contains("a") || !c.Contains("b") {
		t.Fatal("not the oldest entry was evicted")
	}
}
'''
