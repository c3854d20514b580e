prop = "C17"
pkg = "scouterx/common/structure/lra"
needs = "an entry added by another goroutine while the cache is being cleared"
breaks = "the entry stays in the ordering without being in the cache: the size is wrong from then on"
edits = [("scouterx/common/structure/lra/lra.go", """	c.lst = list.New()
	c.table = make(map[interface{}]*list.Element)
}

func (c *Cache) GetValues""", """	c.table = make(map[interface{}]*list.Element)
	old := c.lst
	lock.Unlock() // emptying a long list takes a while
	for old.Len() > 0 && c.MaxEntries != 0 && old.Len() > c.MaxEntries {
		old.Remove(old.Back())
	}
	lock.Lock()
	c.lst = list.New()
}

func (c *Cache) GetValues""")]
demo = r'''
package lra

import (
	"sync"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	for end := time.Now().Add(25 * time.Second); time.Now().Before(end); {
		c := New(1000)
		var wg sync.WaitGroup
		for g := 0; g < 4; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				for i := 0; i < 2000; i++ {
					if g == 0 && i%10 == 0 {
						c.Clear()
					}
					c.Add(g*10000+i, i)
				}
			}(g)
		}
		wg.Wait()
		if c.Size() != len(c.GetValues()) {
			t.Fatalf("the cache has %d values and says its size is %d", len(c.GetValues()), c.Size())
		}
	}
}
'''
