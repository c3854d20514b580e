prop = "C16"
pkg = "scouterx/common/util/keygen"
needs = "two ids made at the same time"
breaks = "both are the same id, as the generator is not locked"
edits = [("scouterx/common/util/keygen/keygen.go", """	keygen.Lock()
""", ""), ("scouterx/common/util/keygen/keygen.go", """	keygen.Unlock()
""", "")]
demo = r'''
package keygen

import (
	"sync"
	"testing"
)

func TestDemo(t *testing.T) {
	// a racing generator repeats itself, or fails with an index out of range
	defer func() {
		if r := recover(); r != nil {
			t.Fatal(r)
		}
	}()
	var wg sync.WaitGroup
	res := make([][]int64, 16)
	fail := make(chan interface{}, 16)
	for i := range res {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					fail <- r
				}
			}()
			l := make([]int64, 300000)
			for k := range l {
				l[k] = Next()
			}
			res[i] = l
		}(i)
	}
	wg.Wait()
	select {
	case r := <-fail:
		t.Fatal(r)
	default:
	}
	seen := map[int64]bool{}
	for _, l := range res {
		for _, x := range l {
			if seen[x] {
				t.Fatalf("%x was given twice", x)
			}
			seen[x] = true
		}
	}
}
'''
