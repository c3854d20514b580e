package sync

import (
	"fmt"
	gosort "sort"
	"verifsim/simrt"
)

type Mutex = simrt.Mutex
type RWMutex = simrt.RWMutex
type Once = simrt.Once
type WaitGroup = simrt.WaitGroup
type Cond = simrt.Cond

func NewCond(l simrt.Locker) *Cond { return simrt.NewCond(l) }

// Pool never keeps anything across a yield it does not control: Get takes the last Put.
type Pool struct {
	New   func() any
	items []any
}

func (p *Pool) Get() any {
	if n := len(p.items); n > 0 && !simrt.Misc().P(0.2) {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(x any) {
	if x != nil && len(p.items) < 64 {
		p.items = append(p.items, x)
	}
}

// Map: each operation is one atomic step.
type Map struct{ m map[any]any }

func (m *Map) init() {
	if m.m == nil {
		m.m = map[any]any{}
	}
}
func (m *Map) Load(k any) (any, bool) { v, ok := m.m[k]; return v, ok }
func (m *Map) Store(k, v any)         { m.init(); m.m[k] = v }
func (m *Map) Delete(k any)           { delete(m.m, k) }
func (m *Map) Clear()                 { m.m = nil }
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.init()
	if o, ok := m.m[k]; ok {
		return o, true
	}
	m.m[k] = v
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) { v, ok := m.m[k]; delete(m.m, k); return v, ok }
func (m *Map) Swap(k, v any) (any, bool)       { m.init(); o, ok := m.m[k]; m.m[k] = v; return o, ok }
func (m *Map) CompareAndSwap(k, o, n any) bool {
	if c, ok := m.m[k]; ok && c == o {
		m.m[k] = n
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, o any) bool {
	if c, ok := m.m[k]; ok && c == o {
		delete(m.m, k)
		return true
	}
	return false
}
func (m *Map) Range(f func(k, v any) bool) {
	ks := make([]any, 0, len(m.m))
	for k := range m.m {
		ks = append(ks, k)
	}
	gosort.Slice(ks, func(i, j int) bool {
		return fmt.Sprintf("%T%020v", ks[i], ks[i]) < fmt.Sprintf("%T%020v", ks[j], ks[j])
	})
	for _, k := range ks {
		if v, ok := m.m[k]; ok {
			if !f(k, v) {
				return
			}
		}
		simrt.Y(0)
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}
func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}
