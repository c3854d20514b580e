package simrt

import (
	"fmt"
	"reflect"
	"sort"
	"unsafe"
)

// ---------------------------------------------------------------- locks

type Mutex struct {
	held bool
	q    []*G
}

func (m *Mutex) Lock() {
	chkKilled()
	for m.held {
		m.q = append(m.q, cur)
		S.park("mutex")
	}
	m.held = true
}
func (m *Mutex) TryLock() bool {
	chkKilled()
	if m.held {
		return false
	}
	m.held = true
	return true
}
func (m *Mutex) Unlock() {
	if cur != nil && cur.killed {
		return
	}
	if !m.held {
		Fatal("fatal error: sync: unlock of unlocked mutex")
	}
	m.held = false
	if len(m.q) > 0 {
		g := m.q[0]
		m.q = m.q[1:]
		S.ready(g)
	}
}

type RWMutex struct {
	w     bool
	r     int
	wwait int // writers waiting: new readers queue behind them
	q     []*rwWaiter
}
type rwWaiter struct {
	g     *G
	write bool
	ok    bool
}

func (m *RWMutex) Lock() {
	chkKilled()
	if !m.w && m.r == 0 && len(m.q) == 0 {
		m.w = true
		return
	}
	w := &rwWaiter{g: cur, write: true}
	m.q = append(m.q, w)
	for !w.ok {
		S.park("rwmutex.Lock")
	}
}
func (m *RWMutex) TryLock() bool {
	chkKilled()
	if !m.w && m.r == 0 && len(m.q) == 0 {
		m.w = true
		return true
	}
	return false
}
func (m *RWMutex) RLock() {
	chkKilled()
	if !m.w && len(m.q) == 0 {
		m.r++
		return
	}
	w := &rwWaiter{g: cur}
	m.q = append(m.q, w)
	for !w.ok {
		S.park("rwmutex.RLock")
	}
}
func (m *RWMutex) TryRLock() bool {
	chkKilled()
	if !m.w && len(m.q) == 0 {
		m.r++
		return true
	}
	return false
}

// grant: after a writer, all queued readers up to the next writer; after readers, the writer.
func (m *RWMutex) grant() {
	for len(m.q) > 0 {
		h := m.q[0]
		if h.write {
			if m.w || m.r > 0 {
				return
			}
			m.w = true
		} else {
			if m.w {
				return
			}
			m.r++
		}
		h.ok = true
		m.q = m.q[1:]
		S.ready(h.g)
		if h.write {
			return
		}
	}
}
func (m *RWMutex) Unlock() {
	if cur != nil && cur.killed {
		return
	}
	if !m.w {
		Fatal("fatal error: sync: Unlock of unlocked RWMutex")
	}
	m.w = false
	m.grant()
}
func (m *RWMutex) RUnlock() {
	if cur != nil && cur.killed {
		return
	}
	if m.r <= 0 {
		Fatal("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	m.r--
	m.grant()
}
func (m *RWMutex) RLocker() interface {
	Lock()
	Unlock()
} {
	return (*rlocker)(m)
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type Once struct {
	done bool
	m    Mutex
}

func (o *Once) Do(f func()) {
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

type WaitGroup struct {
	n int
	q []*G
}

func (w *WaitGroup) Add(d int) {
	chkKilled()
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		for _, g := range w.q {
			S.ready(g)
		}
		w.q = nil
	}
}
func (w *WaitGroup) Done() {
	if cur != nil && cur.killed {
		return
	}
	w.Add(-1)
}
func (w *WaitGroup) Wait() {
	chkKilled()
	for w.n > 0 {
		w.q = append(w.q, cur)
		S.park("waitgroup")
	}
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(0, func() { defer w.Done(); f() })
}

type Locker interface {
	Lock()
	Unlock()
}
type Cond struct {
	L Locker
	q []*G
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	c.q = append(c.q, cur)
	c.L.Unlock()
	S.park("cond")
	c.L.Lock()
}
func (c *Cond) Signal() {
	if len(c.q) > 0 {
		g := c.q[0]
		c.q = c.q[1:]
		S.ready(g)
	}
}
func (c *Cond) Broadcast() {
	for _, g := range c.q {
		S.ready(g)
	}
	c.q = nil
}

// ---------------------------------------------------------------- channels

// Buffered values live in the real channel (so len and cap work); waiting senders and receivers
// live in a side table.
type chanState struct {
	recvq, sendq []*chWaiter
	real         any // keeps the channel alive so its address is not reused
}
type chWaiter struct {
	g           *G
	sel         *Sel
	idx         int
	val         any // value to send / received
	ok          bool
	done        bool
	closedPanic bool
}

var chans map[unsafe.Pointer]*chanState
var waitingChans []*chanState

func resetChans() { chans = map[unsafe.Pointer]*chanState{}; polls = nil }

func chPtr[T any](ch chan T) unsafe.Pointer    { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }
func chPtrR[T any](ch <-chan T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }
func chPtrS[T any](ch chan<- T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }

func stateOf(p unsafe.Pointer, ch any) *chanState {
	st := chans[p]
	if st == nil {
		st = &chanState{real: ch}
		chans[p] = st
	}
	return st
}

func popW(q *[]*chWaiter) *chWaiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if w.sel != nil && w.sel.fired {
			continue
		}
		if w.done || w.g.killed {
			continue
		}
		return w
	}
	return nil
}

func fire(w *chWaiter) {
	w.done = true
	if w.sel != nil {
		w.sel.fired = true
		w.sel.chosen = w.idx
		w.sel.w = w
	}
	S.ready(w.g)
}

func bidir[T any](ch chan<- T) chan T  { return *(*chan T)(unsafe.Pointer(&ch)) }
func bidirR[T any](ch <-chan T) chan T { return *(*chan T)(unsafe.Pointer(&ch)) }

func trySend[T any](c chan T, st *chanState, v T) bool {
	if w := popW(&st.recvq); w != nil {
		w.val, w.ok = v, true
		fire(w)
		return true
	}
	select {
	case c <- v: // panics if closed
		return true
	default:
		return false
	}
}

func tryRecv[T any](c chan T, st *chanState) (v T, ok, done bool) {
	select {
	case v, ok = <-c:
		if ok {
			if w := popW(&st.sendq); w != nil {
				c <- w.val.(T)
				fire(w)
			}
		}
		return v, ok, true
	default:
	}
	if w := popW(&st.sendq); w != nil {
		if w.val != nil {
			v = w.val.(T)
		}
		fire(w)
		return v, true, true
	}
	return v, false, false
}

// SendTo(ch)(v) performs ch <- v.
func SendTo[T any](ch chan<- T) func(T) {
	return func(v T) {
		chkKilled()
		if ch == nil {
			for {
				S.park("nil chan send")
			}
		}
		c := bidir(ch)
		st := stateOf(chPtr(c), c)
		if trySend(c, st, v) {
			return
		}
		w := &chWaiter{g: cur, val: v}
		st.sendq = append(st.sendq, w)
		for !w.done {
			S.park("chan send")
		}
		if w.closedPanic {
			panic(plainErr("send on closed channel"))
		}
	}
}

type plainErr string

func (e plainErr) Error() string { return string(e) }
func (e plainErr) RuntimeError() {}

func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

func Recv2[T any](ch <-chan T) (T, bool) {
	chkKilled()
	if ch == nil {
		for {
			S.park("nil chan recv")
		}
	}
	c := bidirR(ch)
	st := stateOf(chPtr(c), c)
	v, ok, done := tryRecv(c, st)
	if done {
		return v, ok
	}
	w := &chWaiter{g: cur}
	st.recvq = append(st.recvq, w)
	addPoll(func() bool { return w.done }, func() bool {
		v, ok, done := tryRecv(c, st)
		if done {
			w.val, w.ok = v, ok
			fire(w)
		}
		return done
	})
	for !w.done {
		S.park("chan recv")
	}
	if w.val != nil {
		v = w.val.(T)
	}
	return v, w.ok
}

func Close[T any](ch chan<- T) {
	chkKilled()
	c := bidir(ch)
	close(c)
	st := stateOf(chPtr(c), c)
	for {
		w := popW(&st.recvq)
		if w == nil {
			break
		}
		w.val, w.ok = nil, false
		fire(w)
	}
	for {
		w := popW(&st.sendq)
		if w == nil {
			break
		}
		w.closedPanic = true
		fire(w)
	}
}

// channels closed by code outside the simulation (contexts) are re-polled by PollChans
type poll struct {
	over func() bool
	try  func() bool
}

var polls []poll

func addPoll(over, try func() bool) {
	out := polls[:0]
	for _, p := range polls {
		if !p.over() {
			out = append(out, p)
		}
	}
	polls = append(out, poll{over, try})
}
func PollChans() {
	if cur != nil && cur.killed {
		return
	}
	for _, p := range append([]poll(nil), polls...) {
		if !p.over() {
			p.try()
		}
	}
}

// ---- select

type Sel struct {
	cases  []selCase
	def    bool
	fired  bool
	chosen int
	w      *chWaiter
}
type selCase struct {
	try func() bool // attempts the operation; true if it happened
	enq func(w *chWaiter)
	dir int
	fin func(w *chWaiter)
}

func NewSel(hasDefault bool) *Sel { return &Sel{def: hasDefault} }

type RecvCase[T any] struct {
	V  T
	OK bool
}

func SelRecv[T any](s *Sel, ch <-chan T) *RecvCase[T] {
	rc := &RecvCase[T]{}
	if ch == nil {
		s.cases = append(s.cases, selCase{try: func() bool { return false }, enq: func(*chWaiter) {}})
		return rc
	}
	c := bidirR(ch)
	st := stateOf(chPtr(c), c)
	s.cases = append(s.cases, selCase{
		try: func() bool {
			v, ok, done := tryRecv(c, st)
			if done {
				rc.V, rc.OK = v, ok
			}
			return done
		},
		enq: func(w *chWaiter) {
			st.recvq = append(st.recvq, w)
			addPoll(func() bool { return w.done || s.fired }, func() bool {
				v, ok, done := tryRecv(c, st)
				if done {
					w.val, w.ok = v, ok
					fire(w)
				}
				return done
			})
		},
		fin: func(w *chWaiter) {
			if w.val != nil {
				rc.V = w.val.(T)
			}
			rc.OK = w.ok
		},
	})
	return rc
}

func SelSend[T any](s *Sel, ch chan<- T) func(T) {
	return func(v T) {
		if ch == nil {
			s.cases = append(s.cases, selCase{try: func() bool { return false }, enq: func(*chWaiter) {}})
			return
		}
		c := bidir(ch)
		st := stateOf(chPtr(c), c)
		s.cases = append(s.cases, selCase{
			try: func() bool { return trySend(c, st, v) },
			enq: func(w *chWaiter) { w.val = v; st.sendq = append(st.sendq, w) },
			fin: func(w *chWaiter) {
				if w.closedPanic {
					panic(plainErr("send on closed channel"))
				}
			},
		})
	}
}

func (s *Sel) Do() int {
	chkKilled()
	n := len(s.cases)
	if n > 0 {
		off := 0
		if n > 1 {
			off = S.misc.N(n)
		}
		for i := 0; i < n; i++ {
			k := (i + off) % n
			if s.cases[k].try() {
				return k
			}
		}
	}
	if s.def {
		return -1
	}
	for i := range s.cases {
		s.cases[i].enq(&chWaiter{g: cur, sel: s, idx: i})
	}
	for !s.fired {
		S.park("select")
	}
	s.cases[s.chosen].fin(s.w)
	return s.chosen
}

// ---------------------------------------------------------------- maps

type mapWin struct{ readers, writers int }

var mapWins map[unsafe.Pointer]*mapWin

func resetMaps() { mapWins = map[unsafe.Pointer]*mapWin{} }

func mapPtr[K comparable, V any](m map[K]V) unsafe.Pointer {
	return *(*unsafe.Pointer)(unsafe.Pointer(&m))
}

// MapRd/MapWr mark an access to m, give other goroutines a chance to run within it, and detect
// the concurrent accesses on which the Go runtime kills the process.
func MapRd[M ~map[K]V, K comparable, V any](m M, site int) M {
	if budget > 1 || cur == nil || m == nil {
		if len(mapWins) > 0 && m != nil {
			if w := mapWins[mapPtr(map[K]V(m))]; w != nil && w.writers > 0 && !cur.killed {
				Fatal("fatal error: concurrent map read and map write at " + SiteName(site))
			}
		}
		Y(site)
		return m
	}
	p := mapPtr(map[K]V(m))
	w := mapWins[p]
	if w == nil {
		w = &mapWin{}
		mapWins[p] = w
	}
	if w.writers > 0 && !cur.killed {
		Fatal("fatal error: concurrent map read and map write at " + SiteName(site))
	}
	w.readers++
	defer mapDone(p, w, false)
	Y(site)
	return m
}

func mapDone(p unsafe.Pointer, w *mapWin, wr bool) {
	if wr {
		w.writers--
	} else {
		w.readers--
	}
	if w.readers == 0 && w.writers == 0 {
		delete(mapWins, p)
	}
}

func MapWr[M ~map[K]V, K comparable, V any](m M, site int) M {
	if budget > 1 || cur == nil || m == nil {
		if len(mapWins) > 0 && m != nil {
			if w := mapWins[mapPtr(map[K]V(m))]; w != nil && !cur.killed {
				Fatal("fatal error: concurrent map writes at " + SiteName(site))
			}
		}
		Y(site)
		return m
	}
	p := mapPtr(map[K]V(m))
	w := mapWins[p]
	if w == nil {
		w = &mapWin{}
		mapWins[p] = w
	}
	if (w.writers > 0 || w.readers > 0) && !cur.killed {
		Fatal("fatal error: concurrent map writes at " + SiteName(site))
	}
	w.writers++
	defer mapDone(p, w, true)
	Y(site)
	return m
}

// Keys returns the keys in the pseudo-random order this run's seed gives a map iteration.
func Keys[M ~map[K]V, K comparable, V any](m M) []K {
	ks := make([]K, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	if len(ks) > 1 {
		sort.Slice(ks, func(i, j int) bool { return keyLess(reflect.ValueOf(&ks[i]).Elem(), reflect.ValueOf(&ks[j]).Elem()) })
		r := S.misc
		n := r.N(len(ks))
		ks = append(ks[n:], ks[:n]...)
		if r.P(0.5) {
			for i := len(ks) - 1; i > 0; i-- {
				j := r.N(i + 1)
				ks[i], ks[j] = ks[j], ks[i]
			}
		}
	}
	return ks
}

func keyLess(a, b reflect.Value) bool {
	for a.Kind() == reflect.Interface {
		if a.IsNil() || b.IsNil() {
			return a.IsNil() && !b.IsNil()
		}
		a, b = a.Elem(), b.Elem()
		if a.Kind() != b.Kind() {
			return a.Kind() < b.Kind()
		}
	}
	switch a.Kind() {
	case reflect.String:
		return a.String() < b.String()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() < b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return a.Uint() < b.Uint()
	case reflect.Float32, reflect.Float64:
		return a.Float() < b.Float()
	case reflect.Bool:
		return !a.Bool() && b.Bool()
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if keyLess(a.Field(i), b.Field(i)) {
				return true
			}
			if keyLess(b.Field(i), a.Field(i)) {
				return false
			}
		}
		return false
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			if keyLess(a.Index(i), b.Index(i)) {
				return true
			}
			if keyLess(b.Index(i), a.Index(i)) {
				return false
			}
		}
		return false
	case reflect.Ptr, reflect.Chan, reflect.UnsafePointer:
		// by order of allocation is unknowable; address order is stable only by luck
		NondetMaps++
		return a.Pointer() < b.Pointer()
	}
	panic(fmt.Sprintf("simrt: unordered map key kind %v", a.Kind()))
}

var NondetMaps int

// ---------------------------------------------------------------- misc

func Zero[T any](p *T) { var z T; *p = z }

// MkLen checks a dynamic allocation size; an absurd one kills the process as out of memory.
func MkLen[I ~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr](n I, elem uintptr) I {
	lim := uint64(1 << 27)
	if S != nil && S.AllocMax > 0 {
		lim = S.AllocMax
	}
	if n > 0 && elem > 0 && uint64(n) > lim/uint64(elem) && uint64(n) <= (1<<48)/uint64(elem) { // more than that panics by itself
		ProcExit("fatal", fmt.Sprintf("fatal error: runtime: out of memory (allocation of %d elements of %d bytes)", n, elem))
	}
	return n
}

// TrySendNow is a non-blocking send usable from event callbacks.
func TrySendNow[T any](c chan T, v T) bool {
	return trySend(c, stateOf(chPtr(c), c), v)
}

// ZeroKV declares the iteration variables of a rewritten map range.
func ZeroKV[M ~map[K]V, K comparable, V any](M) (k K, v V) { return }
