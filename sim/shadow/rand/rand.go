package rand

import (
	gorand "math/rand"
	"verifsim/simrt"
)

// Global: the simulated process's own randomness (set per incarnation by the harness).
var Global *simrt.Rng = simrt.NewRng(1)

// Source is the standard generator; its state update is not atomic: reading and advancing the
// state are two steps, as with the real (unsynchronised) one.
type src struct {
	r    *gorand.Rand
	pos  int
	seed int64
	buf  []uint64
}

func NewSource(seed int64) gorand.Source {
	return &src{r: gorand.New(gorand.NewSource(seed)), seed: seed}
}
func (s *src) at(i int) uint64 {
	for len(s.buf) <= i {
		s.buf = append(s.buf, s.r.Uint64())
	}
	return s.buf[i]
}
func (s *src) Uint64() uint64 {
	p := s.pos
	v := s.at(p)
	simrt.Y(0)
	s.pos = p + 1
	return v
}
func (s *src) Int63() int64    { return int64(s.Uint64() & (1<<63 - 1)) }
func (s *src) Seed(seed int64) { *s = *(NewSource(seed).(*src)) }

type gsrc struct{}

func (gsrc) Uint64() uint64 { return Global.U64() }
func (gsrc) Int63() int64   { return int64(Global.U64() >> 1) }
func (gsrc) Seed(int64)     {}

func g() *gorand.Rand { return gorand.New(gsrc{}) }

func Seed(s int64)                    {}
func Int() int                        { return g().Int() }
func Intn(n int) int                  { return g().Intn(n) }
func Int31() int32                    { return g().Int31() }
func Int31n(n int32) int32            { return g().Int31n(n) }
func Int63() int64                    { return g().Int63() }
func Int63n(n int64) int64            { return g().Int63n(n) }
func Uint32() uint32                  { return g().Uint32() }
func Uint64() uint64                  { return g().Uint64() }
func Float64() float64                { return g().Float64() }
func Float32() float32                { return g().Float32() }
func NormFloat64() float64            { return g().NormFloat64() }
func ExpFloat64() float64             { return g().ExpFloat64() }
func Perm(n int) []int                { return g().Perm(n) }
func Shuffle(n int, f func(i, j int)) { g().Shuffle(n, f) }
func Read(p []byte) (int, error)      { return g().Read(p) }
