package runtime

import (
	"fmt"
	goruntime "runtime"
	"verifsim/simrt"
)

var Mem goruntime.MemStats // what ReadMemStats reports (set by the harness)
var BlockRate, MutexFrac int
var OnRate func(kind string, v int)
var OnRead func(kind string, v int64) // a statistic is read (it may panic: a failing counter)
var Cgo int64

func Stack(buf []byte, all bool) int {
	return copy(buf, fmt.Sprintf("goroutine %d [running]:\nmain.main()\n\t/app/main.go:1 +0x1d\n", simrt.Cur().Goid()))
}
func NumGoroutine() int {
	n := simrt.GoCount(simrt.Cur().Proc)
	if OnRead != nil {
		OnRead("goroutines", int64(n))
	}
	return n
}
func NumCgoCall() int64 {
	if OnRead != nil {
		OnRead("cgo", Cgo)
	}
	return Cgo
}
func ReadMemStats(m *goruntime.MemStats) {
	simrt.Y(0)
	if OnRead != nil {
		OnRead("mem", 0)
	}
	*m = Mem
}
func SetBlockProfileRate(r int) {
	BlockRate = r
	if OnRate != nil {
		OnRate("block", r)
	}
}
func SetMutexProfileFraction(r int) int {
	o := MutexFrac
	if r >= 0 {
		MutexFrac = r
		if OnRate != nil {
			OnRate("mutex", r)
		}
	}
	return o
}
func Gosched()              { simrt.Y(0) }
func GC()                   {}
func GOMAXPROCS(n int) int  { return 8 }
func NumCPU() int           { return 8 }
func Goexit()               { goruntime.Goexit() }
func SetFinalizer(o, f any) {}
