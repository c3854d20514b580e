package debug

import (
	"fmt"
	"verifsim/simrt"
)

func Stack() []byte {
	return []byte(fmt.Sprintf("goroutine %d [running]:\nmain.main()\n", simrt.Cur().Goid()))
}
func PrintStack()            {}
func FreeOSMemory()          {}
func SetGCPercent(p int) int { return 100 }
func SetMaxStack(n int) int  { return n }
