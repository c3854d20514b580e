package pprof

import (
	"fmt"
	"io"
	"strings"

	simruntime "verifsim/shadow/runtime"
	simrt "verifsim/simrt"
)

// Profiles have deterministic stub contents of a size the harness picks, no two alike; they are
// written in small pieces like the real ones. What was produced is kept for the harness.
var Size = 9000
var cpuOn bool
var cpuW io.Writer
var cpuAt int64
var Prods []*Prod
var Refused []int64 // when a CPU profile was refused because one was being taken
var seq int

// Prod is one profile the runtime wrote.
type Prod struct {
	Name    string
	Debug   int
	Content string
	Start   int64 // of the writing
	Proc    int
	Rate    int // the sampling rate in force when it was written
	Done    bool
	Err     error
}

// Reset: a new process. ResetAll: a new run.
func Reset()      { cpuOn = false; cpuW = nil }
func ResetAll()   { Reset(); Prods, Refused, seq = nil, nil, 0 }
func CPUOn() bool { return cpuOn }

type Profile struct{ name string }

func Lookup(name string) *Profile {
	switch name {
	case "goroutine", "block", "mutex", "heap", "allocs", "threadcreate":
		return &Profile{name}
	}
	return nil
}
func (p *Profile) Name() string { return p.name }

func begin(name string, debug int) *Prod {
	seq++
	var sb strings.Builder
	fmt.Fprintf(&sb, "profile %05d of %s debug=%d\n", seq, name, debug)
	for i := 0; sb.Len() < Size; i++ {
		fmt.Fprintf(&sb, "%s %05d line %06d\n", name, seq, i)
	}
	fmt.Fprintf(&sb, "=== end of profile %05d\n", seq)
	r := &Prod{Name: name, Debug: debug, Content: sb.String(), Start: simrt.Now()}
	if g := simrt.Cur(); g != nil {
		r.Proc = g.Proc
	}
	switch name {
	case "block":
		r.Rate = simruntime.BlockRate
	case "mutex":
		r.Rate = simruntime.MutexFrac
	}
	Prods = append(Prods, r)
	return r
}

func (r *Prod) write(w io.Writer, piece int) error {
	c := r.Content
	for len(c) > 0 {
		n := piece
		if n > len(c) {
			n = len(c)
		}
		simrt.Y(0)
		if _, err := io.WriteString(w, c[:n]); err != nil {
			r.Err = err
			return err
		}
		c = c[n:]
	}
	r.Done = true
	return nil
}

func (p *Profile) WriteTo(w io.Writer, debug int) error { return begin(p.name, debug).write(w, 1024) }
func StartCPUProfile(w io.Writer) error {
	if cpuOn {
		Refused = append(Refused, simrt.Now())
		return fmt.Errorf("cpu profiling already in use")
	}
	cpuOn = true
	cpuW = w
	cpuAt = simrt.Now()
	return nil
}
func StopCPUProfile() {
	if !cpuOn {
		return
	}
	w := cpuW
	begin("cpu", 0).write(w, 700)
	cpuOn = false
	cpuW = nil
}
func WriteHeapProfile(w io.Writer) error { return Lookup("heap").WriteTo(w, 0) }
