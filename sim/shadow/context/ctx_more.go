package context

import (
	gocontext "context"

	"verifsim/simrt"
)

func WithCancelCause(p gocontext.Context) (gocontext.Context, gocontext.CancelCauseFunc) {
	ctx, c := gocontext.WithCancelCause(p)
	return ctx, func(e error) { c(e); simrt.PollChans() }
}

// AfterFunc runs f in a simulated goroutine once ctx is done.
func AfterFunc(ctx gocontext.Context, f func()) func() bool {
	started, stopped := false, false
	simrt.Go(0, func() {
		simrt.Recv(ctx.Done())
		if !stopped {
			started = true
			f()
		}
	})
	return func() bool {
		was := !started && !stopped
		stopped = true
		return was
	}
}
