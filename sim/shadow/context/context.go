package context

import (
	gocontext "context"
	"sync"
	gotime "time"

	simtime "verifsim/shadow/time"
	"verifsim/simrt"
)

func wrap(c func()) func() { return func() { c(); simrt.PollChans() } }

func WithCancel(p gocontext.Context) (gocontext.Context, gocontext.CancelFunc) {
	ctx, c := gocontext.WithCancel(p)
	return ctx, wrap(c)
}

type dctx struct {
	gocontext.Context
	mu  sync.Mutex
	dl  gotime.Time
	exp bool
}

func (d *dctx) Deadline() (gotime.Time, bool) { return d.dl, true }
func (d *dctx) Err() error {
	if d.exp {
		return gocontext.DeadlineExceeded
	}
	return d.Context.Err()
}
func WithTimeout(p gocontext.Context, d gotime.Duration) (gocontext.Context, gocontext.CancelFunc) {
	ctx, c := gocontext.WithCancel(p)
	dc := &dctx{Context: ctx, dl: simtime.Now().Add(d)}
	t := simrt.After(int64(d), func() {
		if ctx.Err() == nil {
			dc.exp = true
			c()
			simrt.PollChans()
		}
	})
	return dc, wrap(func() { t.Cancel(); c() })
}
func WithDeadline(p gocontext.Context, t gotime.Time) (gocontext.Context, gocontext.CancelFunc) {
	return WithTimeout(p, simtime.Until(t))
}
