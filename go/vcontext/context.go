// Package context replaces the standard package in instrumented code; what it starts goes through the scheduler.
package context

import (
	real "context"
	"time"

	"github.com/sttp/goapi/vdrv/vsched"
	vtime "github.com/sttp/goapi/vdrv/vtime"
)

type (
	Context         = real.Context
	CancelFunc      = real.CancelFunc
	CancelCauseFunc = real.CancelCauseFunc
)

var (
	Canceled         = real.Canceled
	DeadlineExceeded = real.DeadlineExceeded

	Background      = real.Background
	TODO            = real.TODO
	Cause           = real.Cause
	WithCancel      = real.WithCancel
	WithCancelCause = real.WithCancelCause
	WithValue       = real.WithValue
	WithoutCancel   = real.WithoutCancel
)

func AfterFunc(ctx Context, f func()) func() bool {
	state := 0
	vsched.Go(func() {
		vsched.Block("context", func() bool { return state == 2 || ctx.Err() != nil })
		if state == 0 {
			state = 1
			f()
		}
	})
	return func() bool {
		vsched.Op()
		if state == 0 {
			state = 2
			return true
		}
		return false
	}
}

// A context whose end was reached on the virtual clock.
type timed struct {
	Context
	at   time.Time
	over *bool
}

func (c timed) Deadline() (time.Time, bool) { return c.at, true }
func (c timed) Err() error {
	err := c.Context.Err()
	if err != nil && *c.over {
		return DeadlineExceeded
	}
	return err
}

func WithTimeout(parent Context, d time.Duration) (Context, CancelFunc) {
	ctx, cancel := real.WithCancelCause(parent)
	over := false
	timer := vsched.AfterFunc(d, func() {
		if ctx.Err() == nil {
			over = true
			cancel(DeadlineExceeded)
		}
	})
	return timed{ctx, vtime.Now().Add(d), &over}, func() { timer.Stop(); cancel(nil) }
}

func WithDeadline(parent Context, at time.Time) (Context, CancelFunc) {
	return WithTimeout(parent, at.Sub(vtime.Now()))
}
