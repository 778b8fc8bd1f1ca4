// Package context replaces the standard package: cancellation uses simulated channels
// and deadlines the simulated clock.
package context

import (
	real "context"
	"errors"
	rtime "time"

	"verifsim/rt"
	"verifsim/shim/time"
)

type Context = real.Context
type CancelFunc = real.CancelFunc
type CancelCauseFunc = real.CancelCauseFunc

type ctx struct {
	Context
	done     chan struct{}
	err      error
	cause    error
	deadline rtime.Time
	hasDl    bool
	kids     []*ctx
	off      *bool
	vc       rt.VC // of who cancelled it
}

type ctxKey struct{}

func (c *ctx) Done() <-chan struct{} { return c.done }
func (c *ctx) Err() error            { rt.YS(); rt.Acquire(&c.vc); return c.err }
func (c *ctx) Deadline() (rtime.Time, bool) {
	if c.hasDl {
		return c.deadline, true
	}
	return c.Context.Deadline()
}
func (c *ctx) Value(k any) any {
	if _, ok := k.(ctxKey); ok {
		return c
	}
	return c.Context.Value(k)
}

func (c *ctx) cancel(err, cause error) {
	if c.err != nil || rt.Dead() {
		return
	}
	c.err, c.cause = err, cause
	c.vc.Join(rt.Snapshot())
	if c.off != nil {
		*c.off = true
	}
	rt.CloseQuiet(c.done)
	for _, k := range c.kids {
		k.cancel(err, cause)
	}
}

func newCtx(parent Context) *ctx {
	c := &ctx{Context: parent, done: make(chan struct{})}
	if p, ok := parent.Value(ctxKey{}).(*ctx); ok {
		if p.err != nil {
			c.cancel(p.err, p.cause)
		} else {
			p.kids = append(p.kids, c)
		}
	}
	return c
}

func WithCancel(parent Context) (Context, CancelFunc) {
	rt.YS()
	c := newCtx(parent)
	return c, func() { rt.YS(); c.cancel(real.Canceled, nil) }
}

func WithCancelCause(parent Context) (Context, CancelCauseFunc) {
	rt.YS()
	c := newCtx(parent)
	return c, func(cause error) { rt.YS(); c.cancel(real.Canceled, cause) }
}

func WithDeadline(parent Context, d rtime.Time) (Context, CancelFunc) {
	rt.YS()
	c := newCtx(parent)
	if pd, ok := parent.Deadline(); ok && pd.Before(d) {
		d = pd
	}
	c.deadline, c.hasDl = d, true
	if c.err == nil && !rt.Dead() {
		c.off = rt.S.At(time.Deadline(d), func() { c.cancel(real.DeadlineExceeded, nil) })
	}
	return c, func() { rt.YS(); c.cancel(real.Canceled, nil) }
}

func WithTimeout(parent Context, d rtime.Duration) (Context, CancelFunc) {
	return WithDeadline(parent, time.Now().Add(d))
}

func Cause(c Context) error {
	if p, ok := c.Value(ctxKey{}).(*ctx); ok {
		if p.cause != nil {
			return p.cause
		}
		return p.err
	}
	return c.Err()
}

func WithoutCancel(parent Context) Context { return noCancel{parent} }

type noCancel struct{ Context }

func (noCancel) Done() <-chan struct{}             { return nil }
func (noCancel) Err() error                        { return nil }
func (noCancel) Deadline() (t rtime.Time, ok bool) { return }
func (n noCancel) Value(k any) any {
	if _, ok := k.(ctxKey); ok {
		return nil
	}
	return n.Context.Value(k)
}

func AfterFunc(c Context, f func()) (stop func() bool) {
	_ = errors.New
	stopped := false
	started := false
	rt.Go(func() {
		rt.Recv(c.Done())
		if !stopped {
			started = true
			f()
		}
	})
	return func() bool { rt.YS(); stopped = true; return !started }
}
