// Package context replaces the standard context package inside instrumented
// code: its channels, locks and deadlines are the simulator's.
package context

import (
	"context"
	"time"

	"verifsim/rt"
	sync "verifsim/rt/simsync"
	simtime "verifsim/rt/simtime"
)

type (
	Context         = context.Context
	CancelFunc      = context.CancelFunc
	CancelCauseFunc = context.CancelCauseFunc
)

var (
	Canceled         = context.Canceled
	DeadlineExceeded = context.DeadlineExceeded

	Background = context.Background
	TODO       = context.TODO
	WithValue  = context.WithValue
)

type keyType struct{}

var key keyType

type cancelCtx struct {
	Context
	mu       sync.Mutex
	done     chan struct{}
	err      error
	cause    error
	kids     []*cancelCtx
	calls    []func()
	deadline time.Time
	timer    *simtime.Timer
}

func (c *cancelCtx) Done() <-chan struct{} { return c.done }

func (c *cancelCtx) Err() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.err
}

func (c *cancelCtx) Value(k any) any {
	if k == any(key) {
		return c
	}
	return c.Context.Value(k)
}

func (c *cancelCtx) Deadline() (time.Time, bool) {
	d, ok := c.Context.Deadline()
	if !c.deadline.IsZero() && (!ok || c.deadline.Before(d)) {
		return c.deadline, true
	}
	return d, ok
}

func (c *cancelCtx) cancel(err, cause error) {
	c.mu.Lock()
	if c.err != nil {
		c.mu.Unlock()
		return
	}
	if cause == nil {
		cause = err
	}
	c.err, c.cause = err, cause
	kids, calls := c.kids, c.calls
	c.kids, c.calls = nil, nil
	rt.Close(c.done)
	t := c.timer
	c.mu.Unlock()
	if t != nil {
		t.Stop()
	}
	for _, k := range kids {
		k.cancel(err, cause)
	}
	for _, f := range calls {
		rt.Go(f)
	}
}

func child(parent Context) *cancelCtx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &cancelCtx{Context: parent, done: rt.MakeChan[struct{}](0)}
	p, ok := parent.Value(key).(*cancelCtx)
	switch {
	case ok && parent.Done() == p.Done():
		p.mu.Lock()
		err, cause := p.err, p.cause
		if err == nil {
			p.kids = append(p.kids, c)
		}
		p.mu.Unlock()
		if err != nil {
			c.cancel(err, cause)
		}
	case parent.Done() != nil:
		rt.Go(func() {
			i, _, _ := rt.Select(false, rt.RecvCase(parent.Done()), rt.RecvCase[struct{}](c.done))
			if i == 0 {
				c.cancel(parent.Err(), Cause(parent))
			}
		})
	}
	return c
}

func WithCancel(parent Context) (Context, CancelFunc) {
	c := child(parent)
	return c, func() { c.cancel(Canceled, nil) }
}

func WithCancelCause(parent Context) (Context, CancelCauseFunc) {
	c := child(parent)
	return c, func(err error) { c.cancel(Canceled, err) }
}

func WithDeadline(parent Context, d time.Time) (Context, CancelFunc) {
	return WithDeadlineCause(parent, d, nil)
}

func WithDeadlineCause(parent Context, d time.Time, cause error) (Context, CancelFunc) {
	c := child(parent)
	c.deadline = d
	left := d.Sub(simtime.Now())
	if left <= 0 {
		c.cancel(DeadlineExceeded, cause)
	}
	c.mu.Lock()
	if c.err == nil {
		c.timer = simtime.AfterFunc(left, func() { c.cancel(DeadlineExceeded, cause) })
	}
	c.mu.Unlock()
	return c, func() { c.cancel(Canceled, nil) }
}

func WithTimeout(parent Context, d time.Duration) (Context, CancelFunc) {
	return WithDeadline(parent, simtime.Now().Add(d))
}

func WithTimeoutCause(parent Context, d time.Duration, cause error) (Context, CancelFunc) {
	return WithDeadlineCause(parent, simtime.Now().Add(d), cause)
}

func Cause(c Context) error {
	if p, ok := c.Value(key).(*cancelCtx); ok {
		p.mu.Lock()
		defer p.mu.Unlock()
		return p.cause
	}
	return c.Err()
}

func AfterFunc(ctx Context, f func()) func() bool {
	c := child(ctx)
	c.mu.Lock()
	over := c.err != nil
	stopped := false
	call := func() {
		if !stopped {
			stopped = true
			f()
		}
	}
	if !over {
		c.calls = append(c.calls, call)
	}
	c.mu.Unlock()
	if over {
		rt.Go(call)
	}
	return func() bool {
		was := !stopped
		stopped = true
		c.cancel(Canceled, nil)
		return was
	}
}

type withoutCancel struct{ Context }

func (withoutCancel) Deadline() (time.Time, bool) { return time.Time{}, false }
func (withoutCancel) Done() <-chan struct{}       { return nil }
func (withoutCancel) Err() error                  { return nil }
func (w withoutCancel) Value(k any) any {
	if k == any(key) {
		return nil
	}
	return w.Context.Value(k)
}

func WithoutCancel(parent Context) Context { return withoutCancel{parent} }
