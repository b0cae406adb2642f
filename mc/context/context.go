// Package context stands in for the standard package under the explorer.
package context

import (
	"context"

	"stompmc/mc"
	mctime "stompmc/mc/time"
	"time"
)

type Context interface {
	Deadline() (deadline time.Time, ok bool)
	Done() *mc.Chan[struct{}]
	Err() error
	Value(key any) any
}

var (
	Canceled               = context.Canceled
	DeadlineExceeded error = context.DeadlineExceeded
)

type (
	CancelFunc      func()
	CancelCauseFunc func(cause error)
)

type empty struct{ name string }

func (empty) Deadline() (t time.Time, ok bool) { return }
func (empty) Done() *mc.Chan[struct{}]         { return nil }
func (empty) Err() error                       { return nil }
func (empty) Value(any) any                    { return nil }
func (e empty) String() string                 { return e.name }

func Background() Context { return empty{"context.Background"} }
func TODO() Context       { return empty{"context.TODO"} }

type ctxKey struct{}

type cancelCtx struct {
	parent   Context
	mu       mc.Mutex
	done     *mc.Chan[struct{}]
	err      error
	cause    error
	kids     []*cancelCtx
	deadline time.Time
	timed    bool
	timer    *mctime.Timer
}

func (c *cancelCtx) Deadline() (time.Time, bool) {
	if c.timed {
		return c.deadline, true
	}
	return c.parent.Deadline()
}
func (c *cancelCtx) Done() *mc.Chan[struct{}] { return c.done }
func (c *cancelCtx) Err() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.err
}
func (c *cancelCtx) Value(k any) any {
	if k == any(ctxKey{}) {
		return c
	}
	return c.parent.Value(k)
}

func (c *cancelCtx) cancel(err, cause error) {
	c.mu.Lock()
	if c.err != nil {
		c.mu.Unlock()
		return
	}
	c.err = err
	if cause == nil {
		cause = err
	}
	c.cause = cause
	mc.Close(c.done)
	kids := c.kids
	c.kids = nil
	t := c.timer
	c.mu.Unlock()
	if t != nil {
		t.Stop()
	}
	for _, k := range kids {
		k.cancel(err, cause)
	}
}

func newCancel(parent Context) *cancelCtx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &cancelCtx{parent: parent, done: mc.MakeChan[struct{}]()}
	if p, ok := parent.Value(ctxKey{}).(*cancelCtx); ok {
		p.mu.Lock()
		if p.err != nil {
			err, cause := p.err, p.cause
			p.mu.Unlock()
			c.cancel(err, cause)
		} else {
			p.kids = append(p.kids, c)
			p.mu.Unlock()
		}
	} else if parent.Done() != nil {
		mc.Go("context", func() {
			if mc.Select(false, mc.RecvCase(parent.Done()), mc.RecvCase(c.done)) == 0 {
				c.cancel(parent.Err(), nil)
			}
		})
	}
	return c
}

func WithCancel(parent Context) (Context, CancelFunc) {
	c := newCancel(parent)
	return c, func() { c.cancel(Canceled, nil) }
}

func WithCancelCause(parent Context) (Context, CancelCauseFunc) {
	c := newCancel(parent)
	return c, func(cause error) { c.cancel(Canceled, cause) }
}

func WithDeadline(parent Context, d time.Time) (Context, CancelFunc) {
	if cur, ok := parent.Deadline(); ok && cur.Before(d) {
		return WithCancel(parent)
	}
	c := newCancel(parent)
	c.deadline, c.timed = d, true
	dur := mctime.Until(d)
	if dur <= 0 {
		c.cancel(DeadlineExceeded, nil)
		return c, func() { c.cancel(Canceled, nil) }
	}
	c.mu.Lock()
	if c.err == nil {
		c.timer = mctime.AfterFunc(dur, func() { c.cancel(DeadlineExceeded, nil) })
	}
	c.mu.Unlock()
	return c, func() { c.cancel(Canceled, nil) }
}

func WithTimeout(parent Context, d time.Duration) (Context, CancelFunc) {
	return WithDeadline(parent, mctime.Now().Add(d))
}

func Cause(c Context) error {
	if p, ok := c.Value(ctxKey{}).(*cancelCtx); ok {
		p.mu.Lock()
		defer p.mu.Unlock()
		return p.cause
	}
	return c.Err()
}

type valueCtx struct {
	Context
	k, v any
}

func (c valueCtx) Value(k any) any {
	if k == c.k {
		return c.v
	}
	return c.Context.Value(k)
}

func WithValue(parent Context, k, v any) Context { return valueCtx{parent, k, v} }

type withoutCancel struct{ Context }

func (withoutCancel) Deadline() (t time.Time, ok bool) { return }
func (withoutCancel) Done() *mc.Chan[struct{}]         { return nil }
func (withoutCancel) Err() error                       { return nil }
func (w withoutCancel) Value(k any) any {
	if k == any(ctxKey{}) {
		return nil
	}
	return w.Context.Value(k)
}

func WithoutCancel(parent Context) Context { return withoutCancel{parent} }

func AfterFunc(ctx Context, f func()) (stop func() bool) {
	var o mc.Once
	quit := mc.MakeChan[struct{}]()
	mc.Go("context.AfterFunc", func() {
		if mc.Select(false, mc.RecvCase(ctx.Done()), mc.RecvCase(quit)) == 0 {
			o.Do(f)
		}
	})
	return func() bool {
		did := false
		o.Do(func() { did = true; mc.Close(quit) })
		return did
	}
}
