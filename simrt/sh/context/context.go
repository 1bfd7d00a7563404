// Package context is package context with simulated channels and timers.
package context

import (
	"context"
	"errors"
	"time"

	"simmod/simrt"
)

var (
	Canceled         = context.Canceled
	DeadlineExceeded = context.DeadlineExceeded
)

// Context mirrors context.Context.
type Context interface {
	Deadline() (deadline time.Time, ok bool)
	Done() *simrt.Chan[struct{}]
	Err() error
	Value(key interface{}) interface{}
}

type CancelFunc func()

type empty struct{}

func (empty) Deadline() (t time.Time, ok bool) { return }
func (empty) Done() *simrt.Chan[struct{}]      { return nil }
func (empty) Err() error                       { return nil }
func (empty) Value(interface{}) interface{}    { return nil }
func Background() Context                      { return empty{} }
func TODO() Context                            { return empty{} }

type ctx struct {
	Context
	mu   simrt.Mutex
	done *simrt.Chan[struct{}]
	err  error
	kids []*ctx
	dl   time.Time
	k, v interface{}
}

func (c *ctx) Deadline() (time.Time, bool) {
	if !c.dl.IsZero() {
		return c.dl, true
	}
	return c.Context.Deadline()
}
func (c *ctx) Done() *simrt.Chan[struct{}] {
	if c.done != nil {
		return c.done
	}
	return c.Context.Done()
}
func (c *ctx) Err() error {
	if c.done == nil {
		return c.Context.Err()
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.err
}
func (c *ctx) Value(k interface{}) interface{} {
	if c.k != nil && c.k == k {
		return c.v
	}
	return c.Context.Value(k)
}
func (c *ctx) cancel(err error) {
	c.mu.Lock()
	if c.err != nil {
		c.mu.Unlock()
		return
	}
	c.err = err
	kids := c.kids
	c.done.Close()
	c.mu.Unlock()
	for _, k := range kids {
		k.cancel(err)
	}
}
func parentOf(p Context) *ctx {
	for {
		c, ok := p.(*ctx)
		if !ok {
			return nil
		}
		if c.done != nil {
			return c
		}
		p = c.Context
	}
}
func WithCancel(p Context) (Context, CancelFunc) {
	c := &ctx{Context: p, done: simrt.MakeChan[struct{}](0)}
	if q := parentOf(p); q != nil {
		q.mu.Lock()
		err := q.err
		q.kids = append(q.kids, c)
		q.mu.Unlock()
		if err != nil {
			c.cancel(err)
		}
	}
	return c, func() { c.cancel(Canceled) }
}
func WithDeadline(p Context, d time.Time) (Context, CancelFunc) {
	return WithTimeout(p, d.Sub(simrt.Now()))
}
func WithTimeout(p Context, d time.Duration) (Context, CancelFunc) {
	x, f := WithCancel(p)
	c := x.(*ctx)
	c.dl = simrt.Now().Add(d)
	t := simrt.AfterFunc(d, func() { c.cancel(DeadlineExceeded) })
	return c, func() { t.Stop(); f() }
}
func WithValue(p Context, k, v interface{}) Context {
	if k == nil {
		panic(errors.New("nil key"))
	}
	return &ctx{Context: p, k: k, v: v}
}
