package main

import (
	"context"
	"time"
	"unsafe"
)

// trackCtx is a caller-owned context that counts what is still registered on it.
type trackCtx struct {
	done chan struct{}
	err  error
	id   int
	next int
	regs []trackReg
}

type trackReg struct {
	id int
	f  func()
}

type callKey struct{}

//go:norace
func newTrackCtx(id int) *trackCtx { return &trackCtx{done: make(chan struct{}), id: id} }

func (c *trackCtx) Deadline() (time.Time, bool) { return time.Time{}, false }
func (c *trackCtx) Done() <-chan struct{}       { return c.done }

//go:norace
func (c *trackCtx) Err() error {
	hbAcq(unsafe.Pointer(c))
	return c.err
}

//go:norace
func (c *trackCtx) Value(k any) any {
	if _, ok := k.(callKey); ok {
		return c.id
	}
	return nil
}

// AfterFunc is used by package context instead of a watcher goroutine.
//
//go:norace
func (c *trackCtx) AfterFunc(f func()) func() bool {
	hbAcq(unsafe.Pointer(c))
	hbRel(unsafe.Pointer(c))
	if c.err != nil {
		go f()
		return func() bool { return false }
	}
	c.next++
	id := c.next
	c.regs = append(c.regs, trackReg{id, f})
	return func() bool { return c.remove(id) }
}

//go:norace
func (c *trackCtx) remove(id int) bool {
	hbAcq(unsafe.Pointer(c))
	hbRel(unsafe.Pointer(c))
	for i := range c.regs {
		if c.regs[i].id == id {
			c.regs = append(c.regs[:i:i], c.regs[i+1:]...)
			return true
		}
	}
	return false
}

//go:norace
func (c *trackCtx) cancel() {
	if c.err != nil {
		return
	}
	hbAcq(unsafe.Pointer(c))
	hbRel(unsafe.Pointer(c))
	c.err = context.Canceled
	close(c.done)
	regs := c.regs
	c.regs = nil
	for _, r := range regs {
		go r.f()
	}
}

// live is the number of registrations nobody released.
//
//go:norace
func (c *trackCtx) live() int { return len(c.regs) }

var _ context.Context = (*trackCtx)(nil)
