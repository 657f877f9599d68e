// Package errgroup stands in for golang.org/x/sync/errgroup in instrumented code.
package errgroup

import (
	"context"
	"fmt"

	"github.com/go-bond/bond/internal/vmc/shim/sched"
	"github.com/go-bond/bond/internal/vmc/shim/sync"
)

type Group struct {
	cancel context.CancelCauseFunc
	wg     sync.WaitGroup
	m      sync.Mutex
	c      *sync.Cond
	limit  int
	n      int
	once   bool
	err    error
}

func WithContext(ctx context.Context) (*Group, context.Context) {
	ctx, cancel := context.WithCancelCause(ctx)
	return &Group{cancel: cancel}, ctx
}

func (g *Group) cond() *sync.Cond {
	if g.c == nil {
		g.c = sync.NewCond(&g.m)
	}
	return g.c
}

func (g *Group) Wait() error {
	g.wg.Wait()
	if g.cancel != nil {
		g.cancel(g.err)
	}
	return g.err
}

func (g *Group) start(f func() error) {
	g.wg.Add(1)
	sched.Go(func() {
		defer g.wg.Done()
		err := f()
		g.m.Lock()
		g.n--
		g.cond().Signal()
		if err != nil && !g.once {
			g.once = true
			g.err = err
			if g.cancel != nil {
				g.cancel(err)
			}
		}
		g.m.Unlock()
	})
}

func (g *Group) Go(f func() error) {
	g.m.Lock()
	for g.limit > 0 && g.n >= g.limit {
		g.cond().Wait()
	}
	g.n++
	g.m.Unlock()
	g.start(f)
}

func (g *Group) TryGo(f func() error) bool {
	g.m.Lock()
	if g.limit > 0 && g.n >= g.limit {
		g.m.Unlock()
		return false
	}
	g.n++
	g.m.Unlock()
	g.start(f)
	return true
}

func (g *Group) SetLimit(n int) {
	if g.n != 0 {
		panic(fmt.Errorf("errgroup: modify limit while %v goroutines in the group are still active", g.n))
	}
	if n < 0 {
		n = 0
	}
	g.limit = n
}
