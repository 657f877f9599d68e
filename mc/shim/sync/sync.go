// Package sync stands in for the standard package in instrumented code. The
// operations are scheduling points for controlled goroutines and work as usual
// for others.
package sync

import (
	"sync"
	"time"
	"unsafe"

	"github.com/go-bond/bond/internal/vmc/shim/sched"
)

type Locker = sync.Locker

type guard struct{ m sync.Mutex }

func (g *guard) Lock()   { sched.Off(); g.m.Lock() }
func (g *guard) Unlock() { g.m.Unlock(); sched.On() }

var g guard // guards the state of all stand-ins

func locked(f func() bool) bool { g.Lock(); defer g.Unlock(); return f() }

// wait returns once test was true and take has been run on that state.
func wait(label string, test func() bool, take func(), pending *int) {
	try := func() bool {
		return locked(func() bool {
			if !test() {
				return false
			}
			take()
			return true
		})
	}
	sched.Point(label)
	if try() {
		return
	}
	add := func(n int) {
		if pending != nil {
			locked(func() bool { *pending += n; return true })
		}
	}
	add(1)
	for i := 0; ; i++ {
		if !sched.Block(label, func() bool { return locked(test) }) {
			if i < 100 {
				time.Sleep(time.Microsecond)
			} else {
				time.Sleep(100 * time.Microsecond)
			}
		}
		if try() {
			add(-1)
			return
		}
	}
}

func try(label string, test func() bool, take func()) bool {
	sched.Point(label)
	return locked(func() bool {
		if !test() {
			return false
		}
		take()
		return true
	})
}

type Mutex struct {
	held bool
}

func (m *Mutex) free() bool { return !m.held }
func (m *Mutex) take()      { m.held = true }
func (m *Mutex) Lock() {
	wait("Lock", m.free, m.take, nil)
	sched.Acquire(unsafe.Pointer(m))
}
func (m *Mutex) TryLock() bool {
	ok := try("TryLock", m.free, m.take)
	if ok {
		sched.Acquire(unsafe.Pointer(m))
	}
	return ok
}
func (m *Mutex) Unlock() {
	sched.Release(unsafe.Pointer(m))
	if !locked(func() bool { was := m.held; m.held = false; return was }) {
		panic("sync: unlock of unlocked mutex")
	}
	if sched.UnlockPoints {
		sched.Point("Unlock")
	}
}

type RWMutex struct {
	w       bool
	r       int
	pending int
}

func (m *RWMutex) free() bool  { return !m.w && m.r == 0 }
func (m *RWMutex) take()       { m.w = true }
func (m *RWMutex) rfree() bool { return !m.w && m.pending == 0 }
func (m *RWMutex) rtake()      { m.r++ }

// what the race detector is told: readers are after the last writer, a writer
// is after everybody before
func (m *RWMutex) wcell() unsafe.Pointer { return unsafe.Pointer(&m.r) }
func (m *RWMutex) rcell() unsafe.Pointer { return unsafe.Pointer(&m.pending) }

func (m *RWMutex) Lock() {
	wait("Lock", m.free, m.take, &m.pending)
	sched.Acquire(m.wcell())
	sched.Acquire(m.rcell())
}
func (m *RWMutex) RLock() {
	wait("RLock", m.rfree, m.rtake, nil)
	sched.Acquire(m.wcell())
}
func (m *RWMutex) TryLock() bool {
	ok := try("TryLock", m.free, m.take)
	if ok {
		sched.Acquire(m.wcell())
		sched.Acquire(m.rcell())
	}
	return ok
}
func (m *RWMutex) TryRLock() bool {
	ok := try("TryRLock", m.rfree, m.rtake)
	if ok {
		sched.Acquire(m.wcell())
	}
	return ok
}
func (m *RWMutex) Unlock() {
	sched.Release(m.wcell())
	if !locked(func() bool { was := m.w; m.w = false; return was }) {
		panic("sync: Unlock of unlocked RWMutex")
	}
	if sched.UnlockPoints {
		sched.Point("Unlock")
	}
}
func (m *RWMutex) RUnlock() {
	sched.Merge(m.rcell())
	if !locked(func() bool { m.r--; return m.r >= 0 }) {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	if sched.UnlockPoints {
		sched.Point("RUnlock")
	}
}

type rlocker RWMutex

func (r *rlocker) Lock()           { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock()         { (*RWMutex)(r).RUnlock() }
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

var cells [128]int64

func cell(x any) unsafe.Pointer {
	p := uintptr((*[2]unsafe.Pointer)(unsafe.Pointer(&x))[1])
	return unsafe.Pointer(&cells[(p>>4)*2654435761>>7%128])
}

// Pool hands out the item put last, the choice that shows most when an item is
// used after it was put.
type Pool struct {
	New   func() any
	items []any
}

func (p *Pool) Get() any {
	sched.Point("Get")
	g.Lock()
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		g.Unlock()
		sched.Acquire(cell(x))
		return x
	}
	g.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	sched.Point("Put")
	sched.Merge(cell(x))
	g.Lock()
	if len(p.items) < 1024 {
		p.items = append(p.items, x)
	}
	g.Unlock()
}

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	sched.Point("Once")
	if locked(func() bool { return o.done }) {
		sched.Acquire(unsafe.Pointer(o))
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() {
			sched.Merge(unsafe.Pointer(o))
			locked(func() bool { o.done = true; return true })
		}()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	var p any
	ok := false
	return func() {
		o.Do(func() {
			defer func() {
				if !ok {
					p = recover()
					panic(p)
				}
			}()
			f()
			ok = true
		})
		if !ok {
			panic(p)
		}
	}
}

func OnceValue[T any](f func() T) func() T {
	var v T
	o := OnceFunc(func() { v = f() })
	return func() T { o(); return v }
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var v T
	var u U
	o := OnceFunc(func() { v, u = f() })
	return func() (T, U) { o(); return v, u }
}

type WaitGroup struct{ n int }

func (w *WaitGroup) Add(d int) {
	if d < 0 {
		sched.Merge(unsafe.Pointer(w))
	}
	if !locked(func() bool { w.n += d; return w.n >= 0 }) {
		panic("sync: negative WaitGroup counter")
	}
	sched.Point("Add")
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	wait("Wait", func() bool { return w.n == 0 }, func() {}, nil)
	sched.Acquire(unsafe.Pointer(w))
}

type Cond struct {
	L       Locker
	waiting []*bool
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	sig := new(bool)
	locked(func() bool { c.waiting = append(c.waiting, sig); return true })
	c.L.Unlock()
	wait("Cond", func() bool { return *sig }, func() {}, nil)
	c.L.Lock()
}

func (c *Cond) Signal() {
	sched.Point("Signal")
	locked(func() bool {
		if len(c.waiting) > 0 {
			*c.waiting[0] = true
			c.waiting = c.waiting[1:]
		}
		return true
	})
}

func (c *Cond) Broadcast() {
	sched.Point("Broadcast")
	locked(func() bool {
		for _, s := range c.waiting {
			*s = true
		}
		c.waiting = nil
		return true
	})
}

type Map struct{ m sync.Map }

// op is one operation: after those before it.
func (m *Map) op(label string) {
	sched.Point(label)
	sched.Acquire(unsafe.Pointer(m))
	sched.Merge(unsafe.Pointer(m))
}

func (m *Map) Load(k any) (any, bool) { m.op("Load"); return m.m.Load(k) }
func (m *Map) Store(k, v any)         { m.op("Store"); m.m.Store(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.op("LoadOrStore")
	return m.m.LoadOrStore(k, v)
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.op("LoadAndDelete")
	return m.m.LoadAndDelete(k)
}
func (m *Map) Delete(k any)              { m.op("Delete"); m.m.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool) { m.op("Swap"); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, o, n any) bool {
	m.op("CompareAndSwap")
	return m.m.CompareAndSwap(k, o, n)
}
func (m *Map) CompareAndDelete(k, o any) bool {
	m.op("CompareAndDelete")
	return m.m.CompareAndDelete(k, o)
}
func (m *Map) Range(f func(k, v any) bool) {
	m.op("Range")
	m.m.Range(func(k, v any) bool { m.op("Range"); return f(k, v) })
}
