package kit

import (
	"bytes"
	"context"
	"errors"
	"io"
	"sync/atomic"
	"time"

	"github.com/go-bond/bond"
)

// Faults numbers the calls a piece of code makes to its environment and lets
// one of them (or it and all later ones) fail.
type Faults struct {
	At      int // number of the call that fails, -1 none
	Persist bool
	N       int
	Trace   []string
	Fired   bool
	Only    func(op string) bool // which calls count, nil all
}

var ErrInjected = errors.New("injected failure")

// Point is called by the environment at each call.
func (f *Faults) Point(op string) error {
	if f == nil || f.Only != nil && !f.Only(op) {
		return nil
	}
	i := f.N
	f.N++
	if f.Trace != nil {
		f.Trace = append(f.Trace, op)
	}
	if i == f.At || f.Persist && f.At >= 0 && i > f.At {
		f.Fired = true
		return ErrInjected
	}
	return nil
}

// HookDB is a database whose calls can be observed and made to fail.
type HookDB struct {
	bond.DB
	Before func(op string) error

	// Args checks that the bytes given to a call stay as they are while
	// Before runs; it gets what changed.
	Args func(op string, was, is []byte)
	// Poison makes every slice handed out unusable as soon as it may be
	// reused: after closing, after moving the iterator.
	Poison bool

	Iters, Batches, Closers int64 // open ones
}

func (h *HookDB) at(op string, args ...[]byte) error {
	if h.Before == nil {
		return nil
	}
	if h.Args == nil || len(args) == 0 {
		return h.Before(op)
	}
	was := make([][]byte, len(args))
	for i, a := range args {
		was[i] = append([]byte{}, a...)
	}
	err := h.Before(op)
	for i, a := range args {
		if !bytes.Equal(a, was[i]) {
			h.Args(op, was[i], append([]byte{}, a...))
		}
	}
	return err
}

func poison(b []byte) {
	for i := range b {
		b[i] = 0xDB
	}
}

func unhook(b []bond.Batch) []bond.Batch {
	if len(b) > 0 {
		if x, ok := b[0].(*hookBatch); ok {
			return []bond.Batch{x.Batch}
		}
	}
	return b
}

type hookCloser struct {
	io.Closer
	h *HookDB
	d []byte
}

func (c *hookCloser) Close() error {
	atomic.AddInt64(&c.h.Closers, -1)
	if c.h.Poison {
		poison(c.d)
	}
	return c.Closer.Close()
}

func (h *HookDB) closer(d []byte, c io.Closer, err error) ([]byte, io.Closer, error) {
	if err == nil && c != nil {
		atomic.AddInt64(&h.Closers, 1)
		if h.Poison {
			d = append(make([]byte, 0, len(d)+1), d...)
		}
		c = &hookCloser{c, h, d}
	}
	return d, c, err
}

func (h *HookDB) Get(key []byte, batch ...bond.Batch) ([]byte, io.Closer, error) {
	if err := h.at("get", key); err != nil {
		return nil, nil, err
	}
	return h.closer(h.DB.Get(key, unhook(batch)...))
}

func (h *HookDB) Set(key, value []byte, opt bond.WriteOptions, batch ...bond.Batch) error {
	if err := h.at("set", key, value); err != nil {
		return err
	}
	return h.DB.Set(key, value, opt, unhook(batch)...)
}

func (h *HookDB) Delete(key []byte, opt bond.WriteOptions, batch ...bond.Batch) error {
	if err := h.at("delete", key); err != nil {
		return err
	}
	return h.DB.Delete(key, opt, unhook(batch)...)
}

func (h *HookDB) DeleteRange(a, b []byte, opt bond.WriteOptions, batch ...bond.Batch) error {
	if err := h.at("deleterange", a, b); err != nil {
		return err
	}
	return h.DB.DeleteRange(a, b, opt, unhook(batch)...)
}

func (h *HookDB) Iter(opt *bond.IterOptions, batch ...bond.Batch) bond.Iterator {
	_ = h.at("iter", bounds(opt)...)
	atomic.AddInt64(&h.Iters, 1)
	return &hookIter{Iterator: h.DB.Iter(opt, unhook(batch)...), h: h}
}

func (h *HookDB) Batch(t bond.BatchType) bond.Batch {
	atomic.AddInt64(&h.Batches, 1)
	return &hookBatch{Batch: h.DB.Batch(t), h: h}
}

func (h *HookDB) Apply(b bond.Batch, opt bond.WriteOptions) error {
	if err := h.at("commit"); err != nil {
		return err
	}
	return h.DB.Apply(unhook([]bond.Batch{b})[0], opt)
}

type hookIter struct {
	bond.Iterator
	h      *HookDB
	err    error
	closed bool
	k, v   []byte
}

func (i *hookIter) move(f func() bool, args ...[]byte) bool {
	if i.err == nil {
		i.err = i.h.at("iter.move", args...)
	}
	if i.err != nil {
		return false
	}
	i.forget()
	return f()
}

func (i *hookIter) forget() {
	poison(i.k)
	poison(i.v)
	i.k, i.v = nil, nil
}

func (i *hookIter) Key() []byte {
	if !i.h.Poison {
		return i.Iterator.Key()
	}
	if i.k == nil {
		i.k = append(make([]byte, 0, 64), i.Iterator.Key()...)
	}
	return i.k
}

func (i *hookIter) Value() []byte {
	if !i.h.Poison {
		return i.Iterator.Value()
	}
	if i.v == nil {
		i.v = append(make([]byte, 0, 64), i.Iterator.Value()...)
	}
	return i.v
}

func (i *hookIter) First() bool { return i.move(i.Iterator.First) }
func (i *hookIter) Last() bool  { return i.move(i.Iterator.Last) }
func (i *hookIter) Next() bool  { return i.move(i.Iterator.Next) }
func (i *hookIter) Prev() bool  { return i.move(i.Iterator.Prev) }
func (i *hookIter) SeekGE(k []byte) bool {
	return i.move(func() bool { return i.Iterator.SeekGE(k) }, k)
}
func (i *hookIter) SeekPrefixGE(k []byte) bool {
	return i.move(func() bool { return i.Iterator.SeekPrefixGE(k) }, k)
}
func (i *hookIter) SeekLT(k []byte) bool {
	return i.move(func() bool { return i.Iterator.SeekLT(k) }, k)
}
func (i *hookIter) Valid() bool { return i.err == nil && i.Iterator.Valid() }
func (i *hookIter) Error() error {
	if i.err != nil {
		return i.err
	}
	return i.Iterator.Error()
}
func (i *hookIter) Close() error {
	if !i.closed {
		i.closed = true
		atomic.AddInt64(&i.h.Iters, -1)
	}
	i.forget()
	err := i.Iterator.Close()
	if i.err != nil {
		return i.err
	}
	return err
}

type hookBatch struct {
	bond.Batch
	h      *HookDB
	closed bool
}

func (b *hookBatch) Get(key []byte, batch ...bond.Batch) ([]byte, io.Closer, error) {
	if err := b.h.at("get", key); err != nil {
		return nil, nil, err
	}
	return b.h.closer(b.Batch.Get(key, unhook(batch)...))
}

func (b *hookBatch) Set(key, value []byte, opt bond.WriteOptions, batch ...bond.Batch) error {
	if err := b.h.at("set", key, value); err != nil {
		return err
	}
	return b.Batch.Set(key, value, opt, unhook(batch)...)
}

func (b *hookBatch) Delete(key []byte, opt bond.WriteOptions, batch ...bond.Batch) error {
	if err := b.h.at("delete", key); err != nil {
		return err
	}
	return b.Batch.Delete(key, opt, unhook(batch)...)
}

func (b *hookBatch) DeleteRange(x, y []byte, opt bond.WriteOptions, batch ...bond.Batch) error {
	if err := b.h.at("deleterange", x, y); err != nil {
		return err
	}
	return b.Batch.DeleteRange(x, y, opt, unhook(batch)...)
}

func (b *hookBatch) Iter(opt *bond.IterOptions, batch ...bond.Batch) bond.Iterator {
	_ = b.h.at("iter", bounds(opt)...)
	atomic.AddInt64(&b.h.Iters, 1)
	return &hookIter{Iterator: b.Batch.Iter(opt, unhook(batch)...), h: b.h}
}

func (b *hookBatch) Commit(opt bond.WriteOptions) error {
	if err := b.h.at("commit"); err != nil {
		return err
	}
	return b.Batch.Commit(opt)
}

func (b *hookBatch) Close() error {
	if !b.closed {
		b.closed = true
		atomic.AddInt64(&b.h.Batches, -1)
	}
	return b.Batch.Close()
}

// FaultCtx is a context that can be cancelled at each look at it.
type FaultCtx struct {
	F    *Faults
	done chan struct{}
	hit  bool
}

func NewFaultCtx(f *Faults) *FaultCtx { return &FaultCtx{F: f, done: make(chan struct{})} }

func (c *FaultCtx) look() {
	if !c.hit && c.F.Point("ctx") != nil {
		c.hit = true
		close(c.done)
	}
}
func (c *FaultCtx) Done() <-chan struct{} { c.look(); return c.done }
func (c *FaultCtx) Err() error {
	c.look()
	if c.hit {
		return context.Canceled
	}
	return nil
}
func (c *FaultCtx) Deadline() (time.Time, bool) { return time.Time{}, false }
func (c *FaultCtx) Value(any) any               { return nil }

// FaultSerializer lets serialisation fail.
type FaultSerializer struct {
	S     bond.Serializer[any]
	Point func(op string) error
}

func (s *FaultSerializer) Serialize(v any) ([]byte, error) {
	if err := s.Point("serialize"); err != nil {
		return nil, err
	}
	return s.S.Serialize(v)
}

func (s *FaultSerializer) Deserialize(b []byte, v any) error {
	if err := s.Point("deserialize"); err != nil {
		return err
	}
	return s.S.Deserialize(b, v)
}

// FaultSerializerBuf is the same for serialisers that write to a buffer.
type FaultSerializerBuf struct{ FaultSerializer }

func (s *FaultSerializerBuf) SerializeFuncWithBuffer(buf *bytes.Buffer) func(any) ([]byte, error) {
	f := s.S.(bond.SerializerWithBuffer[any]).SerializeFuncWithBuffer(buf)
	return func(v any) ([]byte, error) {
		if err := s.Point("serialize"); err != nil {
			return nil, err
		}
		return f(v)
	}
}

func bounds(o *bond.IterOptions) [][]byte {
	if o == nil {
		return nil
	}
	return [][]byte{o.LowerBound, o.UpperBound}
}

// Unhook gives the batch behind a batch of a HookDB.
func Unhook(b bond.Batch) bond.Batch { return unhook([]bond.Batch{b})[0] }
