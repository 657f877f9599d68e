package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"reflect"

	"github.com/fxamacker/cbor/v2"
	"github.com/go-bond/bond"
	. "github.com/go-bond/bond/internal/vmc/kit"
	"github.com/go-bond/bond/serializers"
	"github.com/go-bond/bond/utils"
	"github.com/tinylib/msgp/msgp"
	"github.com/vmihailenco/msgpack/v5"
)

func init() {
	Register(&Check{ID: "C23", Level: "model_checking", Run: runC23,
		Rule: "(1) every record with each field, and each pair of fields, at each of its extreme values through every serialiser, in every pointer form, decoded from bytes that become garbage afterwards; (2) every history up to the depth of serialising (plain, with release, into a buffer), failing and releasing in any order, over pools that hand out the last, the first or a new item; (3) a whole call inside of each pool and encoding step of another; after each step all bytes not released and all records read are compared with what they were"})
}

type sub23 struct {
	A int
	B string
}

type rec23 struct {
	ID  uint64
	I8  int8
	I16 int16
	I32 int32
	I64 int64
	U8  uint8
	F32 float32
	F64 float64
	S   string
	Y   []byte
	B   bool
	L   []string
	M   map[string]int64
	In  sub23
	P   *sub23
}

var dom23 = map[string][]any{
	"ID":  {uint64(0), uint64(1), uint64(127), uint64(128), uint64(1<<32 - 1), uint64(1 << 53), uint64(1<<53 + 1), uint64(math.MaxUint64)},
	"I8":  {int8(0), int8(-1), int8(-128), int8(127)},
	"I16": {int16(0), int16(-129), int16(math.MinInt16), int16(math.MaxInt16)},
	"I32": {int32(0), int32(math.MinInt32), int32(math.MaxInt32)},
	"I64": {int64(0), int64(-1), int64(math.MinInt64), int64(math.MaxInt64), int64(1<<53 + 1)},
	"U8":  {uint8(0), uint8(128), uint8(255)},
	"F32": {float32(0), float32(1.1), float32(math.MaxFloat32), float32(math.SmallestNonzeroFloat32), float32(-3)},
	"F64": {0.0, 1.1, math.MaxFloat64, math.SmallestNonzeroFloat64, -1e-300, 1e15},
	"S":   {"", "a", "\x00", "ü\"\\\n", "\U0010FFFF", string(bytes.Repeat([]byte("x"), 300))},
	"Y":   {[]byte(nil), []byte{}, []byte{0}, []byte{255, 0, 255}, bytes.Repeat([]byte{7}, 5000)},
	"B":   {false, true},
	"L":   {[]string(nil), []string{}, []string{""}, []string{"a", "", "a"}},
	"M":   {map[string]int64(nil), map[string]int64{}, map[string]int64{"": 0}, map[string]int64{"a": -1, "b": math.MinInt64}},
	"In":  {sub23{}, sub23{-1, "x"}},
	"P":   {(*sub23)(nil), &sub23{}, &sub23{5, "é"}},
}

// the fields generated and vt types have
type gen23 struct {
	ID uint64
	S  string
	Y  []byte
}

var errEncode = errors.New("this record can not be encoded")

func (g *gen23) EncodeMsg(w *msgp.Writer) error {
	if err := w.WriteArrayHeader(3); err != nil {
		return err
	}
	if err := w.WriteUint64(g.ID); err != nil {
		return err
	}
	step23()
	if err := w.WriteString(g.S); err != nil {
		return err
	}
	if g.S == "bad" {
		return errEncode
	}
	return w.WriteBytes(g.Y)
}

func (g *gen23) DecodeMsg(r *msgp.Reader) (err error) {
	if _, err = r.ReadArrayHeader(); err != nil {
		return
	}
	if g.ID, err = r.ReadUint64(); err != nil {
		return
	}
	if g.S, err = r.ReadString(); err != nil {
		return
	}
	g.Y, err = r.ReadBytes(g.Y)
	return
}

// EncodeMsgpack and DecodeMsgpack for the other msgpack serialiser.
func (g *gen23) EncodeMsgpack(e *msgpack.Encoder) error {
	if err := e.EncodeUint64(g.ID); err != nil {
		return err
	}
	step23()
	if err := e.EncodeString(g.S); err != nil {
		return err
	}
	if g.S == "bad" {
		return errEncode
	}
	return e.EncodeBytes(g.Y)
}

func (g *gen23) DecodeMsgpack(d *msgpack.Decoder) (err error) {
	if g.ID, err = d.DecodeUint64(); err != nil {
		return
	}
	if g.S, err = d.DecodeString(); err != nil {
		return
	}
	g.Y, err = d.DecodeBytes()
	return
}

func (g *gen23) MarshalJSON() ([]byte, error) {
	step23()
	if g.S == "bad" {
		return nil, errEncode
	}
	type plain gen23
	return json.Marshal((*plain)(g))
}

func (g *gen23) MarshalCBOR() ([]byte, error) {
	step23()
	if g.S == "bad" {
		return nil, errEncode
	}
	type plain gen23
	return cbor.Marshal((*plain)(g))
}

func (g *gen23) MarshalVT() ([]byte, error) {
	step23()
	if g.S == "bad" {
		return nil, errEncode
	}
	b := binary.BigEndian.AppendUint64(nil, g.ID)
	b = binary.BigEndian.AppendUint32(b, uint32(len(g.S)))
	b = append(b, g.S...)
	return append(b, g.Y...), nil
}

func (g *gen23) UnmarshalVT(b []byte) error {
	if len(b) < 12 {
		return errors.New("too short")
	}
	n := int(binary.BigEndian.Uint32(b[8:]))
	if len(b) < 12+n {
		return errors.New("too short")
	}
	g.ID, g.S, g.Y = binary.BigEndian.Uint64(b), string(b[12:12+n]), append([]byte{}, b[12+n:]...)
	return nil
}

// pb23 is a message of the older kind.
type pb23 struct{ gen gen23 }

func (p *pb23) Reset()         { *p = pb23{} }
func (p *pb23) String() string { return p.gen.S }
func (p *pb23) ProtoMessage()  {}

type pbcodec struct{}

func (pbcodec) Marshal(m serializers.ProtobufMessageV1) ([]byte, error) {
	return m.(*pb23).gen.MarshalVT()
}
func (pbcodec) Unmarshal(b []byte, m serializers.ProtobufMessageV1) error {
	return m.(*pb23).gen.UnmarshalVT(b)
}

// step23 is called in the middle of encoding.
var step23 = func() {}

// pool23 hands out items in a chosen way.
type pool23[T any] struct {
	items []T
	mk    func() T
	mode  int // 0 last, 1 first, 2 always new
	at    func()
}

func (p *pool23[T]) Get() T {
	p.at()
	if len(p.items) == 0 || p.mode == 2 {
		return p.mk()
	}
	i := len(p.items) - 1
	if p.mode == 1 {
		i = 0
	}
	x := p.items[i]
	p.items = append(p.items[:i:i], p.items[i+1:]...)
	return x
}

func (p *pool23[T]) Put(x T) {
	p.at()
	p.items = append(p.items, x)
}

type ser23 struct {
	name string
	mk   func(at func()) bond.Serializer[any]
	ptr2 bool // takes pointers to pointers
	any  bool // takes every struct
}

func sers23() []ser23 {
	out := []ser23{
		{"json", func(func()) bond.Serializer[any] { return &serializers.JsonSerializer{} }, true, true},
		{"cbor", func(func()) bond.Serializer[any] { return &serializers.CBORSerializer{} }, true, true},
		{"cbor with modes", func(func()) bond.Serializer[any] {
			e, err := cbor.CanonicalEncOptions().EncMode()
			if err != nil {
				panic(err)
			}
			d, err := cbor.DecOptions{}.DecMode()
			if err != nil {
				panic(err)
			}
			return &serializers.CBORSerializer{EncMode: e, DecMode: d}
		}, true, true},
		{"msgpack", func(func()) bond.Serializer[any] { return &serializers.MsgpackSerializer{} }, true, true},
		{"msgpack, encoder pool", func(at func()) bond.Serializer[any] {
			return &serializers.MsgpackSerializer{Encoder: &pool23[*msgpack.Encoder]{mk: func() *msgpack.Encoder { return msgpack.NewEncoder(nil) }, at: at}}
		}, true, true},
		{"msgpack gen", func(func()) bond.Serializer[any] { return &serializers.MsgpackGenSerializer{} }, true, false},
		{"protobuf", func(func()) bond.Serializer[any] {
			return &serializers.ProtobufSerializer{Encoder: pbcodec{}, Decoder: pbcodec{}}
		}, false, false},
	}
	for mode := 0; mode < 3; mode++ {
		mode := mode
		name := []string{"last first", "first first", "always new"}[mode]
		out = append(out,
			ser23{"msgpack, pools, " + name, func(at func()) bond.Serializer[any] {
				return &serializers.MsgpackSerializer{
					Encoder: &pool23[*msgpack.Encoder]{mk: func() *msgpack.Encoder { return msgpack.NewEncoder(nil) }, mode: mode, at: at},
					Buffer:  &pool23[bytes.Buffer]{mk: func() bytes.Buffer { return bytes.Buffer{} }, mode: mode, at: at}}
			}, true, true},
			ser23{"msgpack gen, pool, " + name, func(at func()) bond.Serializer[any] {
				return &serializers.MsgpackGenSerializer{Buffer: &pool23[bytes.Buffer]{mk: func() bytes.Buffer { return bytes.Buffer{} }, mode: mode, at: at}}
			}, true, false})
	}
	out = append(out, ser23{"msgpack, bond's pools", func(func()) bond.Serializer[any] {
		return &serializers.MsgpackSerializer{
			Encoder: utils.NewPreAllocatedPool[*msgpack.Encoder](func() any { return msgpack.NewEncoder(nil) }, 1),
			Buffer:  utils.NewPreAllocatedPool[bytes.Buffer](func() any { return bytes.Buffer{} }, 1)}
	}, true, true})
	return out
}

// same23 compares records; nil and empty lists are the same.
func same23(a, b any) bool { return norm23(reflect.ValueOf(a)) == norm23(reflect.ValueOf(b)) }

func norm23(v reflect.Value) string {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return "nil"
		}
		return "&" + norm23(v.Elem())
	case reflect.Struct:
		s := "{"
		for i := 0; i < v.NumField(); i++ {
			s += norm23(v.Field(i)) + ","
		}
		return s + "}"
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return "b" + string(v.Bytes())
		}
		s := "["
		for i := 0; i < v.Len(); i++ {
			s += norm23(v.Index(i)) + ","
		}
		return s + "]"
	case reflect.Float32, reflect.Float64:
		return fmt.Sprintf("%x", v.Float())
	case reflect.String:
		return fmt.Sprintf("%q", v.String())
	}
	return fmt.Sprint(v)
}

func garbage(b []byte) {
	b = b[:cap(b)]
	for i := range b {
		b[i] = 0xDB
	}
}

// trip23 sends v through the serialiser in every form.
func trip23[T any](s bond.Serializer[any], v T, ptr2 bool) error {
	enc := []func(in any) ([]byte, func(), error){
		func(in any) ([]byte, func(), error) { b, err := s.Serialize(in); return b, func() {}, err },
	}
	if x, ok := s.(bond.SerializerWithClosable[any]); ok {
		enc = append(enc, func(in any) ([]byte, func(), error) { return x.SerializerWithCloseable(in) })
	}
	if x, ok := s.(bond.SerializerWithBuffer[any]); ok {
		enc = append(enc, func(in any) ([]byte, func(), error) {
			b, err := x.SerializeFuncWithBuffer(bytes.NewBuffer([]byte("left over")))(in)
			return b, func() {}, err
		})
	}
	for i, e := range enc {
		forms := 1
		if ptr2 {
			forms = 2
		}
		for form := 0; form < forms; form++ {
			w := v
			pw := &w
			var in any = pw
			if form == 1 {
				in = &pw
			}
			b, free, err := e(in)
			if err != nil {
				return fmt.Errorf("encoding way %d, form %d: %v", i, form, err)
			}
			if !same23(w, v) {
				return fmt.Errorf("encoding changed the record to %v", w)
			}
			for target := 0; target < forms; target++ {
				cp := append(make([]byte, 0, len(b)+8), b...)
				var got T
				var err error
				if target == 0 {
					err = s.Deserialize(cp, &got)
				} else {
					var p *T
					err = s.Deserialize(cp, &p)
					if err == nil && p != nil {
						got = *p
					}
				}
				if err != nil {
					return fmt.Errorf("decoding %x into form %d: %v", b, target, err)
				}
				if !same23(got, v) {
					return fmt.Errorf("%+v came back as %+v", v, got)
				}
				garbage(cp)
				if !same23(got, v) {
					return fmt.Errorf("the record shares memory with its bytes: %+v became %+v", v, got)
				}
			}
			free()
		}
	}
	return nil
}

func runC23(c *Ctx) {
	records23(c)
	modes23(c)
	cut23(c)
	depth := 5
	if c.Thorough() {
		depth = 6
	}
	for _, s := range sers23() {
		s := s
		c.Part(fmt.Sprintf("histories of %d calls, %s", depth, s.name), func() { histories23(c, s, depth) })
		c.Part("calls inside calls, "+s.name, func() { nested23(c, s) })
	}
	buffers23(c, depth)
}

func records23(c *Ctx) {
	c.Part("records", func() {
		var names []string
		t := reflect.TypeOf(rec23{})
		for i := 0; i < t.NumField(); i++ {
			names = append(names, t.Field(i).Name)
		}
		ss := sers23()
		c.Parallel(len(ss), func(_, i int) {
			d := ss[i]
			s := d.mk(func() {})
			gens := []gen23{}
			for _, id := range dom23["ID"] {
				for _, st := range dom23["S"] {
					for _, y := range dom23["Y"] {
						gens = append(gens, gen23{id.(uint64), st.(string), y.([]byte)})
					}
				}
			}
			for _, g := range gens {
				g := g
				c.Exec("record", func() any { return fmt.Sprint(d.name, " ", g.ID, g.S, len(g.Y)) }, func() error {
					if d.name == "protobuf" {
						if err := trip23(s, pb23{g}, false); err != nil {
							return err
						}
						return trip23(s, g, false)
					}
					if d.any {
						type plain struct {
							ID uint64
							S  string
							Y  []byte
						}
						return trip23(s, plain(g), d.ptr2)
					}
					return trip23(s, g, d.ptr2)
				})
				c.AddStates(1)
				c.AddTransitions(8)
			}
			if !d.any {
				return
			}
			set := func(r *rec23, n string, x any) { reflect.ValueOf(r).Elem().FieldByName(n).Set(reflect.ValueOf(x)) }
			for ai, a := range names {
				for _, va := range dom23[a] {
					for _, b := range names[ai:] {
						vbs := dom23[b]
						if a == b {
							vbs = vbs[:1]
						}
						for _, vb := range vbs {
							if c.Stop() {
								return
							}
							var r rec23
							set(&r, b, vb)
							set(&r, a, va)
							a, b := a, b
							c.Exec("record", func() any { return fmt.Sprint(d.name, " ", a, " ", b) }, func() error { return trip23(s, r, d.ptr2) })
							c.AddStates(1)
							c.AddTransitions(8)
						}
					}
				}
			}
		})
	})
	c.Sample(map[string]any{"serialiser": "msgpack, pools, last first", "record": fmt.Sprintf("%+v", rec23{ID: math.MaxUint64, I64: math.MinInt64})})
}

var vals23 = []gen23{{1, "small", nil}, {math.MaxUint64, "large", bytes.Repeat([]byte{9}, 600)}}

// live23 is what has been given out.
type live23 struct {
	b    []byte
	was  string
	free func()
	v    gen23
}

type run23 struct {
	s     bond.Serializer[any]
	out   []live23
	recs  []*gen23
	wants []gen23
}

func (r *run23) check() error {
	for _, l := range r.out {
		if string(l.b) != l.was {
			return fmt.Errorf("bytes of record %d that were not released became %.40x, were %.40x", l.v.ID, l.b, l.was)
		}
	}
	for i := range r.recs {
		if !same23(*r.recs[i], r.wants[i]) {
			return fmt.Errorf("a record read before became %.60v", *r.recs[i])
		}
	}
	return nil
}

func (r *run23) enc(v gen23, closable bool) error {
	var b []byte
	var err error
	free := func() {}
	if x, ok := r.s.(bond.SerializerWithClosable[any]); ok && closable {
		b, free, err = x.SerializerWithCloseable(&v)
	} else {
		closable = false
		b, err = r.s.Serialize(&v)
	}
	if v.S == "bad" {
		if err == nil {
			return fmt.Errorf("a failure to encode was not reported")
		}
		return nil
	}
	if err != nil {
		return err
	}
	l := live23{b: b, was: string(b), v: v}
	if closable {
		l.free = free
	}
	r.out = append(r.out, l)
	return r.dec(b, v)
}

func (r *run23) dec(b []byte, want gen23) error {
	got := &gen23{}
	if err := r.s.Deserialize(b, got); err != nil {
		return fmt.Errorf("decoding: %v", err)
	}
	if !same23(*got, want) {
		return fmt.Errorf("%.60v came back as %.60v", want, *got)
	}
	r.recs = append(r.recs, got)
	r.wants = append(r.wants, want)
	return nil
}

func (r *run23) release(first bool) {
	var ix []int
	for i, l := range r.out {
		if l.free != nil {
			ix = append(ix, i)
		}
	}
	if len(ix) == 0 {
		return
	}
	i := ix[0]
	if !first {
		i = ix[len(ix)-1]
	}
	l := r.out[i]
	r.out = append(r.out[:i:i], r.out[i+1:]...)
	l.free()
}

const ops23 = 8

var opNames23 = []string{"serialize small", "serialize large", "closable small", "closable large", "release first", "release last", "fail", "closable fail"}

func (r *run23) step(o int) error {
	var err error
	switch o {
	case 0, 1:
		err = r.enc(vals23[o], false)
	case 2, 3:
		err = r.enc(vals23[o-2], true)
	case 4, 5:
		r.release(o == 4)
	case 6, 7:
		err = r.enc(gen23{7, "bad", bytes.Repeat([]byte{1}, 100)}, o == 7)
	}
	if err != nil {
		return err
	}
	return r.check()
}

func histories23(c *Ctx, d ser23, depth int) {
	c.Parallel(ops23*ops23, func(_, i int) {
		var rec func(seq []int)
		rec = func(seq []int) {
			if c.Stop() {
				return
			}
			ok := true
			if len(seq) == depth {
				ok = c.Exec("history", func() any {
					var n []string
					for _, o := range seq {
						n = append(n, opNames23[o])
					}
					return fmt.Sprint(d.name, ": ", n)
				}, func() error {
					r := &run23{s: d.mk(func() {})}
					for _, o := range seq {
						if err := r.step(o); err != nil {
							return err
						}
					}
					return nil
				})
				c.AddStates(1)
				c.AddTransitions(len(seq))
				c.AddTraces(1)
			}
			if !ok || len(seq) >= depth {
				return
			}
			for o := 0; o < ops23; o++ {
				rec(append(seq[:len(seq):len(seq)], o))
			}
		}
		rec([]int{i / ops23, i % ops23})
	})
}

// nested23 runs whole calls inside of each step of another call.
func nested23(c *Ctx, d ser23) {
	for warm := 0; warm < 3; warm++ {
		for outer := 0; outer < ops23; outer++ {
			for in1 := 0; in1 < ops23; in1++ {
				for in2 := -1; in2 < ops23; in2++ {
					n := 1
					for at := 0; at < n; at++ {
						warm, outer, in1, in2, at := warm, outer, in1, in2, at
						c.Exec("nested", func() any {
							return fmt.Sprint(d.name, ": ", opNames23[outer], ", at step ", at, " ", opNames23[in1], " ", in2, " warm ", warm)
						}, func() error {
							steps, inside := 0, true
							var nerr error
							var r, r2 *run23
							hook := func() {
								if inside {
									return
								}
								if steps == at {
									inside = true
									nerr = r2.step(in1)
									if nerr == nil && in2 >= 0 {
										nerr = r2.step(in2)
									}
									inside = false
								}
								steps++
							}
							s := d.mk(hook)
							step23 = hook
							defer func() { step23 = func() {} }()
							r, r2 = &run23{s: s}, &run23{s: s}
							for i := 0; i < warm; i++ {
								if err := r2.step(2 + i%2); err != nil {
									return err
								}
							}
							for i := 0; i < warm; i++ {
								if err := r2.step(4); err != nil {
									return err
								}
							}
							if outer == 4 || outer == 5 {
								if err := r.step(3); err != nil {
									return err
								}
							}
							inside = false
							err := r.step(outer)
							inside = true
							n = max(n, steps)
							if err != nil {
								return err
							}
							if nerr != nil {
								return fmt.Errorf("inside: %w", nerr)
							}
							if err := r2.check(); err != nil {
								return fmt.Errorf("inside: %w", err)
							}
							if err := r.step(3); err != nil {
								return err
							}
							return r2.check()
						})
						c.AddStates(1)
						c.AddTransitions(4)
					}
				}
			}
		}
	}
}

// buffers23: encoding functions with their own buffers, several of them used
// in turn.
func buffers23(c *Ctx, depth int) {
	for _, d := range sers23() {
		s, ok := d.mk(func() {}).(bond.SerializerWithBuffer[any])
		if !ok {
			continue
		}
		d := d
		c.Part("buffers, "+d.name, func() {
			// operation: which of two buffers, which value (2 fails)
			total := 1
			for i := 0; i < depth; i++ {
				total *= 6
			}
			for x := 0; x < total && !c.Stop(); x++ {
				x := x
				c.Exec("buffers", func() any { return fmt.Sprint(d.name, " history ", x) }, func() error {
					bufs := []*bytes.Buffer{bytes.NewBuffer(make([]byte, 0, 16)), bytes.NewBuffer([]byte("left over"))}
					fs := []func(any) ([]byte, error){s.SerializeFuncWithBuffer(bufs[0]), s.SerializeFuncWithBuffer(bufs[1])}
					var last [2][]byte
					var was [2]string
					var want [2]gen23
					for i, y := 0, x; i < depth; i, y = i+1, y/6 {
						k, v := y%2, y%6/2
						g := gen23{7, "bad", nil}
						if v < 2 {
							g = vals23[v]
						}
						b, err := fs[k](&g)
						last[k] = nil
						if v == 2 {
							if err == nil {
								return fmt.Errorf("a failure to encode was not reported")
							}
						} else {
							if err != nil {
								return err
							}
							last[k], was[k], want[k] = b, string(b), g
						}
						for j := range last {
							if last[j] == nil {
								continue
							}
							if string(last[j]) != was[j] {
								return fmt.Errorf("step %d: bytes in buffer %d changed", i, j)
							}
							var got gen23
							if err := d.mk(func() {}).Deserialize(last[j], &got); err != nil || !same23(got, want[j]) {
								return fmt.Errorf("step %d: %.40v came back as %.40v, %v", i, want[j], got, err)
							}
						}
					}
					return nil
				})
				c.AddStates(1)
				c.AddTransitions(depth)
			}
		})
	}
}

// tagged23 has fields that come back only under the modes given to the
// serialiser.
type tagged23 struct {
	ID uint64
	X  any
	L  []any
}

type tag23a struct{ A int }
type tag23b string

// modes23: the encoding and decoding modes given are used in every way to
// encode and decode.
func modes23(c *Ctx) {
	c.Part("cbor, given modes", func() {
		tags := cbor.NewTagSet()
		for i, t := range []any{tag23a{}, tag23b("")} {
			if err := tags.Add(cbor.TagOptions{DecTag: cbor.DecTagRequired, EncTag: cbor.EncTagRequired}, reflect.TypeOf(t), uint64(1000+i)); err != nil {
				panic(err)
			}
		}
		decs := []cbor.DecOptions{
			{IntDec: cbor.IntDecConvertSigned, DefaultMapType: reflect.TypeOf(map[string]any{})},
			{IntDec: cbor.IntDecConvertSigned, DefaultMapType: reflect.TypeOf(map[string]any{}), MaxNestedLevels: 5, MaxArrayElements: 16},
			{IntDec: cbor.IntDecConvertSigned, DefaultMapType: reflect.TypeOf(map[string]any{}), DupMapKey: cbor.DupMapKeyEnforcedAPF, ExtraReturnErrors: cbor.ExtraDecErrorUnknownField},
		}
		encs := []cbor.EncOptions{{}, cbor.CanonicalEncOptions(), cbor.CoreDetEncOptions(), {Sort: cbor.SortBytewiseLexical, ShortestFloat: cbor.ShortestFloat16}}
		vals := []any{nil, int64(5), int64(-1), int64(math.MaxInt64), "s", true, 1.5, []any{int64(1), "x"}, map[string]any{"a": int64(1), "b": map[string]any{}}, tag23a{7}, tag23b("t"), tag23b("")}
		// bytes some of the modes refuse
		deep := append(bytes.Repeat([]byte{0x81}, 8), 0x01)
		long := append([]byte{0x98, 20}, bytes.Repeat([]byte{1}, 20)...)
		field := func(b []byte) []byte { return append([]byte{0xa2, 0x62, 'I', 'D', 1, 0x61, 'X'}, b...) }
		raw := [][]byte{field(deep), field(long), {0xa2, 0x62, 'I', 'D', 1, 0x62, 'I', 'D', 2}, {0xa2, 0x62, 'I', 'D', 1, 0x61, 'Q', 1}, {0xa1, 0x62, 'I', 'D', 0x20}, {0xa1, 0x62, 'I', 'D', 1, 0}, {}}
		for di, do := range decs {
			d, err := do.DecModeWithTags(tags)
			if err != nil {
				panic(err)
			}
			for ei, eo := range encs {
				e, err := eo.EncModeWithTags(tags)
				if err != nil {
					panic(err)
				}
				s := &serializers.CBORSerializer{EncMode: e, DecMode: d}
				one := func(name string, r tagged23) {
					c.Exec("record under modes", func() any { return fmt.Sprint(di, ei, " ", name) }, func() error {
						want, err := e.Marshal(&r)
						if err != nil {
							panic(err)
						}
						buf := s.SerializeFuncWithBuffer(bytes.NewBuffer([]byte("left over")))
						for i, f := range []func(any) ([]byte, error){s.Serialize, buf, buf} {
							b, err := f(&r)
							if err != nil {
								return err
							}
							if eo.Sort != cbor.SortNone && !bytes.Equal(b, want) {
								return fmt.Errorf("way %d: %x, the mode gives %x", i, b, want)
							}
							var got tagged23
							if err := s.Deserialize(b, &got); err != nil {
								return err
							}
							if !reflect.DeepEqual(got, r) {
								return fmt.Errorf("way %d: %#v came back as %#v", i, r, got)
							}
						}
						return nil
					})
					c.AddStates(1)
					c.AddTransitions(6)
				}
				for i, v := range vals {
					one(fmt.Sprint("value ", i), tagged23{ID: 1, X: v})
					for j, w := range vals {
						one(fmt.Sprint("values ", i, " ", j), tagged23{ID: math.MaxUint64, X: v, L: []any{w, v}})
					}
				}
				for i, b := range raw {
					b := b
					c.Exec("bytes under modes", func() any { return fmt.Sprint(di, ei, " ", i) }, func() error {
						var want, got tagged23
						werr := d.Unmarshal(b, &want)
						err := s.Deserialize(b, &got)
						if (err == nil) != (werr == nil) || !reflect.DeepEqual(got, want) {
							return fmt.Errorf("%x read as %v, %v; the mode gives %v, %v", b, got, err, want, werr)
						}
						return nil
					})
					c.AddStates(1)
					c.AddTransitions(2)
				}
			}
		}
	})
}

// cut23: bytes that are cut short at any place are never taken for a record,
// and leave the serialiser as it was.
func cut23(c *Ctx) {
	c.Part("bytes cut short", func() {
		for _, d := range sers23() {
			if d.name == "protobuf" {
				continue // the codec is the caller's
			}
			s := d.mk(func() {})
			recs := []gen23{{1, "small", []byte{1}}, {math.MaxUint64, "", nil}, {1 << 40, "ü", bytes.Repeat([]byte{200}, 300)}, {0, string(bytes.Repeat([]byte("x"), 70)), []byte{}}}
			for ri, g := range recs {
				g := g
				b, err := s.Serialize(&g)
				if err != nil {
					panic(err)
				}
				b = append([]byte{}, b...)
				for n := 0; n < len(b); n++ {
					n := n
					c.Exec("cut", func() any { return fmt.Sprint(d.name, " record ", ri, " cut at ", n) }, func() error {
						var got gen23
						if err := s.Deserialize(append([]byte{}, b[:n]...), &got); err == nil {
							return fmt.Errorf("%d of %d bytes were read as %.60v", n, len(b), got)
						}
						return trip23(s, g, d.ptr2)
					})
					c.AddStates(1)
					c.AddTransitions(2)
				}
			}
			if !d.any {
				continue
			}
			full := rec23{ID: 1 << 60, I8: -8, I64: math.MinInt64, F32: 1.5, F64: math.MaxFloat64, S: "some text", Y: []byte{1, 2, 3}, B: true, L: []string{"a", ""}, M: map[string]int64{"k": -1}, In: sub23{1, "x"}, P: &sub23{2, "y"}}
			b, err := s.Serialize(&full)
			if err != nil {
				panic(err)
			}
			b = append([]byte{}, b...)
			for n := 0; n < len(b); n++ {
				n := n
				c.Exec("cut", func() any { return fmt.Sprint(d.name, " full record cut at ", n) }, func() error {
					var got rec23
					if err := s.Deserialize(append([]byte{}, b[:n]...), &got); err == nil {
						return fmt.Errorf("%d of %d bytes were read as %.200v", n, len(b), got)
					}
					return trip23(s, full, d.ptr2)
				})
				c.AddStates(1)
				c.AddTransitions(2)
			}
		}
	})
}
