package kit

import (
	"encoding/binary"
	"fmt"
	"math/big"
	"strings"

	"github.com/go-bond/bond"
	"github.com/go-bond/bond/serializers"
)

// Dom is an ordered domain of field values: element i < element j iff i < j.
type Dom struct {
	Name string
	N    int
	// Add appends value i to a key under construction (the code under test).
	Add func(b bond.KeyBuilder, i int) bond.KeyBuilder
	// Order appends it as an order field (nil if there is no such method).
	Order func(o bond.IndexOrder, i int, desc bool) bond.IndexOrder
	// Raw is the independent encoding of the payload (without field number);
	// neg asks for the encoding of the reversed value.
	Raw func(i int, neg bool) []byte
	// Var is set for values of variable length.
	Var bool
	// Str describes value i.
	Str func(i int) string
}

func be(v uint64, n int) []byte {
	b := make([]byte, 8)
	binary.BigEndian.PutUint64(b, v)
	return b[8-n:]
}

func uDom[V uint64 | uint32 | uint16 | uint8](name string, size int, vals []V, add func(b bond.KeyBuilder, v V) bond.KeyBuilder,
	ord func(o bond.IndexOrder, v V, t bond.IndexOrderType) bond.IndexOrder) Dom {
	return Dom{Name: name, N: len(vals),
		Add: func(b bond.KeyBuilder, i int) bond.KeyBuilder { return add(b, vals[i]) },
		Order: func(o bond.IndexOrder, i int, desc bool) bond.IndexOrder {
			return ord(o, vals[i], bond.IndexOrderType(desc))
		},
		Raw: func(i int, neg bool) []byte {
			v := uint64(vals[i])
			if neg {
				v = ^v
			}
			return be(v, size)
		},
		Str: func(i int) string { return fmt.Sprint(vals[i]) }}
}

func iDom[V int64 | int32 | int16](name string, size int, vals []V, add func(b bond.KeyBuilder, v V) bond.KeyBuilder,
	ord func(o bond.IndexOrder, v V, t bond.IndexOrderType) bond.IndexOrder) Dom {
	return Dom{Name: name, N: len(vals),
		Add: func(b bond.KeyBuilder, i int) bond.KeyBuilder { return add(b, vals[i]) },
		Order: func(o bond.IndexOrder, i int, desc bool) bond.IndexOrder {
			return ord(o, vals[i], bond.IndexOrderType(desc))
		},
		Raw: func(i int, neg bool) []byte {
			v := new(big.Int).SetInt64(int64(vals[i]))
			if neg {
				v.Neg(v)
			}
			switch v.Sign() {
			case 1:
				return append([]byte{2}, be(v.Uint64(), size)...)
			case 0:
				return append([]byte{1}, be(0, size)...)
			}
			// |v| in two's complement minus one: larger values sort later
			return append([]byte{0}, be(uint64(v.Int64())-1, size)...)
		},
		Str: func(i int) string { return fmt.Sprint(vals[i]) }}
}

func bigDom(bits int, extra ...string) Dom {
	max := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(bits)), big.NewInt(1))
	var vals []*big.Int
	vals = append(vals, new(big.Int).Neg(max), new(big.Int).Add(new(big.Int).Neg(max), big.NewInt(1)))
	for _, v := range []int64{-65536, -256, -255, -2, -1, 0, 1, 2, 254, 255, 256, 65536} {
		if x := big.NewInt(v); x.CmpAbs(vals[1]) < 0 {
			vals = append(vals, x)
		}
	}
	vals = append(vals, new(big.Int).Sub(max, big.NewInt(1)), max)
	return Dom{Name: fmt.Sprintf("bigint%d", bits), N: len(vals),
		Add: func(b bond.KeyBuilder, i int) bond.KeyBuilder {
			return b.AddBigIntField(new(big.Int).Set(vals[i]), bits)
		},
		Order: func(o bond.IndexOrder, i int, desc bool) bond.IndexOrder {
			return o.OrderBigInt(new(big.Int).Set(vals[i]), bits, bond.IndexOrderType(desc))
		},
		Raw: func(i int, neg bool) []byte {
			v := new(big.Int).Set(vals[i])
			if neg {
				v.Neg(v)
			}
			out := make([]byte, bits/8+1)
			out[0] = byte(v.Sign() + 1)
			new(big.Int).Abs(v).FillBytes(out[1:])
			if v.Sign() < 0 {
				for i := 1; i < len(out); i++ {
					out[i] = ^out[i]
				}
			}
			return out
		},
		Str: func(i int) string { return vals[i].String() }}
}

var strDomain = []string{"", "\x00", "\x00\x00", "\x00\x01", "\x01", "\x01\xff", "a", "a\x00", "aa", "ab", "b", "\xfe", "\xff", "\xff\x00", "\xff\xff", "\xff\xff\xff"}

func varDom(name string, vals []string, add func(b bond.KeyBuilder, v string) bond.KeyBuilder,
	ord func(o bond.IndexOrder, v string, t bond.IndexOrderType) bond.IndexOrder) Dom {
	d := Dom{Name: name, N: len(vals), Var: true,
		Add: func(b bond.KeyBuilder, i int) bond.KeyBuilder { return add(b, vals[i]) },
		Raw: func(i int, neg bool) []byte {
			b := []byte(vals[i])
			if neg {
				for i := range b {
					b[i] = ^b[i]
				}
			}
			return b
		},
		Str: func(i int) string {
			if n := len(vals[i]); n > 100 {
				return fmt.Sprintf("%q.. (%d)", vals[i][:1], n)
			}
			return fmt.Sprintf("%q", vals[i])
		}}
	if ord != nil {
		d.Order = func(o bond.IndexOrder, i int, desc bool) bond.IndexOrder {
			return ord(o, vals[i], bond.IndexOrderType(desc))
		}
	}
	return d
}

// Doms lists the domains: every kind of field the key builder offers. The
// smallest signed value is left out of the ones used in descending order (see
// the known findings).
func Doms() map[string]Dom {
	l := []Dom{
		uDom("uint64", 8, []uint64{0, 1, 2, 255, 256, 1<<32 - 1, 1 << 32, 1<<63 - 1, 1 << 63, 1<<64 - 256, 1<<64 - 2, 1<<64 - 1},
			bond.KeyBuilder.AddUint64Field, bond.IndexOrder.OrderUint64),
		uDom("uint32", 4, []uint32{0, 1, 2, 255, 256, 65535, 65536, 1<<31 - 1, 1 << 31, 1<<32 - 256, 1<<32 - 2, 1<<32 - 1},
			bond.KeyBuilder.AddUint32Field, bond.IndexOrder.OrderUint32),
		uDom("uint16", 2, []uint16{0, 1, 2, 255, 256, 1<<15 - 1, 1 << 15, 0xFEFF, 0xFF00, 0xFFFE, 0xFFFF},
			bond.KeyBuilder.AddUint16Field, bond.IndexOrder.OrderUint16),
		uDom("byte", 1, []byte{0, 1, 2, 127, 128, 253, 254, 255}, bond.KeyBuilder.AddByteField, bond.IndexOrder.OrderByte),
		iDom("int64", 8, []int64{-1 << 63, -1<<63 + 1, -1 << 32, -257, -256, -255, -2, -1, 0, 1, 2, 255, 256, 1 << 32, 1<<63 - 2, 1<<63 - 1},
			bond.KeyBuilder.AddInt64Field, bond.IndexOrder.OrderInt64),
		iDom("int32", 4, []int32{-1 << 31, -1<<31 + 1, -65536, -256, -2, -1, 0, 1, 2, 255, 256, 1<<31 - 2, 1<<31 - 1},
			bond.KeyBuilder.AddInt32Field, bond.IndexOrder.OrderInt32),
		iDom("int16", 2, []int16{-1 << 15, -1<<15 + 1, -256, -255, -2, -1, 0, 1, 2, 255, 256, 1<<15 - 2, 1<<15 - 1},
			bond.KeyBuilder.AddInt16Field, bond.IndexOrder.OrderInt16),
		bigDom(64), bigDom(8), bigDom(256),
		varDom("string", strDomain, bond.KeyBuilder.AddStringField, nil),
		varDom("bytes", strDomain, func(b bond.KeyBuilder, v string) bond.KeyBuilder { return b.AddBytesField([]byte(v)) },
			func(o bond.IndexOrder, v string, t bond.IndexOrderType) bond.IndexOrder {
				return o.OrderBytes([]byte(v), t)
			}),
	}
	// lengths around those of one and two bytes
	var long []string
	for i, n := range []int{1, 65536, 255, 65535, 256, 131077} {
		long = append(long, strings.Repeat(string(rune('a'+i)), n))
	}
	l = append(l, varDom("long string", long, bond.KeyBuilder.AddStringField, nil),
		varDom("long bytes", long, func(b bond.KeyBuilder, v string) bond.KeyBuilder { return b.AddBytesField([]byte(v)) },
			func(o bond.IndexOrder, v string, t bond.IndexOrderType) bond.IndexOrder {
				return o.OrderBytes([]byte(v), t)
			}))
	m := map[string]Dom{}
	for _, d := range l {
		m[d.Name] = d
	}
	return m
}

// Sub keeps the elements at the given positions.
func (d Dom) Sub(idx ...int) Dom {
	n := d
	n.N = len(idx)
	n.Add = func(b bond.KeyBuilder, i int) bond.KeyBuilder { return d.Add(b, idx[i]) }
	n.Raw = func(i int, neg bool) []byte { return d.Raw(idx[i], neg) }
	n.Str = func(i int) string { return d.Str(idx[i]) }
	if d.Order != nil {
		n.Order = func(o bond.IndexOrder, i int, desc bool) bond.IndexOrder { return d.Order(o, idx[i], desc) }
	}
	return n
}

// RowX is a record whose fields select values of domains.
type RowX struct {
	K, A, B int
	P       bool
	S       string
}

// ShapeX builds a table keyed by pk with one index keyed by a (and part of the
// value is P, so partial indexes are possible) and ordered by ord.
func ShapeX(tableID, indexID byte, pk, a Dom, ord *Dom, desc bool) *Shape[RowX] {
	s := &Shape[RowX]{Name: "x", TableID: bond.TableID(tableID), Keys: pk.N, Serializer: &serializers.JsonSerializer{}}
	fld := func(d Dom, i int, neg bool) []byte {
		if d.Name == "none" {
			return nil
		}
		return append([]byte{1}, d.Raw(i, neg)...)
	}
	s.PK = func(k int) []byte { return fld(pk, k, false) }
	s.To = func(r R) RowX { return RowX(r) }
	s.From = func(t RowX) R { return R(t) }
	s.KeyFunc = func(b bond.KeyBuilder, t RowX) []byte { return pk.Add(b, t.K).Bytes() }
	spec := IdxSpec{ID: indexID, Name: "x", Key: func(r R) []byte { return fld(a, r.A, false) }}
	var of bond.IndexOrderFunction[RowX]
	if ord != nil {
		of = func(o bond.IndexOrder, t RowX) bond.IndexOrder { return ord.Order(o, t.B, desc) }
		spec.Order = func(r R) []byte { return fld(*ord, r.B, desc) }
	}
	s.Specs = []IdxSpec{spec}
	s.Indexes = func() []*bond.Index[RowX] {
		return []*bond.Index[RowX]{bond.NewIndex(bond.IndexOptions[RowX]{IndexID: bond.IndexID(indexID), IndexName: "x",
			IndexKeyFunc:   func(b bond.KeyBuilder, t RowX) []byte { return a.Add(b, t.A).Bytes() },
			IndexOrderFunc: of})}
	}
	return s
}

// Two is the domain of a key of two fields.
func Two(d, e Dom) Dom {
	return Dom{Name: d.Name + "+" + e.Name, N: d.N * e.N, Var: d.Var || e.Var,
		Add: func(b bond.KeyBuilder, i int) bond.KeyBuilder { return e.Add(d.Add(b, i/e.N), i%e.N) },
		Order: func(o bond.IndexOrder, i int, desc bool) bond.IndexOrder {
			return e.Order(d.Order(o, i/e.N, desc), i%e.N, desc)
		},
		Raw: func(i int, neg bool) []byte {
			return append(append(append([]byte{}, d.Raw(i/e.N, neg)...), 2), e.Raw(i%e.N, neg)...)
		},
		Str: func(i int) string { return d.Str(i/e.N) + "," + e.Str(i%e.N) }}
}

// None is the key without fields.
func None() Dom {
	return Dom{Name: "none", N: 1, Add: func(b bond.KeyBuilder, _ int) bond.KeyBuilder { return b },
		Raw: func(int, bool) []byte { return nil }, Str: func(int) string { return "-" }}
}
