package main

import (
	"bytes"
	"fmt"
	"math/big"

	"github.com/go-bond/bond"
	. "github.com/go-bond/bond/internal/vmc/kit"
)

func init() {
	Register(&Check{ID: "C09", Level: "model_checking", Run: runC09,
		Rule:        "state = a value of a field type or a field list; transition = a pair compared (encoded order against value order, equality of keys against equality of values) or an encode/decode round trip of the real encoder; expected bytes from an independent encoder",
		Assumptions: []string{"domains wider than 16 bits are covered at their boundaries, and all values next to them"}})
}

// full16 are the complete domains of the small types.
func full16() []Dom {
	i16 := Dom{Name: "int16 complete", N: 1 << 16,
		Add: func(b bond.KeyBuilder, i int) bond.KeyBuilder { return b.AddInt16Field(int16(i - 1<<15)) },
		Order: func(o bond.IndexOrder, i int, desc bool) bond.IndexOrder {
			return o.OrderInt16(int16(i-1<<15), bond.IndexOrderType(desc))
		}, Str: func(i int) string { return fmt.Sprint(i - 1<<15) }}
	u16 := Dom{Name: "uint16 complete", N: 1 << 16,
		Add: func(b bond.KeyBuilder, i int) bond.KeyBuilder { return b.AddUint16Field(uint16(i)) },
		Order: func(o bond.IndexOrder, i int, desc bool) bond.IndexOrder {
			return o.OrderUint16(uint16(i), bond.IndexOrderType(desc))
		}, Str: func(i int) string { return fmt.Sprint(i) }}
	u8 := Dom{Name: "byte complete", N: 256,
		Add: func(b bond.KeyBuilder, i int) bond.KeyBuilder { return b.AddByteField(byte(i)) },
		Order: func(o bond.IndexOrder, i int, desc bool) bond.IndexOrder {
			return o.OrderByte(byte(i), bond.IndexOrderType(desc))
		}, Str: func(i int) string { return fmt.Sprint(i) }}
	b8 := Dom{Name: "bigint16 complete", N: 2*65535 + 1,
		Add: func(b bond.KeyBuilder, i int) bond.KeyBuilder {
			return b.AddBigIntField(big.NewInt(int64(i-65535)), 16)
		},
		Order: func(o bond.IndexOrder, i int, desc bool) bond.IndexOrder {
			return o.OrderBigInt(big.NewInt(int64(i-65535)), 16, bond.IndexOrderType(desc))
		}, Str: func(i int) string { return fmt.Sprint(i - 65535) }}
	// every difference at a 32 and 64 bit boundary: all powers of two and their neighbours
	var p64 []int64
	for s := 62; s >= 0; s-- {
		for d := int64(1); d >= -1; d-- {
			p64 = append(p64, -(int64(1)<<s)-d)
		}
	}
	p64 = append(p64, 0)
	for s := 0; s <= 62; s++ {
		for d := int64(-1); d <= 1; d++ {
			p64 = append(p64, int64(1)<<s+d)
		}
	}
	uniq := p64[:0:0]
	for _, v := range p64 {
		if len(uniq) == 0 || v > uniq[len(uniq)-1] {
			uniq = append(uniq, v)
		}
	}
	uniq = append([]int64{-1<<63 + 1, -1<<63 + 2}, append(uniq, 1<<63-2, 1<<63-1)...)
	i64 := Dom{Name: "int64 powers of two", N: len(uniq),
		Add: func(b bond.KeyBuilder, i int) bond.KeyBuilder { return b.AddInt64Field(uniq[i]) },
		Order: func(o bond.IndexOrder, i int, desc bool) bond.IndexOrder {
			return o.OrderInt64(uniq[i], bond.IndexOrderType(desc))
		}, Str: func(i int) string { return fmt.Sprint(uniq[i]) }}
	b256 := Dom{Name: "bigint256 powers of two", N: 255 * 2}
	var bs []*big.Int
	for s := 0; s < 255; s++ {
		v := new(big.Int).Lsh(big.NewInt(1), uint(s))
		if s > 1 {
			bs = append(bs, new(big.Int).Sub(v, big.NewInt(1)))
		}
		if s != 1 || true {
			bs = append(bs, v)
		}
	}
	var sorted []*big.Int
	for i := len(bs) - 1; i >= 0; i-- {
		sorted = append(sorted, new(big.Int).Neg(bs[i]))
	}
	sorted = append(append(sorted, big.NewInt(0)), bs...)
	var us []*big.Int
	for _, v := range sorted {
		if len(us) == 0 || v.Cmp(us[len(us)-1]) > 0 {
			us = append(us, v)
		}
	}
	b256.N = len(us)
	b256.Add = func(b bond.KeyBuilder, i int) bond.KeyBuilder { return b.AddBigIntField(us[i], 256) }
	b256.Order = func(o bond.IndexOrder, i int, desc bool) bond.IndexOrder {
		return o.OrderBigInt(us[i], 256, bond.IndexOrderType(desc))
	}
	b256.Str = func(i int) string { return us[i].String() }
	return []Dom{i16, u16, u8, b8, i64, b256}
}

// minSigned tells that an element is the smallest signed value, whose
// descending encoding is a listed finding.
func minSigned(d Dom, i int) bool {
	return i == 0 && (d.Name == "int64" || d.Name == "int32" || d.Name == "int16" || d.Name == "int16 complete")
}

func runC09(c *Ctx) {
	newB := func() bond.KeyBuilder { return bond.NewKeyBuilder(nil) }
	asc := func(d Dom, i int) []byte { return d.Add(newB(), i).Bytes() }
	ord := func(d Dom, i int, desc bool) []byte {
		return d.Order(bond.IndexOrder{KeyBuilder: newB()}, i, desc).Bytes()
	}
	doms := Doms()
	var all []Dom
	for _, n := range []string{"uint64", "uint32", "uint16", "byte", "int64", "int32", "int16", "bigint64", "bigint8", "bigint256", "string", "bytes"} {
		all = append(all, doms[n])
	}
	all = append(all, full16()...)

	for _, d := range all {
		d := d
		c.Part("order of "+d.Name, func() {
			c.AddStates(d.N)
			enc := make([][]byte, d.N)
			des := make([][]byte, d.N)
			for i := 0; i < d.N; i++ {
				enc[i] = asc(d, i)
				c.Outcome(string(enc[i]))
				if d.Raw != nil {
					if want := append([]byte{1}, d.Raw(i, false)...); !bytes.Equal(enc[i], want) {
						c.Violate("bytes of "+d.Name, fmt.Sprintf("%s encodes as %x, expected %x", d.Str(i), enc[i], want), nil)
					}
				}
				if d.Order != nil {
					if o := ord(d, i, false); !bytes.Equal(o, enc[i]) {
						c.Violate("ascending "+d.Name, fmt.Sprintf("%s as ascending order field is %x, as key field %x", d.Str(i), o, enc[i]), nil)
					}
					des[i] = ord(d, i, true)
					if d.Raw != nil && !minSigned(d, i) {
						if want := append([]byte{1}, d.Raw(i, true)...); !bytes.Equal(des[i], want) {
							c.Violate("bytes of descending "+d.Name, fmt.Sprintf("%s encodes as %x, expected %x", d.Str(i), des[i], want), nil)
						}
					}
				}
			}
			pair := func(i, j int) { // i < j
				c.AddTransitions(1)
				if bytes.Compare(enc[i], enc[j]) >= 0 {
					c.Violate("order of "+d.Name, fmt.Sprintf("%s < %s but keys are %x and %x", d.Str(i), d.Str(j), enc[i], enc[j]), nil)
				}
				if d.Order != nil && !d.Var {
					if bytes.Compare(des[i], des[j]) <= 0 {
						sig := "descending order of " + d.Name
						if minSigned(d, i) {
							sig = "descending order of the smallest " + d.Name[:5]
						}
						c.Violate(sig, fmt.Sprintf("%s < %s but descending keys are %x and %x", d.Str(i), d.Str(j), des[i], des[j]), nil)
					}
				}
				if d.Order != nil && d.Var {
					if bytes.Equal(des[i], des[j]) {
						c.Violate("descending keys of "+d.Name, fmt.Sprintf("%s and %s share key %x", d.Str(i), d.Str(j), des[i]), nil)
					}
					// complementing reverses the order of values that are not prefixes of each other
					if !bytes.HasPrefix(des[j], des[i]) && bytes.Compare(des[i], des[j]) <= 0 {
						c.Violate("descending order of "+d.Name, fmt.Sprintf("%s < %s but descending keys are %x and %x", d.Str(i), d.Str(j), des[i], des[j]), nil)
					}
					if bytes.HasPrefix(des[j], des[i]) && bytes.Compare(des[i], des[j]) <= 0 {
						c.Violate("descending prefix "+d.Name, fmt.Sprintf("%s < %s but descending keys are %x and %x", d.Str(i), d.Str(j), des[i], des[j]), nil)
					}
				}
			}
			for i := 0; i+1 < d.N && !c.Stop(); i++ {
				if d.N > 1000 {
					pair(i, i+1) // the order is total, neighbours decide it
					if i > 0 {
						pair(0, i)
					}
					continue
				}
				for j := i + 1; j < d.N; j++ {
					pair(i, j)
				}
			}
			c.Sample(map[string]any{"type": d.Name, "first": fmt.Sprintf("%s -> %x", d.Str(0), enc[0]), "last": fmt.Sprintf("%s -> %x", d.Str(d.N-1), enc[d.N-1])})
		})
	}

	if c.Thorough() {
		c.Part("complete 32 bit domains", func() {
			const chunk = 1 << 20
			c.Parallel(1<<32/chunk, func(_, i int) {
				var bufs [8][16]byte
				var prev [4][]byte
				for x := uint64(i) * chunk; x < uint64(i+1)*chunk+1 && x < 1<<32; x++ {
					h := int(x&1) * 4
					v, u := int32(int64(x)-1<<31), uint32(x)
					cur := [4][]byte{
						bond.NewKeyBuilder(bufs[h][:0]).AddInt32Field(v).Bytes(),
						bond.NewKeyBuilder(bufs[h+1][:0]).AddUint32Field(u).Bytes(),
						bond.IndexOrder{KeyBuilder: bond.NewKeyBuilder(bufs[h+2][:0])}.OrderInt32(v, bond.IndexOrderTypeDESC).Bytes(),
						bond.IndexOrder{KeyBuilder: bond.NewKeyBuilder(bufs[h+3][:0])}.OrderUint32(u, bond.IndexOrderTypeDESC).Bytes(),
					}
					if prev[0] != nil {
						for k := 0; k < 4; k++ {
							if k == 2 && x == 1 {
								continue // listed finding
							}
							want := -1
							if k >= 2 {
								want = 1
							}
							if bytes.Compare(prev[k], cur[k]) != want {
								c.Violate("complete 32 bit domain", fmt.Sprintf("encoding %d of %d and the value before: %x %x", k, x, prev[k], cur[k]), nil)
								return
							}
						}
					}
					prev = cur
				}
				c.AddStates(chunk)
				c.AddTransitions(4 * chunk)
			})
		})
	}

	// field lists: fixed-width fields first, the last one of any type
	var fixed, last []Dom
	for _, n := range []string{"uint64", "uint32", "uint16", "byte", "int64", "int32", "int16", "bigint64"} {
		d := doms[n]
		m := d.N / 2
		if n[0] == 'i' || n[0] == 'b' && n != "byte" {
			for m = 0; d.Str(m) != "0"; m++ {
			}
			fixed = append(fixed, d.Sub(1, m-1, m, m+1, d.N-1))
		} else {
			fixed = append(fixed, d.Sub(0, 1, m, d.N-1))
		}
	}
	last = append(last, fixed...)
	last = append(last, doms["string"].Sub(0, 1, 4, 6, 7, 12, 15), doms["bytes"].Sub(0, 1, 4, 6, 7, 12, 15))
	// 3 bits of choice per field: ascending or descending through the order builder
	type fl struct {
		ds    []Dom
		desc  []bool
		order bool
	}
	var fls []fl
	for _, a := range fixed {
		for _, b := range last {
			fls = append(fls, fl{[]Dom{a, b}, []bool{false, false}, false})
			if b.Order != nil && !b.Var {
				for m := 0; m < 4; m++ {
					fls = append(fls, fl{[]Dom{a, b}, []bool{m&1 > 0, m&2 > 0}, true})
				}
			}
		}
	}
	for i, a := range fixed {
		for j, b := range fixed {
			for k, l := range last {
				if !c.Thorough() && (i+2*j+3*k)%4 != 0 {
					continue
				}
				fls = append(fls, fl{[]Dom{a, b, l}, []bool{false, false, false}, false})
				if l.Order != nil && !l.Var {
					m := (i + j + k) % 8
					fls = append(fls, fl{[]Dom{a, b, l}, []bool{m&1 > 0, m&2 > 0, m&4 > 0}, true})
				}
			}
		}
	}
	c.Part("field lists", func() {
		c.Parallel(len(fls), func(_, fi int) {
			f := fls[fi]
			n := 1
			for _, d := range f.ds {
				n *= d.N
			}
			c.AddStates(n)
			get := func(x int) []int {
				out := make([]int, len(f.ds))
				for i := len(f.ds) - 1; i >= 0; i-- {
					out[i] = x % f.ds[i].N
					x /= f.ds[i].N
				}
				return out
			}
			enc := make([][]byte, n)
			name := ""
			for i, d := range f.ds {
				name += fmt.Sprintf("%s/%v ", d.Name, f.desc[i])
			}
			for x := 0; x < n; x++ {
				v := get(x)
				var want []byte
				for i, d := range f.ds {
					want = append(append(want, byte(i+1)), d.Raw(v[i], f.desc[i])...)
				}
				if f.order {
					o := bond.IndexOrder{KeyBuilder: newB()}
					for i, d := range f.ds {
						o = d.Order(o, v[i], f.desc[i])
					}
					enc[x] = o.Bytes()
				} else {
					b := newB()
					for i, d := range f.ds {
						b = d.Add(b, v[i])
					}
					enc[x] = b.Bytes()
				}
				if !bytes.Equal(enc[x], want) {
					c.Violate("field list bytes", fmt.Sprintf("%s: values %v encode as %x, expected %x", name, v, enc[x], want), nil)
					return
				}
			}
			for x := 0; x < n && !c.Stop(); x++ {
				for y := x + 1; y < n; y++ {
					vx, vy := get(x), get(y)
					want := -1
					for i := range vx {
						if vx[i] != vy[i] {
							if (vx[i] < vy[i]) == f.desc[i] {
								want = 1
							}
							break
						}
					}
					if got := bytes.Compare(enc[x], enc[y]); got != want {
						c.Violate("field list order", fmt.Sprintf("%s: values %v and %v compare %d, expected %d", name, vx, vy, got, want), nil)
						return
					}
				}
			}
			c.AddTransitions(n * (n - 1) / 2)
		})
	})

	c.Part("two fields of variable length", func() {
		type kv struct{ a, b string }
		vals := []string{"", "a", "b", "a\x02", "\x02a", "a\x02b", "b\x02"}
		seen := map[string]kv{}
		for _, a := range vals {
			for _, b := range vals {
				k := string(newB().AddStringField(a).AddStringField(b).Bytes())
				c.AddTransitions(1)
				if o, dup := seen[k]; dup {
					c.Violate("two variable-length fields in one key", fmt.Sprintf("(%q,%q) and (%q,%q) share the key %x", o.a, o.b, a, b, k), nil)
				}
				seen[k] = kv{a, b}
			}
		}
	})

	c.Part("builder buffers", func() {
		for _, d := range all {
			n := d.N
			if n > 64 {
				n = 64
			}
			for i := 0; i < n; i++ {
				want := asc(d, i)
				for _, capacity := range []int{0, 1, 2, 7, 9, 16, 64, 2048} {
					buf := bytes.Repeat([]byte{0xEE}, capacity)
					for _, l := range []int{0, capacity / 2} {
						got := d.Add(bond.NewKeyBuilder(buf[:l]), i).Bytes()
						c.AddTransitions(1)
						if !bytes.Equal(got[:l], bytes.Repeat([]byte{0xEE}, l)) || !bytes.Equal(got[l:], want) {
							c.Violate("builder buffer "+d.Name, fmt.Sprintf("%s into a buffer of length %d and capacity %d: %x, expected %x", d.Str(i), l, capacity, got, want), nil)
						}
						for x := range buf {
							buf[x] = 0xEE
						}
					}
				}
			}
		}
	})

	c.Part("values are not modified", func() {
		for _, v := range []int64{-300, -1, 0, 1, 300} {
			for _, desc := range []bool{false, true} {
				x := big.NewInt(v)
				bond.IndexOrder{KeyBuilder: newB()}.OrderBigInt(x, 64, bond.IndexOrderType(desc))
				newB().AddBigIntField(x, 64)
				c.AddTransitions(2)
				if x.Int64() != v {
					c.Violate("big integer modified", fmt.Sprintf("%d became %s", v, x), nil)
				}
			}
		}
		for _, s := range []string{"", "\x00", "ab", "\xff\x00\xff"} {
			for _, desc := range []bool{false, true} {
				x := append(make([]byte, 0, 32), s...)
				bond.IndexOrder{KeyBuilder: newB()}.OrderBytes(x, bond.IndexOrderType(desc))
				newB().AddBytesField(x)
				c.AddTransitions(2)
				if string(x) != s || string(x[:cap(x)][len(x):]) != string(make([]byte, 32-len(x))) {
					c.Violate("bytes modified", fmt.Sprintf("%q became %q", s, x), nil)
				}
			}
		}
	})

	c.Part("keys of parts", func() {
		parts := [][]byte{nil, {0}, {0xff}, {1, 2, 3}, {0, 0, 0, 0}, {0xff, 0xff, 0xff, 0xff}, bytes.Repeat([]byte{0x7f}, 255), bytes.Repeat([]byte{0xff}, 256), bytes.Repeat([]byte{0}, 70000)}
		ids := []byte{0, 1, 2, 127, 128, 254, 255}
		cmp := bond.DefaultKeyComparer()
		type enc struct {
			key string
			k   bond.Key
		}
		var keys []enc
		for _, t := range ids {
			for _, ix := range ids {
				for pi, idx := range parts {
					for _, o := range parts {
						for _, pk := range parts[1:] {
							if c.Stop() {
								return
							}
							if (t != 1 || ix != 2) && (len(o) > 300 || len(pk) > 300 || len(idx) > 300 || pi%2 == 1) {
								continue
							}
							k := bond.Key{TableID: bond.TableID(t), IndexID: bond.IndexID(ix), Index: idx, IndexOrder: o, PrimaryKey: pk}
							c.AddStates(1)
							c.AddTransitions(6)
							want := RawKey(t, ix, idx, o, pk)
							got := bond.KeyEncode(k)
							raw := bond.KeyEncodeRaw(k.TableID, k.IndexID, func(b []byte) []byte { return append(b, idx...) },
								func(b []byte) []byte { return append(b, o...) }, func(b []byte) []byte { return append(b, pk...) })
							buf := bytes.Repeat([]byte{0xEE}, 64)
							got2 := bond.KeyEncode(k, buf[:0])
							raw2 := bond.KeyEncodeRaw(k.TableID, k.IndexID, func(b []byte) []byte { return append(b, idx...) },
								func(b []byte) []byte { return append(b, o...) }, func(b []byte) []byte { return append(b, pk...) }, bytes.Repeat([]byte{0xEE}, 12)[:0])
							if !bytes.Equal(got, want) || !bytes.Equal(raw, want) || !bytes.Equal(got2, want) || !bytes.Equal(raw2, want) {
								c.Violate("key layout", fmt.Sprintf("%+v encodes as %x and %x, expected %x", k, got, raw, want), nil)
								return
							}
							d := bond.KeyDecode(want)
							same := d.TableID == k.TableID && d.IndexID == k.IndexID && bytes.Equal(d.Index, idx) && bytes.Equal(d.IndexOrder, o) && bytes.Equal(d.PrimaryKey, pk)
							if !same {
								c.Violate("key decoding", fmt.Sprintf("%x decodes to %+v, was %+v", want, d, k), nil)
								return
							}
							kb := bond.KeyBytes(want)
							if kb.TableID() != k.TableID || kb.IndexID() != k.IndexID || !bytes.Equal(kb.Index(), idx) || kb.IsDataKey() != (ix == 0) || kb.IsIndexKey() == kb.IsDataKey() {
								c.Violate("key accessors", fmt.Sprintf("%x: %d %d %x", want, kb.TableID(), kb.IndexID(), kb.Index()), nil)
								return
							}
							dk := RawKey(t, 0, nil, nil, pk)
							if !bytes.Equal(kb.ToDataKeyBytes(), dk) || !bytes.Equal(kb.ToDataKeyBytes(buf[:0]), dk) || !bytes.Equal(bond.KeyEncode(k.ToDataKey()), dk) {
								c.Violate("data key", fmt.Sprintf("data key of %x is %x, expected %x", want, kb.ToDataKeyBytes(), dk), nil)
								return
							}
							if k.IsKeyPrefix() || !k.ToKeyPrefix().IsKeyPrefix() || !k.ToDataKey().IsDataKey() || k.IsDataKey() != (ix == 0 && len(idx) == 0) || k.IsIndexKey() != (ix != 0 && len(idx) != 0) {
								c.Violate("kind of key", fmt.Sprintf("%x", want), nil)
								return
							}
							pre := bond.KeyEncode(k.ToKeyPrefix())
							if n := cmp.Split(want); n != 6+len(idx) || !bytes.Equal(want[:n], pre) {
								c.Violate("key prefix", fmt.Sprintf("prefix of %x is %x, split at %d", want, pre, n), nil)
								return
							}
							if !bytes.Equal(want, RawKey(t, ix, idx, o, pk)) {
								c.Violate("key modified", fmt.Sprintf("%x", want), nil)
								return
							}
							if len(want) < 40 && len(keys) < 2500 {
								keys = append(keys, enc{string(want), k})
							}
						}
					}
				}
			}
		}
		seen := map[string]bond.Key{}
		for _, k := range keys {
			if o, dup := seen[k.key]; dup {
				c.Violate("key collision", fmt.Sprintf("%+v and %+v", o, k.k), nil)
			}
			seen[k.key] = k.k
			u := bond.NewUserKey("x" + k.key)
			if want := RawKey(0, 255, nil, nil, []byte("x"+k.key)); !bytes.Equal(u, want) {
				c.Violate("user key", fmt.Sprintf("%x, expected %x", []byte(u), want), nil)
			}
		}
		for _, a := range keys {
			for _, b := range keys {
				want := bytes.Compare([]byte(a.key), []byte(b.key))
				if got := cmp.Compare([]byte(a.key), []byte(b.key)); got != want {
					c.Violate("comparer", fmt.Sprintf("%x %x: %d", a.key, b.key, got), nil)
				}
			}
			c.AddTransitions(len(keys))
		}
	})
}
