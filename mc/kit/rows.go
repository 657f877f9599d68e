package kit

import (
	"fmt"
	"sort"

	"github.com/go-bond/bond"
	"github.com/go-bond/bond/serializers"
)

// R is a logical row: K selects the primary key from the shape's key list.
type R struct {
	K int
	A int
	B int
	P bool
	S string
}

func (r R) String() string {
	p := "-"
	if r.P {
		p = "P"
	}
	return fmt.Sprintf("{k%d a%d b%d %s %q}", r.K, r.A, r.B, p, r.S)
}

// Model is the reference: a map by primary key.
type Model map[int]R

func (m Model) Clone() Model {
	n := make(Model, len(m))
	for k, v := range m {
		n[k] = v
	}
	return n
}

func (m Model) Rows() []R {
	out := make([]R, 0, len(m))
	for _, r := range m {
		out = append(out, r)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].K < out[j].K })
	return out
}

func (m Model) Canon() string { return fmt.Sprint(m.Rows()) }

// IdxSpec describes one secondary index independently of bond.
type IdxSpec struct {
	ID    byte
	Name  string
	In    func(r R) bool
	Key   func(r R) []byte
	Order func(r R) []byte
}

// Shape binds logical rows to a concrete record type.
type Shape[T any] struct {
	Name       string
	TableID    bond.TableID
	Keys       int // number of primary keys, in bytewise order
	PK         func(k int) []byte
	To         func(R) T
	From       func(T) R
	KeyFunc    bond.TablePrimaryKeyFunc[T]
	Indexes    func() []*bond.Index[T]
	Specs      []IdxSpec
	Serializer bond.Serializer[any]
	Prefetch   int
	Filter     bond.Filter // if set
	// At, if set, is called before and after every accessor of a record.
	At func()

	enc map[R]string
}

func (s *Shape[T]) NewTable(db bond.DB) (bond.Table[T], []*bond.Index[T]) {
	keyFunc := s.KeyFunc
	if s.At != nil {
		keyFunc = func(b bond.KeyBuilder, t T) []byte {
			s.At()
			defer s.At()
			return s.KeyFunc(b, t)
		}
	}
	t := bond.NewTable(bond.TableOptions[T]{
		DB: db, TableID: s.TableID, TableName: s.Name, TablePrimaryKeyFunc: keyFunc,
		Serializer: s.Serializer, ScanPrefetchSize: s.Prefetch, Filter: s.Filter,
	})
	var idx []*bond.Index[T]
	if s.Indexes != nil {
		idx = s.Indexes()
		if s.At != nil {
			for _, ix := range idx {
				k, o, f := ix.IndexKeyFunction, ix.IndexOrderFunction, ix.IndexFilterFunction
				ix.IndexKeyFunction = func(b bond.KeyBuilder, t T) []byte {
					s.At()
					defer s.At()
					return k(b, t)
				}
				if o != nil {
					ix.IndexOrderFunction = func(x bond.IndexOrder, t T) bond.IndexOrder {
						s.At()
						defer s.At()
						return o(x, t)
					}
				}
				if f != nil {
					ix.IndexFilterFunction = func(t T) bool { s.At(); return f(t) }
				}
			}
		}
		if err := t.AddIndex(idx); err != nil {
			panic(err)
		}
	}
	return t, idx
}

func (s *Shape[T]) DataKey(k int) string {
	return string(RawKey(byte(s.TableID), 0, nil, nil, s.PK(k)))
}

func (s *Shape[T]) Encode(r R) string {
	t := s.To(r)
	b, err := s.Serializer.Serialize(&t)
	if err != nil {
		panic(err)
	}
	return string(b)
}

// Entries returns all raw entries the row must have.
func (s *Shape[T]) Entries(st State, r R, value string) {
	st[s.DataKey(r.K)] = value
	for _, ix := range s.Specs {
		if ix.In == nil || ix.In(r) {
			st[s.IdxKey(ix, r)] = ""
		}
	}
}

func (s *Shape[T]) IdxKey(ix IdxSpec, r R) string {
	var o []byte
	if ix.Order != nil {
		o = ix.Order(r)
	}
	return string(RawKey(byte(s.TableID), ix.ID, ix.Key(r), o, s.PK(r.K)))
}

// Raw is the raw content the model must have.
func (s *Shape[T]) Raw(m Model) State {
	st := make(State, len(m)*4)
	for _, r := range m {
		s.Entries(st, r, s.Encode(r))
	}
	return st
}

// Compare checks raw database content against the model; record values are
// compared after decoding.
func (s *Shape[T]) Compare(m Model, got State) error {
	want := s.Raw(m)
	if want.Equal(got) {
		return nil
	}
	// values may be encoded differently: decode both
	norm := func(st State) State {
		n := State{}
		for k, v := range st {
			if len(k) > 1 && k[1] == 0 {
				var t T
				if err := s.Serializer.Deserialize([]byte(v), &t); err != nil {
					n[k] = "undecodable: " + v
				} else {
					n[k] = s.From(t).String()
				}
			} else {
				n[k] = v
			}
		}
		return n
	}
	w, g := norm(want), norm(got)
	if w.Equal(g) {
		return nil
	}
	return fmt.Errorf("database content differs from reference %s: %s", m.Canon(), Diff(w, g))
}

func (s *Shape[T]) Ts(rs []R) []T {
	out := make([]T, len(rs))
	for i, r := range rs {
		out[i] = s.To(r)
	}
	return out
}

func (s *Shape[T]) Rs(ts []T) []R {
	out := make([]R, len(ts))
	for i, t := range ts {
		out[i] = s.From(t)
	}
	return out
}

// IndexRows lists the rows of one index in ascending entry order.
func (s *Shape[T]) IndexRows(m Model, ix IdxSpec) []R {
	type e struct {
		k string
		r R
	}
	var es []e
	for _, r := range m {
		if ix.In == nil || ix.In(r) {
			es = append(es, e{s.IdxKey(ix, r), r})
		}
	}
	sort.Slice(es, func(i, j int) bool { return es[i].k < es[j].k })
	out := make([]R, len(es))
	for i := range es {
		out[i] = es[i].r
	}
	return out
}

// ---- concrete record types ----

type RowV struct {
	ID uint64 `json:"id"`
	A  uint32 `json:"a"`
	B  uint32 `json:"b"`
	P  bool   `json:"p"`
	S  string `json:"s"`
}

type RowS struct {
	ID string
	A  int32
	B  int64
	P  bool
	S  string
	M  map[string]string
}

func u64pk(ids []uint64) func(k int) []byte {
	return func(k int) []byte { return new(Fields).U64(ids[k]).B }
}

func stdSpecs(a func(r R) *Fields, bAsc, bDesc func(r R) []byte) []IdxSpec {
	return []IdxSpec{
		{ID: 1, Name: "a", Key: func(r R) []byte { return a(r).B }},
		{ID: 2, Name: "a_b_desc", Key: func(r R) []byte { return a(r).B }, Order: bDesc},
		{ID: 3, Name: "p_a", Key: func(r R) []byte { return a(r).B }, In: func(r R) bool { return r.P }},
		{ID: 4, Name: "by_b", Key: func(r R) []byte { return nil }, Order: bAsc},
	}
}

var u64ids = []uint64{0, 1, 255, 256, 1 << 40, 1<<64 - 1}

// ShapeV: struct records, integer key, JSON.
func ShapeV() *Shape[RowV] {
	s := &Shape[RowV]{Name: "valjson", TableID: 1, Keys: len(u64ids), PK: u64pk(u64ids), Serializer: &serializers.JsonSerializer{}}
	s.To = func(r R) RowV { return RowV{ID: u64ids[r.K], A: uint32(r.A), B: uint32(r.B), P: r.P, S: r.S} }
	s.From = func(t RowV) R {
		return R{K: indexOf(u64ids, t.ID), A: int(t.A), B: int(t.B), P: t.P, S: t.S}
	}
	s.KeyFunc = func(b bond.KeyBuilder, t RowV) []byte { return b.AddUint64Field(t.ID).Bytes() }
	s.Indexes = func() []*bond.Index[RowV] {
		k := func(b bond.KeyBuilder, t RowV) []byte { return b.AddUint32Field(t.A).Bytes() }
		return []*bond.Index[RowV]{
			bond.NewIndex(bond.IndexOptions[RowV]{IndexID: 1, IndexName: "a", IndexKeyFunc: k}),
			bond.NewIndex(bond.IndexOptions[RowV]{IndexID: 2, IndexName: "a_b_desc", IndexKeyFunc: k,
				IndexOrderFunc: func(o bond.IndexOrder, t RowV) bond.IndexOrder {
					return o.OrderUint32(t.B, bond.IndexOrderTypeDESC)
				}}),
			bond.NewIndex(bond.IndexOptions[RowV]{IndexID: 3, IndexName: "p_a", IndexKeyFunc: k,
				IndexFilterFunc: func(t RowV) bool { return t.P }}),
			bond.NewIndex(bond.IndexOptions[RowV]{IndexID: 4, IndexName: "by_b",
				IndexKeyFunc: func(b bond.KeyBuilder, t RowV) []byte { return b.Bytes() },
				IndexOrderFunc: func(o bond.IndexOrder, t RowV) bond.IndexOrder {
					return o.OrderUint32(t.B, bond.IndexOrderTypeASC)
				}}),
		}
	}
	s.Specs = stdSpecs(func(r R) *Fields { return new(Fields).U32(uint32(r.A)) },
		func(r R) []byte { return new(Fields).U32(uint32(r.B)).B },
		func(r R) []byte { return new(Fields).U32(^uint32(r.B)).B })
	return s
}

// ShapeP: pointer records, integer key, CBOR.
func ShapeP() *Shape[*RowV] {
	v := ShapeV()
	s := &Shape[*RowV]{Name: "ptrcbor", TableID: 7, Keys: v.Keys, PK: v.PK, Serializer: &serializers.CBORSerializer{}, Specs: v.Specs}
	s.To = func(r R) *RowV { t := v.To(r); return &t }
	s.From = func(t *RowV) R {
		if t == nil {
			return R{K: -1}
		}
		return v.From(*t)
	}
	s.KeyFunc = func(b bond.KeyBuilder, t *RowV) []byte { return b.AddUint64Field(t.ID).Bytes() }
	s.Indexes = func() []*bond.Index[*RowV] {
		k := func(b bond.KeyBuilder, t *RowV) []byte { return b.AddUint32Field(t.A).Bytes() }
		return []*bond.Index[*RowV]{
			bond.NewIndex(bond.IndexOptions[*RowV]{IndexID: 1, IndexName: "a", IndexKeyFunc: k}),
			bond.NewIndex(bond.IndexOptions[*RowV]{IndexID: 2, IndexName: "a_b_desc", IndexKeyFunc: k,
				IndexOrderFunc: func(o bond.IndexOrder, t *RowV) bond.IndexOrder {
					return o.OrderUint32(t.B, bond.IndexOrderTypeDESC)
				}}),
			bond.NewIndex(bond.IndexOptions[*RowV]{IndexID: 3, IndexName: "p_a", IndexKeyFunc: k,
				IndexFilterFunc: func(t *RowV) bool { return t.P }}),
			bond.NewIndex(bond.IndexOptions[*RowV]{IndexID: 4, IndexName: "by_b",
				IndexKeyFunc: func(b bond.KeyBuilder, t *RowV) []byte { return b.Bytes() },
				IndexOrderFunc: func(o bond.IndexOrder, t *RowV) bond.IndexOrder {
					return o.OrderUint32(t.B, bond.IndexOrderTypeASC)
				}}),
		}
	}
	return s
}

var strIDs = []string{"", "\x00", "a", "a\x00", "ab", "b\xff", "\xff", "\xff\xff"}

// ShapeS: pointer records with a map field, string key with prefixes and
// extreme bytes, msgpack; signed index fields.
func ShapeS() *Shape[*RowS] {
	s := &Shape[*RowS]{Name: "strmsgpack", TableID: 254, Keys: len(strIDs), Serializer: &serializers.MsgpackSerializer{}}
	s.PK = func(k int) []byte { return new(Fields).Str(strIDs[k]).B }
	s.To = func(r R) *RowS {
		t := &RowS{ID: strIDs[r.K], A: int32(r.A), B: int64(r.B), P: r.P, S: r.S}
		if r.P {
			t.M = map[string]string{fmt.Sprint(r.A, r.B): r.S}
		}
		return t
	}
	s.From = func(t *RowS) R {
		if t == nil {
			return R{K: -1}
		}
		r := R{K: -1, A: int(t.A), B: int(t.B), P: t.P, S: t.S}
		for i, id := range strIDs {
			if id == t.ID {
				r.K = i
			}
		}
		if want := s.To(R{K: max(r.K, 0), A: r.A, B: r.B, P: r.P, S: r.S}).M; fmt.Sprint(want) != fmt.Sprint(t.M) {
			r.S += fmt.Sprintf("!map %v instead of %v", t.M, want)
		}
		return r
	}
	s.KeyFunc = func(b bond.KeyBuilder, t *RowS) []byte { return b.AddStringField(t.ID).Bytes() }
	s.Indexes = func() []*bond.Index[*RowS] {
		k := func(b bond.KeyBuilder, t *RowS) []byte { return b.AddInt32Field(t.A).Bytes() }
		return []*bond.Index[*RowS]{
			bond.NewIndex(bond.IndexOptions[*RowS]{IndexID: 1, IndexName: "a", IndexKeyFunc: k}),
			bond.NewIndex(bond.IndexOptions[*RowS]{IndexID: 2, IndexName: "a_b_desc", IndexKeyFunc: k,
				IndexOrderFunc: func(o bond.IndexOrder, t *RowS) bond.IndexOrder {
					return o.OrderInt64(t.B, bond.IndexOrderTypeDESC)
				}}),
			bond.NewIndex(bond.IndexOptions[*RowS]{IndexID: 3, IndexName: "p_a", IndexKeyFunc: k,
				IndexFilterFunc: func(t *RowS) bool { return t.P }}),
			bond.NewIndex(bond.IndexOptions[*RowS]{IndexID: 4, IndexName: "by_b",
				IndexKeyFunc: func(b bond.KeyBuilder, t *RowS) []byte { return b.Bytes() },
				IndexOrderFunc: func(o bond.IndexOrder, t *RowS) bond.IndexOrder {
					return o.OrderInt64(t.B, bond.IndexOrderTypeASC)
				}}),
		}
	}
	i32 := func(v int32) *Fields {
		f := new(Fields)
		f.id()
		switch {
		case v > 0:
			f.B = append(f.B, 2)
		case v == 0:
			f.B = append(f.B, 1)
		default:
			f.B = append(f.B, 0)
			v = v - 1
		}
		f.B = append(f.B, byte(v>>24), byte(v>>16), byte(v>>8), byte(v))
		return f
	}
	s.Specs = stdSpecs(func(r R) *Fields { return i32(int32(r.A)) },
		func(r R) []byte { return new(Fields).I64(int64(r.B)).B },
		func(r R) []byte { return new(Fields).I64(-int64(r.B)).B })
	return s
}

func indexOf[V comparable](l []V, v V) int {
	for i := range l {
		if l[i] == v {
			return i
		}
	}
	return -1
}
