ID="haschanges-reset"; PROPERTY="C12"
NEEDS="a new key and then a known key added to one bucket after it has been saved once, then a save and a restart"
BREAKS="the second save skips the bucket, the stored row is hidden after the restart"
EDITS=[("bloom/bloom_filter.go","	bucket.hasChanges = !bucket.filter.TestOrAdd(key) || bucket.hasChanges\n","	bucket.hasChanges = !bucket.filter.TestOrAdd(key)\n")]
DEMO="""package demo
import ("testing";"context";"io";"github.com/go-bond/bond";"github.com/go-bond/bond/bloom")
type store struct { m map[string][]byte }
type nop struct{}
func (nop) Close() error { return nil }
func (s *store) Get(key []byte, _ ...bond.Batch) ([]byte, io.Closer, error) {
	if v, ok := s.m[string(key)]; ok { return v, nop{}, nil }
	return nil, nil, bond.ErrNotFound
}
func (s *store) Set(key, value []byte, _ bond.WriteOptions, _ ...bond.Batch) error {
	s.m[string(key)] = append([]byte{}, value...)
	return nil
}
func (s *store) DeleteRange(a, b []byte, _ bond.WriteOptions, _ ...bond.Batch) error { s.m = map[string][]byte{}; return nil }
func TestDemo(t *testing.T) {
	ctx := context.Background()
	s := &store{m: map[string][]byte{}}
	f := bloom.NewBloomFilter(1000, 0.001, 1)
	f.Add(ctx, []byte("one"))
	Must(t, f.Save(ctx, s))
	f.Add(ctx, []byte("two"))
	f.Add(ctx, []byte("one"))
	Must(t, f.Save(ctx, s))
	g := bloom.NewBloomFilter(1000, 0.001, 1)
	Must(t, g.Load(ctx, s))
	if !g.MayContain(ctx, []byte("two")) { t.Fatal("lost") }
}
"""
