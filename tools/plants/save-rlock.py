ID="save-rlock"; PROPERTY="C13"
NEEDS="a key added to a bucket between the moment a save has written the bucket out and the moment it marks it as saved"
BREAKS="the next save skips the bucket, after a restart the key is missing"
EDITS=[("bloom/bloom_filter.go","""func (b *BloomFilter) Save(_ context.Context, store bond.FilterStorer) error {
	b.mutex.Lock()
	defer b.mutex.Unlock()
""","""func (b *BloomFilter) Save(_ context.Context, store bond.FilterStorer) error {
	b.mutex.RLock()
	defer b.mutex.RUnlock()
""")]
DEMO="""package demo
import ("testing";"context";"io";"sync";"time";"github.com/go-bond/bond";"github.com/go-bond/bond/bloom")
type store struct { m map[string][]byte; hook func() }
type nop struct{}
func (nop) Close() error { return nil }
func (s *store) Get(key []byte, _ ...bond.Batch) ([]byte, io.Closer, error) {
	if v, ok := s.m[string(key)]; ok { return v, nop{}, nil }
	return nil, nil, bond.ErrNotFound
}
func (s *store) Set(key, value []byte, _ bond.WriteOptions, _ ...bond.Batch) error {
	s.m[string(key)] = append([]byte{}, value...)
	if s.hook != nil { s.hook() }
	return nil
}
func (s *store) DeleteRange(a, b []byte, _ bond.WriteOptions, _ ...bond.Batch) error { s.m = map[string][]byte{}; return nil }
func TestDemo(t *testing.T) {
	s := &store{m: map[string][]byte{}}
	f := bloom.NewBloomFilter(1000, 0.001, 1)
	f.Add(context.Background(), []byte("one"))
	var wg sync.WaitGroup
	n := 0
	s.hook = func() {
		done := make(chan bool)
		wg.Add(1)
		n++; k := []byte("two" + string(rune(48+n))); go func() { defer wg.Done(); f.Add(context.Background(), k); close(done) }()
		select { case <-done: case <-time.After(200 * time.Millisecond): }
	}
	Must(t, f.Save(context.Background(), s))
	wg.Wait()
	s.hook = nil
	Must(t, f.Save(context.Background(), s))
	g := bloom.NewBloomFilter(1000, 0.001, 1)
	Must(t, g.Load(context.Background(), s))
	if !g.MayContain(context.Background(), []byte("two1")) || !g.MayContain(context.Background(), []byte("two2")) || !g.MayContain(context.Background(), []byte("one")) { t.Fatal("lost") }
}
"""
