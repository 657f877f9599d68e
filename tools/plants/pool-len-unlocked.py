ID="pool-len-unlocked"; PROPERTY="C21"
NEEDS="two callers that take from the pool at the same time"
BREAKS="the second one panics"
EDITS=[("utils/sync.go","""func (s *PreAllocatedPool[T]) Get() T {
	s.mu.Lock()
	defer s.mu.Unlock()

	if itemsLen := len(s.preAllocItems); itemsLen > 0 {
""","""func (s *PreAllocatedPool[T]) Get() T {
	itemsLen := len(s.preAllocItems)

	s.mu.Lock()
	defer s.mu.Unlock()

	if itemsLen > 0 {
""")]
DEMO="""package demo
import ("testing";"sync";"sync/atomic";"github.com/go-bond/bond/utils")
func TestDemo(t *testing.T) {
	bad := int32(0)
	for n := 0; n < 300 && bad == 0; n++ {
		p := utils.NewPreAllocatedPool[*int32](func() any { return new(int32) }, 4)
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() { if recover() != nil { atomic.AddInt32(&bad, 1) } }()
				for i := 0; i < 2000; i++ {
					x := p.Get()
					if atomic.AddInt32(x, 1) != 1 { atomic.AddInt32(&bad, 1) }
					atomic.AddInt32(x, -1)
					p.Put(x)
				}
			}()
		}
		wg.Wait()
	}
	if bad != 0 { t.Fatal(bad) }
}
"""
