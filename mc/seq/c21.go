package main

import (
	"errors"
	"fmt"
	"time"

	"github.com/go-bond/bond"
	. "github.com/go-bond/bond/internal/vmc/kit"
	"github.com/go-bond/bond/internal/vmc/shim/sched"
	"github.com/go-bond/bond/utils"
)

func init() {
	Register(&Check{ID: "C21", Level: "model_checking", Run: runC21,
		Rule: "every schedule within the bound of threads that get, hold and put items, and that run functions under a synchronised batch, is executed on the real code under a controlled scheduler",
		Assumptions: []string{"code between two statements of utils/sync.go and sync.go runs as one step",
			"the pool of the standard library hands out the item put last"}})
	RegisterScenarios("C21", scenarios21)
}

type item21 struct {
	owner int // 0: nobody
	n     int
}

type pool21 interface {
	Get() *item21
	Put(*item21)
}

// user21 takes n items, holds them and puts them back.
func user21(p pool21, id, rounds, hold int, bad *error) func() {
	return func() {
		for i := 0; i < rounds; i++ {
			var got []*item21
			for j := 0; j < hold; j++ {
				x := p.Get()
				if x == nil {
					*bad = fmt.Errorf("thread %d got nothing", id)
					return
				}
				if x.owner != 0 && *bad == nil {
					*bad = fmt.Errorf("thread %d got an item held by thread %d", id, x.owner)
				}
				x.owner = id
				got = append(got, x)
			}
			sched.Point("holding")
			for _, x := range got {
				if x.owner != id && *bad == nil {
					*bad = fmt.Errorf("an item held by thread %d is now held by %d", id, x.owner)
				}
				x.owner = 0
				p.Put(x)
			}
		}
	}
}

func scenarios21(c *Ctx) []Scenario {
	var ss []Scenario
	pools := func(name string, first int, mk func() pool21, users ...[2]int) {
		ss = append(ss, Scenario{Name: name, First: first, New: func() ([]func(), func() (string, error)) {
			p := mk()
			var bad error
			var fs []func()
			for i, u := range users {
				fs = append(fs, user21(p, i+1, u[0], u[1], &bad))
			}
			return fs, func() (string, error) {
				if bad != nil {
					return "", bad
				}
				// what is in the pool now is not handed out twice either
				seen := map[*item21]bool{}
				fresh := 0
				for i := 0; i < 8; i++ {
					x := p.Get()
					if x == nil || seen[x] {
						return "", fmt.Errorf("the pool holds an item twice or none")
					}
					seen[x] = true
					if x.n == 0 {
						fresh++
					}
				}
				return fmt.Sprint(fresh), nil
			}
		}})
	}
	pre := func(size, out int) func() pool21 {
		return func() pool21 {
			n := 0
			p := utils.NewPreAllocatedPool[*item21](func() any { n++; return &item21{n: n} }, size)
			for i := 0; i < out; i++ { // some are in use for good
				x := p.Get()
				x.owner = 99
			}
			return p
		}
	}
	wrap := func() pool21 {
		n := 0
		p := &utils.SyncPoolWrapper[*item21]{}
		p.New = func() any { n++; return &item21{n: n} }
		return p
	}
	for size := 0; size <= 3; size++ {
		pools(fmt.Sprintf("two users, %d preallocated", size), 0, pre(size, 0), [2]int{2, 1}, [2]int{2, 1})
		pools(fmt.Sprintf("two users of two, %d preallocated", size), 0, pre(size, 0), [2]int{1, 2}, [2]int{1, 2})
		if size > 0 {
			pools(fmt.Sprintf("two users, %d preallocated and all in use", size), 0, pre(size, size), [2]int{2, 1}, [2]int{2, 1})
			pools(fmt.Sprintf("three users, %d preallocated, one in use", size), 1, pre(size, 1), [2]int{1, 1}, [2]int{1, 1}, [2]int{1, 1})
		}
	}
	pools("two users of a plain pool", 0, wrap, [2]int{2, 1}, [2]int{2, 1})

	// synchronised batches
	const (
		fine = iota
		fails
		panics
		writes
	)
	var e *Env
	batches := func(name string, first int, kinds ...[]int) {
		ss = append(ss, Scenario{Name: name, First: first, New: func() ([]func(), func() (string, error)) {
			if e == nil {
				e = c.NewEnv(nil, nil, nil)
			}
			e.Use()
			b := e.DB.Batch(bond.BatchTypeReadWrite)
			sb := bond.NewSyncBatch(b)
			var bad error
			note := func(err error) {
				if bad == nil {
					bad = err
				}
			}
			inside, runs, wrote := 0, 0, 0
			key := []byte{9, 9, 9}
			enter := func() {
				if inside != 0 {
					note(errors.New("two functions run at the same time"))
				}
				inside++
				sched.Point("inside")
				runs++
			}
			total := 0
			var fs []func()
			for i := range kinds {
				i := i
				total += len(kinds[i])
				fs = append(fs, func() {
					for _, k := range kinds[i] {
						ran := false
						switch k {
						case fine, fails:
							var want error
							if k == fails {
								want = fmt.Errorf("failure of %d", i)
							}
							err := sb.WithSync(func(x bond.Batch) error {
								ran = true
								if x != b {
									note(errors.New("another batch was handed to the function"))
								}
								enter()
								inside--
								return want
							})
							if !errors.Is(err, want) || want == nil && err != nil {
								note(fmt.Errorf("the function returned %v, WithSync %v", want, err))
							}
						case panics:
							func() {
								defer func() {
									if p := recover(); p != "ouch" {
										note(fmt.Errorf("the panic became %v", p))
									}
								}()
								_ = sb.WithSync(func(bond.Batch) error {
									ran = true
									enter()
									inside--
									panic("ouch")
								})
							}()
						case writes:
							wrote++
							err := sb.WithSync(func(x bond.Batch) error {
								ran = true
								enter()
								defer func() { inside-- }()
								n := byte(0)
								if d, cl, err := x.Get(key); err == nil {
									n = d[0]
									_ = cl.Close()
								}
								sched.Point("between")
								return x.Set(key, []byte{n + 1}, bond.Sync)
							})
							if err != nil {
								note(err)
							}
						}
						if !ran {
							note(errors.New("WithSync returned without running the function"))
						}
					}
				})
			}
			return fs, func() (string, error) {
				defer func() { _ = b.Close() }()
				if bad != nil {
					return "", bad
				}
				if runs != total {
					return "", fmt.Errorf("%d of %d functions ran", runs, total)
				}
				n := byte(0)
				if err := sb.WithSync(func(x bond.Batch) error {
					if d, cl, err := x.Get(key); err == nil {
						n = d[0]
						return cl.Close()
					}
					return nil
				}); err != nil {
					return "", err
				}
				if int(n) != wrote {
					return "", fmt.Errorf("%d of %d writes are in the batch", n, wrote)
				}
				return fmt.Sprint(runs, n), nil
			}
		}})
	}
	batches("two callers of a synchronised batch", 0, []int{fine, writes}, []int{writes, fine})
	batches("a failing function", 0, []int{fails, fine}, []int{fine, fails})
	batches("a panicking function", 0, []int{panics, fine}, []int{fine, writes})
	batches("two panicking functions", 0, []int{panics, panics}, []int{panics, writes})
	batches("three callers", 0, []int{writes}, []int{fails, writes}, []int{panics})
	batches("three writers", 1, []int{writes}, []int{writes}, []int{writes})
	return ss
}

func runC21(c *Ctx) {
	bound := 4
	if c.Thorough() {
		bound = 6
	}
	c.Races(1, 15*time.Second)
	c.Schedules(bound)
}
