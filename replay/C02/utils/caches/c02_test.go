package caches

import (
	"errors"
	"fmt"
	"sync"
	"testing"
	"time"

	"github.com/Aize-Public/forego/ctx"
)

// the clock moves between any two operations
func vtick() {
	for t := time.Now(); !time.Now().After(t); {
	}
}

func TestVerifLRU(t *testing.T) {
	type entry struct {
		key, val, size, used int
	}
	vnopanic(t, "LRU histories", func() {
		for seed := 0; seed < 1500; seed++ {
			x := uint32(seed*2654435761 + 977)
			rnd := func(n int) int { x = x*1664525 + 1013904223; return int(x>>8) % n }
			type kk struct{}
			c := ctx.WithValue(ctx.TODO(), kk{}, seed)
			max := []int{0, 1, 3, 5, 8, 12, 40}[rnd(7)]
			unit := rnd(3) == 0
			asks, lastK, ansV, ansS := 0, 0, 0, 0
			var ansE error
			l := NewLRU(c, max, func(c2 ctx.C, k int) (int, int, error) {
				asks++
				lastK = k
				if c2 != c {
					vfail(t, "the source got another context")
				}
				return ansV, ansS, ansE
			}).(*LRU[int, int])
			var model []entry
			total := func() (n int) {
				for _, e := range model {
					n += e.size
				}
				return
			}
			find := func(k int) int {
				for i := range model {
					if model[i].key == k {
						return i
					}
				}
				return -1
			}
			hist := fmt.Sprintf("max %d:", max)
			for i := 0; i < 60; i++ {
				vtick()
				k := rnd(12)
				at := find(k)
				if rnd(4) == 0 {
					hist += fmt.Sprintf(" inv(%d)", k)
					l.Invalidate(c, k)
					if at >= 0 {
						model = append(append([]entry{}, model[:at]...), model[at+1:]...)
					}
				} else {
					ansV, ansS, ansE = rnd(1000), 1, nil
					if !unit {
						ansS = rnd(5)
						if rnd(12) == 0 {
							ansS = max + rnd(3)
						}
					}
					if rnd(9) == 0 {
						ansE = errors.New("no")
					}
					hist += fmt.Sprintf(" get(%d){source: %d,%d,%v}", k, ansV, ansS, ansE)
					asks = 0
					v, hm, err := l.Get(c, k)
					if at >= 0 {
						if asks != 0 || v != model[at].val || hm != HIT || err != nil {
							vfail(t, "%s: %d is retained with %d, got %d,%v,%v and the source was asked %d times", hist, k, model[at].val, v, hm, err, asks)
						}
						model[at].used = i
					} else {
						wh := MISS
						if ansE != nil {
							wh = ERR
						} else if ansS == 0 {
							wh = NO
						} else {
							model = append(model, entry{k, ansV, ansS, i})
							for total() > max {
								o := 0
								for j := range model {
									if model[j].used < model[o].used {
										o = j
									}
								}
								model = append(append([]entry{}, model[:o]...), model[o+1:]...)
							}
						}
						if asks != 1 || lastK != k || v != ansV || hm != wh || err != ansE {
							vfail(t, "%s: got %d,%v,%v, source asked %d times", hist, v, hm, err, asks)
						}
					}
				}
				keys := map[int]bool{}
				for _, k := range l.Keys() {
					if keys[k] {
						vfail(t, "%s: key %d twice in Keys()", hist, k)
					}
					keys[k] = true
				}
				if len(keys) != len(model) {
					vfail(t, "%s: keys %v, want %v", hist, l.Keys(), model)
				}
				for _, e := range model {
					if !keys[e.key] {
						vfail(t, "%s: keys %v, want %v", hist, l.Keys(), model)
					}
				}
				want := fmt.Sprintf("LRU{%d/%d, ", total(), max)
				if s := l.String(); len(s) < len(want) || s[:len(want)] != want {
					vfail(t, "%s: %s, want %s...", hist, s, want)
				}
			}
			if seed%50 == 0 && t.Failed() {
				return
			}
		}
	})
}

// a source that panics leaves nothing retained and nothing locked
func TestVerifLRUPanic(t *testing.T) {
	c := ctx.TODO()
	boom := true
	l := NewLRU(c, 10, func(ctx.C, string) (int, int, error) {
		if boom {
			panic("boom")
		}
		return 7, 1, nil
	}).(*LRU[string, int])
	func() {
		defer func() { _ = recover() }()
		_, _, _ = l.Get(c, "a")
	}()
	boom = false
	done := make(chan struct{})
	go func() {
		defer close(done)
		if len(l.Keys()) != 0 {
			vfail(t, "retained after a panic: %v", l.Keys())
		}
		if v, hm, err := l.Get(c, "a"); v != 7 || hm != MISS || err != nil {
			vfail(t, "after a panic: %v %v %v", v, hm, err)
		}
	}()
	select {
	case <-done:
	case <-time.After(10 * time.Second):
		vfail(t, "the cache stays locked after its source panicked")
	}
}

// under -race, and with sizes that add up
func TestVerifLRUConcurrent(t *testing.T) {
	c := ctx.TODO()
	l := NewLRU(c, 20, func(_ ctx.C, k int) (int, int, error) { return k * 3, 1 + k%4, nil }).(*LRU[int, int])
	var wg sync.WaitGroup
	for g := 0; g < 6; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := 0; i < 400; i++ {
				k := (i*7 + g*3) % 23
				switch i % 5 {
				case 0:
					l.Invalidate(c, k)
				case 1:
					_ = l.String()
				case 2:
					_ = l.Keys()
				default:
					if v, _, err := l.Get(c, k); v != k*3 || err != nil {
						vfail(t, "Get(%d) = %v, %v", k, v, err)
					}
				}
			}
		}(g)
	}
	wg.Wait()
	sum := 0
	for _, k := range l.Keys() {
		sum += 1 + k%4
	}
	if want := fmt.Sprintf("LRU{%d/20, ", sum); sum > 20 || l.String()[:len(want)] != want {
		vfail(t, "retained sizes add up to %d: %s", sum, l.String())
	}
}
