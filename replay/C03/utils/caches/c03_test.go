package caches

import (
	"errors"
	"fmt"
	"sync"
	"testing"

	"github.com/Aize-Public/forego/ctx"
)

func TestVerifMem(t *testing.T) {
	vnopanic(t, "Mem sequences", func() {
		for seed := 0; seed < 3000; seed++ {
			x := uint32(seed*2654435761 + 12345)
			rnd := func(n int) int { x = x*1664525 + 1013904223; return int(x>>8) % n }
			type kk struct{}
			c := ctx.WithValue(ctx.TODO(), kk{}, seed)
			model := map[int]int{}
			asks := 0
			var lastK int
			var ansV int
			var ansE error
			m := Mem(c, func(c2 ctx.C, k int) (int, error) {
				asks++
				lastK = k
				if c2 != c {
					vfail(t, "the source got another context")
				}
				return ansV, ansE
			})
			hist := ""
			for i := 0; i < 25; i++ {
				k := rnd(4)
				if rnd(4) == 0 {
					hist += fmt.Sprintf(" inv(%d)", k)
					m.Invalidate(c, k)
					delete(model, k)
					continue
				}
				ansV = rnd(3) * (i + 1)
				ansE = nil
				if rnd(3) == 0 {
					ansE = errors.New("no")
				}
				hist += fmt.Sprintf(" get(%d){source: %d,%v}", k, ansV, ansE)
				asks = 0
				v, h, err := m.Get(c, k)
				want, has := model[k]
				if has {
					if asks != 0 || v != want || h != HIT || err != nil {
						vfail(t, "%s: retained %d, got %d,%v,%v and the source was asked %d times", hist, want, v, h, err, asks)
					}
					continue
				}
				wh := MISS
				if ansE != nil {
					wh = ERR
				} else {
					model[k] = ansV
				}
				if asks != 1 || lastK != k || v != ansV || err != ansE || h != wh {
					vfail(t, "%s: not retained, got %d,%v,%v after asking the source %d times for %d", hist, v, h, err, asks, lastK)
				}
			}
		}
	})
	// a panicking source leaves nothing behind and no lock taken
	c := ctx.TODO()
	boom := true
	m := Mem(c, func(ctx.C, int) (int, error) {
		if boom {
			panic("boom")
		}
		return 7, nil
	})
	vpanics(func() { m.Get(c, 1) })
	boom = false
	done := make(chan int)
	go func() { v, _, _ := m.Get(c, 1); done <- v }()
	if v := <-done; v != 7 {
		vfail(t, "after a panicking source Get = %d", v)
	}
	// concurrent callers: one question per key
	var l sync.Mutex
	n := map[int]int{}
	m = Mem(c, func(_ ctx.C, k int) (int, error) { l.Lock(); defer l.Unlock(); n[k]++; return k * 10, nil })
	var wg sync.WaitGroup
	for g := 0; g < 16; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 500; i++ {
				k := (i + g) % 50
				if v, _, err := m.Get(c, k); v != k*10 || err != nil {
					vfail(t, "concurrent Get(%d) = %d, %v", k, v, err)
				}
			}
		}()
	}
	wg.Wait()
	for k, v := range n {
		if v != 1 {
			vfail(t, "concurrent callers asked the source %d times for key %d", v, k)
		}
	}
}
