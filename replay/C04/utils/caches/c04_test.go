package caches

import (
	"errors"
	"fmt"
	"testing"
	"time"

	"github.com/Aize-Public/forego/ctx"
)

func TestVerifRequest(t *testing.T) {
	c := ctx.TODO()
	type ans struct {
		v   int
		ttl time.Duration
		err error
	}
	var next ans
	asks, askedKey := 0, 0
	for seed := 0; seed < 2500; seed++ {
		x := uint32(seed*2654435761 + 99)
		rnd := func(n int) int { x = x*1664525 + 1013904223; return int(x>>8) % n }
		rc := NewRequestLRU(c, 100, func(_ ctx.C, k int) (int, time.Duration, error) {
			asks++
			askedKey = k
			return next.v, next.ttl, next.err
		})
		type ent struct {
			ans
			from, to time.Time
		}
		model := map[int]ent{}
		hist := ""
		steps := 12
		for i := 0; i < steps; i++ {
			k := rnd(3)
			switch rnd(8) {
			case 0:
				hist += fmt.Sprintf(" invalidate(%d)", k)
				rc.Invalidate(c, k)
				delete(model, k)
				continue
			case 1:
				if seed%20 == 0 {
					hist += " sleep(12ms)"
					time.Sleep(12 * time.Millisecond)
				}
			}
			next = ans{v: i*10 + k + 1, ttl: []time.Duration{0, -time.Second, time.Hour, 10 * time.Millisecond, -time.Hour, 1, time.Minute}[rnd(7)]}
			if rnd(3) == 0 {
				next.err = errors.New("no")
			}
			asks = 0
			before := time.Now()
			v, h, err := rc.Request(c, k)
			after := time.Now()
			hist += fmt.Sprintf(" request(%d){source: %d,ttl %v,%v}", k, next.v, next.ttl, next.err)
			if asks == 0 {
				e, ok := model[k]
				if !ok {
					vfail(t, "%s: answered %d,%v without asking the source though nothing is retained", hist, v, err)
				}
				if v != e.v || err != e.err || h != HIT {
					vfail(t, "%s: served %d,%v,%v instead of %d,%v", hist, v, h, err, e.v, e.err)
				}
				if before.After(e.to) {
					vfail(t, "%s: served %v after its time to live", hist, before.Sub(e.to))
				}
				continue
			}
			if e, ok := model[k]; ok && after.Before(e.from) {
				vfail(t, "%s: asked the source %v before the time to live of the retained answer passed", hist, e.from.Sub(after))
			}
			wh := MISS
			if next.err != nil {
				wh = ERR
			}
			if asks != 1 || askedKey != k || v != next.v || err != next.err || h != wh {
				vfail(t, "%s: got %d,%v,%v after asking the source %d times", hist, v, h, err, asks)
			}
			delete(model, k)
			if next.ttl > 0 {
				model[k] = ent{next, before.Add(next.ttl), after.Add(next.ttl)}
			}
		}
	}
	// a slow source: the time to live counts from the answer; concurrent requests ask once
	n := 0
	rc := NewRequestLRU(c, 100, func(_ ctx.C, k int) (int, time.Duration, error) {
		n++
		time.Sleep(60 * time.Millisecond)
		return 5, 10 * time.Second, nil
	})
	done := make(chan int)
	for i := 0; i < 8; i++ {
		go func() { v, _, _ := rc.Request(c, 1); done <- v }()
	}
	for i := 0; i < 8; i++ {
		if v := <-done; v != 5 {
			vfail(t, "concurrent requests for one key: got %d", v)
		}
	}
	// a panicking source serves nothing to the next request
	boom := true
	rc = NewRequestLRU(c, 100, func(_ ctx.C, k int) (int, time.Duration, error) {
		if boom {
			panic("boom")
		}
		return 9, time.Hour, nil
	})
	vpanics(func() { rc.Request(c, 1) })
	boom = false
	got := make(chan int, 1)
	go func() { v, _, _ := rc.Request(c, 1); got <- v }()
	select {
	case v := <-got:
		if v != 9 {
			vfail(t, "the request after a panicking source got %d", v)
		}
	case <-time.After(5 * time.Second):
		vfail(t, "the request after a panicking source blocks")
	}
}
