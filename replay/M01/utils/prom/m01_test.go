package prom

import (
	"bytes"
	"fmt"
	"math"
	"strings"
	"sync"
	"testing"
	"time"
)

func hist(h *Histogram, l ...string) *histogramTS {
	v := h.val.Get(stringify(h.Labels, l))
	return v
}

func TestVerifHistogram(t *testing.T) {
	vals := []float64{0, 1, 1.5, 2, 3, 4, 5, 7, 10, 11, -1, math.Inf(1), math.Inf(-1), .5, math.NaN()}
	bounds := [][]float64{nil, {1}, {1, 2, 3}, {0, 1.5, 10}, {-1, 0, 5, 10, 100}, {5, 1}}
	vnopanic(t, "observing", func() {
		for seed := 0; seed < 4000; seed++ {
			x := uint32(seed*2654435761 + 7)
			rnd := func(n int) int { x = x*1664525 + 1013904223; return int(x>>8) % n }
			h := &Histogram{Buckets: bounds[rnd(len(bounds))], Labels: []string{"a"}}
			log := ""
			obs := map[string][]float64{}
			for i := 0; i < 1+rnd(10); i++ {
				v, l := vals[rnd(len(vals))], []string{"x", "y", ""}[rnd(3)]
				h.Observe(v, l)
				obs[l] = append(obs[l], v)
				log += fmt.Sprintf(" Observe(%v, %q)", v, l)
			}
			for l, vs := range obs {
				e := hist(h, l)
				if e == nil {
					vfail(t, "%s: no entry for %q", log, l)
				}
				sum := 0.0
				for _, v := range vs {
					sum += v
				}
				if e.count != len(vs) || e.sum != sum && !(math.IsNaN(e.sum) && math.IsNaN(sum)) {
					vfail(t, "bounds %v%s: %q has count %d (observed %d), sum %v (observed %v)", h.Buckets, log, l, e.count, len(vs), e.sum, sum)
				}
				for i, le := range h.Buckets {
					n := 0
					for _, v := range vs {
						if v <= le {
							n++
						}
					}
					if e.buckets[i] != n {
						vfail(t, "bounds %v%s: %q bucket le=%v is %d, expected %d", h.Buckets, log, l, le, e.buckets[i], n)
					}
				}
			}
		}
	})
	// concurrent observations and prints
	h := &Histogram{Buckets: []float64{1, 2, 3}, Labels: []string{"a"}}
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		g := g
		go func() {
			defer wg.Done()
			for i := 0; i < 2000; i++ {
				h.Observe(float64(i%4), fmt.Sprint(g%2))
			}
		}()
	}
	for i := 0; i < 50; i++ {
		vnopanic(t, "printing during observations", func() { h.Print("n", &bytes.Buffer{}) })
	}
	wg.Wait()
	for _, l := range []string{"0", "1"} {
		if e := hist(h, l); e.count != 8000 || fmt.Sprint(e.buckets) != "[4000 6000 8000]" || e.sum != 12000 {
			vfail(t, "4 goroutines observing 2000 values each under %q: count %d buckets %v sum %v", l, e.count, e.buckets, e.sum)
		}
	}
	// the entry exists but the first observation is not done
	h = &Histogram{Buckets: []float64{1, 2}}
	h.val.GetOrStore("", &histogramTS{})
	b := &bytes.Buffer{}
	vnopanic(t, "printing before the first observation is done", func() { h.Print("n", b) })
	if !strings.Contains(b.String(), `n_bucket{le="1"} 0`) || !strings.Contains(b.String(), `n_count 0`) {
		vfail(t, "printed before the first observation is done: %q", b.String())
	}
	h = &Histogram{Buckets: []float64{60, 3600}}
	h.ObserveSince(time.Now().Add(-2 * time.Minute))
	if e := hist(h); e.count != 1 || fmt.Sprint(e.buckets) != "[0 1]" || e.sum < 120 || e.sum > 200 {
		vfail(t, "ObserveSince two minutes ago: count %d buckets %v sum %v", e.count, e.buckets, e.sum)
	}
}
