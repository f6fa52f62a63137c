package prom

import (
	"bytes"
	"fmt"
	"math"
	"sync"
	"testing"
)

func TestVerifCounters(t *testing.T) {
	vnopanic(t, "counting", func() {
		for seed := 0; seed < 3000; seed++ {
			x := uint32(seed*2654435761 + 7)
			rnd := func(n int) int { x = x*1664525 + 1013904223; return int(x>>8) % n }
			ls := [][]string{{"a", "b"}, {"b", "a"}, {"", "a"}, {"a", ""}, {"a\",l2=\"b", "c"}, {"a", "b\",l2=\"c"}, {",", "="}, {"a,b", ""}}
			cn := &Counter{Name: "c", Labels: []string{"l1", "l2"}}
			g := &Gauge{Labels: []string{"l1", "l2"}}
			want, gwant := map[int]float64{}, map[int]int64{}
			fn := map[int]float64{}
			log := ""
			for i := 0; i < 12; i++ {
				j := rnd(len(ls))
				switch rnd(3) {
				case 0:
					v := []float64{0, 1, -2, .5, 1e9, math.MaxFloat64}[rnd(6)]
					log += fmt.Sprintf(" Observe(%v,%q)", v, ls[j])
					cn.Observe(v, ls[j]...)
					want[j] += v
				case 1:
					if _, ok := fn[j]; ok {
						continue
					}
					d := rnd(9) - 4
					log += fmt.Sprintf(" Inc(%v,%q)", d, ls[j])
					if rnd(2) == 0 {
						g.Counter(ls[j]...).Inc(d)
					} else {
						g.Counter(ls[j]...).Dec(-d)
					}
					gwant[j] += int64(d)
				case 2:
					if _, ok := gwant[j]; ok {
						continue
					}
					if _, ok := fn[j]; ok && rnd(2) == 0 {
						log += fmt.Sprintf(" SetFunc(nil,%q)", ls[j])
						g.SetFunc(nil, ls[j]...)
						delete(fn, j)
						continue
					}
					v := float64(i)
					log += fmt.Sprintf(" SetFunc(%v,%q)", v, ls[j])
					g.SetFunc(func() float64 { return v }, ls[j]...)
					fn[j] = v
				}
			}
			for j, l := range ls {
				e := cn.val.Get(stringify(cn.Labels, l))
				w, ok := want[j]
				if (e != nil) != ok || ok && e.sum != w {
					vfail(t, "%s: counter %q is %+v, expected %v", log, l, e, w)
				}
				x := g.val.Get(stringify(g.Labels, l))
				if n, ok := gwant[j]; ok {
					if x == nil || x.value() != float64(n) {
						vfail(t, "%s: gauge counter %q is %v, expected %v", log, l, x, n)
					}
				} else if f, ok := fn[j]; ok {
					if x == nil || x.value() != f {
						vfail(t, "%s: gauge function %q is %v, expected %v", log, l, x, f)
					}
				} else if x != nil {
					vfail(t, "%s: gauge %q is %v, expected none", log, l, x.value())
				}
			}
			for i := range ls {
				for j := range ls[:i] {
					if stringify(cn.Labels, ls[i]) == stringify(cn.Labels, ls[j]) {
						vfail(t, "label combinations %q and %q share an entry", ls[i], ls[j])
					}
				}
			}
		}
	})
	if vpanics(func() { (&Counter{Name: "c", Labels: []string{"a", "b"}}).Observe(1, "x") }) == nil {
		vfail(t, "a wrong number of labels is accepted")
	}
	for rep := 0; rep < 30; rep++ {
		cn := &Counter{Name: "c", Labels: []string{"l"}}
		g := &Gauge{Labels: []string{"l"}}
		start := make(chan int)
		var wg sync.WaitGroup
		for i := 0; i < 8; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for i := 0; i < 200; i++ {
					cn.Observe(1, "x")
					cn.Observe(2, "y")
					g.Counter("x").Inc(3)
					g.Counter("x").Dec(1)
					if i%50 == 0 {
						cn.Print(&bytes.Buffer{})
						g.Print("g", &bytes.Buffer{})
					}
				}
			}()
		}
		close(start)
		wg.Wait()
		a, b, c := cn.val.Get(`l="x"`), cn.val.Get(`l="y"`), g.val.Get(`l="x"`)
		if a == nil || b == nil || c == nil || a.sum != 1600 || b.sum != 3200 || c.value() != 3200 {
			vfail(t, "8 goroutines, 200 times Observe(1,x) Observe(2,y) Inc(3) Dec(1): %v %v %v", a, b, c)
		}
	}
}
