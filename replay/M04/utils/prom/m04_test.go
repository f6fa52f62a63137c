package prom

import (
	"errors"
	"fmt"
	"sync"
	"testing"
	"time"
)

func TestVerifRegistry(t *testing.T) {
	saved := registry.metrics
	defer func() { registry.metrics = saved }()
	within := func(what string, f func()) {
		t.Helper()
		done := make(chan any)
		go func() { done <- vpanics(f) }()
		select {
		case r := <-done:
			if r != nil {
				vfail(t, "%s: panicked: %v", what, r)
			}
		case <-time.After(10 * time.Second):
			vfail(t, "%s: blocks", what)
		}
	}
	names := []string{"", "a", "b", "ab", "go", "x_y"}
	for seed := 0; seed < 2000; seed++ {
		x := uint32(seed*2654435761 + 17)
		rnd := func(n int) int { x = x*1664525 + 1013904223; return int(x>>8) % n }
		registry.metrics = map[string]Metric{}
		want := map[string]Metric{}
		hist := ""
		for i := 0; i < 12; i++ {
			n := names[rnd(len(names))]
			m := Metric(&Gauge{Desc: fmt.Sprint(i)})
			if rnd(2) == 0 {
				m = &Custom{Desc: fmt.Sprint(i)}
			}
			hist += fmt.Sprintf(" Register(%q)", n)
			var got Metric
			r := vpanics(func() { got = Register(n, m) })
			if (r != nil) != (want[n] != nil) {
				vfail(t, "%s: taken before: %v, panic: %v", hist, want[n] != nil, r)
			}
			if r == nil {
				want[n] = m
				if got != m {
					vfail(t, "%s: returns another metric", hist)
				}
			}
			stop := -1
			boom := errors.New("stop")
			if rnd(3) == 0 {
				stop = rnd(4)
			}
			seen := map[string]Metric{}
			calls := 0
			var err error
			within(hist+" Range", func() {
				err = Range(func(n string, m Metric) error {
					if _, ok := seen[n]; ok {
						vfail(t, "%s: Range calls back twice for %q", hist, n)
					}
					if want[n] != m {
						vfail(t, "%s: Range calls back with another metric for %q", hist, n)
					}
					seen[n] = m
					calls++
					if calls-1 == stop {
						return boom
					}
					return nil
				})
			})
			if stop >= 0 && stop < len(want) {
				if err != boom || calls != stop+1 {
					vfail(t, "%s: callback %d failed, Range returned %v after %d calls", hist, stop, err, calls)
				}
			} else if err != nil || len(seen) != len(want) {
				vfail(t, "%s: Range returned %v after %d of %d metrics", hist, err, len(seen), len(want))
			}
		}
	}
	// the callback may register and list; a panicking callback leaves no lock behind
	registry.metrics = map[string]Metric{}
	Register("a", &Gauge{})
	within("Register inside the Range callback", func() {
		Range(func(n string, m Metric) error {
			vpanics(func() { Register("b", &Gauge{}) })
			return Range(func(string, Metric) error { return nil })
		})
	})
	within("Register after a panicking callback and a refused registration", func() {
		vpanics(func() { Range(func(string, Metric) error { panic("x") }) })
		vpanics(func() { Register("a", &Gauge{}) })
		Register("c", &Gauge{})
	})
	// concurrent registrations of one name
	for rep := 0; rep < 200; rep++ {
		registry.metrics = map[string]Metric{}
		start := make(chan int)
		var wg sync.WaitGroup
		var l sync.Mutex
		ok := []Metric{}
		for i := 0; i < 6; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				m := &Gauge{}
				if vpanics(func() { Register("n", m) }) == nil {
					l.Lock()
					ok = append(ok, m)
					l.Unlock()
				}
				Range(func(string, Metric) error { return nil })
			}()
		}
		close(start)
		wg.Wait()
		if len(ok) != 1 || registry.metrics["n"] != ok[0] {
			vfail(t, "6 concurrent registrations of one name: %d accepted", len(ok))
		}
	}
}
