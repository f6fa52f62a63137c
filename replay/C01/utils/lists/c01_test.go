package lists

import (
	"fmt"
	"sort"
	gosync "sync"
	"testing"
)

func TestVerifC01Set(t *testing.T) {
	var rec func(h []int)
	rec = func(h []int) {
		var s Set[int]
		w := map[int]bool{}
		for i, o := range h {
			k := o % 3
			var got, want bool
			switch o / 3 {
			case 0:
				got, want = s.Add(k), !w[k]
				w[k] = true
			case 1:
				got, want = s.Remove(k), w[k]
				delete(w, k)
			}
			if got != want {
				vfail(t, "history %v (0-2 add, 3-5 remove): step %d returns %v", h, i, got)
			}
			for k := 0; k < 3; k++ {
				if s.Has(k) != w[k] {
					vfail(t, "history %v (0-2 add, 3-5 remove): Has(%d) = %v", h[:i+1], k, s.Has(k))
				}
			}
			a := s.All()
			sort.Ints(a)
			x := []int{}
			for k := 0; k < 3; k++ {
				if w[k] {
					x = append(x, k)
				}
			}
			if fmt.Sprint(a) != fmt.Sprint(x) {
				vfail(t, "history %v (0-2 add, 3-5 remove): All() = %v, want %v", h[:i+1], a, x)
			}
		}
		if len(h) < 6 {
			for o := 0; o < 6; o++ {
				rec(append(append([]int{}, h...), o))
			}
		}
	}
	rec(nil)
	const N = 8
	for round := 0; round < 20000; round++ {
		var s Set[string]
		var ok [N]bool
		for phase := 0; phase < 2; phase++ {
			var wg gosync.WaitGroup
			start := make(chan struct{})
			for i := 0; i < N; i++ {
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					<-start
					if phase == 0 {
						ok[i] = s.Add("k")
					} else {
						ok[i] = s.Remove("k")
					}
				}(i)
			}
			close(start)
			wg.Wait()
			n := 0
			for i := range ok {
				if ok[i] {
					n++
				}
			}
			if n != 1 {
				vfail(t, "%d concurrent %s calls for one value: %d return true", N, []string{"Add", "Remove"}[phase], n)
			}
		}
	}
}
