package sync

import (
	"errors"
	"fmt"
	gosync "sync"
	"testing"
)

type vop struct {
	op   string
	k    int
	v    any
	want string
}

func TestVerifC01Sequential(t *testing.T) {
	vals := []any{1, nil, "x"}
	keys := []any{0, nil}
	ops := []string{"load", "get", "store", "delete", "lad", "los", "gos"}
	type step struct {
		op   string
		k, v any
	}
	var all []step
	for _, o := range ops {
		for _, k := range keys {
			if o == "store" || o == "los" || o == "gos" {
				for _, v := range vals {
					all = append(all, step{o, k, v})
				}
			} else {
				all = append(all, step{o, k, nil})
			}
		}
	}
	run := func(h []step) {
		vnopanic(t, fmt.Sprintf("history %v", h), func() {
			var m Map[any, any]
			w := map[any]any{}
			for i, s := range h {
				old, had := w[s.k]
				var got, want string
				switch s.op {
				case "load":
					a, b := m.Load(s.k)
					got, want = fmt.Sprint(a, b), fmt.Sprint(old, had)
				case "get":
					got, want = fmt.Sprint(m.Get(s.k)), fmt.Sprint(old)
				case "store":
					m.Store(s.k, s.v)
					w[s.k] = s.v
				case "delete":
					m.Delete(s.k)
					delete(w, s.k)
				case "lad":
					a, b := m.LoadAndDelete(s.k)
					delete(w, s.k)
					got, want = fmt.Sprint(a, b), fmt.Sprint(old, had)
				case "los":
					a, b := m.LoadOrStore(s.k, s.v)
					if !had {
						w[s.k] = s.v
						old = s.v
					}
					got, want = fmt.Sprint(a, b), fmt.Sprint(old, had)
				case "gos":
					a := m.GetOrStore(s.k, s.v)
					if !had {
						w[s.k] = s.v
						old = s.v
					}
					got, want = fmt.Sprint(a), fmt.Sprint(old)
				}
				if got != want {
					vfail(t, "history %v, step %d returns %s, want %s", h, i, got, want)
				}
			}
			if m.IsEmpty() != (len(w) == 0) {
				vfail(t, "history %v: IsEmpty() = %v with %d entries", h, m.IsEmpty(), len(w))
			}
			if x := m.Map(); fmt.Sprint(x) != fmt.Sprint(w) {
				vfail(t, "history %v: Map() = %v, want %v", h, x, w)
			}
			for stop := 1; stop <= len(w)+1; stop++ {
				n, e := 0, errors.New("stop")
				seen := map[any]any{}
				err := m.RangeErr(func(k, v any) error {
					n++
					seen[k] = v
					if x, ok := w[k]; !ok || x != v {
						vfail(t, "history %v: RangeErr visits %v %v", h, k, v)
					}
					if n == stop {
						return e
					}
					return nil
				})
				if wn := vmin(stop, len(w)); n != wn || len(seen) != wn || (err == e) != (stop <= len(w)) || err != nil && err != e {
					vfail(t, "history %v: RangeErr failing at %d visits %d and returns %v", h, stop, n, err)
				}
				n = 0
				seen = map[any]any{}
				m.Range(func(k, v any) bool {
					n++
					seen[k] = v
					if x, ok := w[k]; !ok || x != v {
						vfail(t, "history %v: Range visits %v %v", h, k, v)
					}
					return n != stop
				})
				if wn := vmin(stop, len(w)); n != wn || len(seen) != wn {
					vfail(t, "history %v: Range stopping at %d visits %d", h, stop, n)
				}
			}
		})
	}
	var rec func(h []step)
	rec = func(h []step) {
		run(h)
		if len(h) < 3 {
			for _, s := range all {
				rec(append(append([]step{}, h...), s))
			}
		}
	}
	rec(nil)
}

func vracers(n int, f func(i int)) {
	var wg gosync.WaitGroup
	start := make(chan struct{})
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) { defer wg.Done(); <-start; f(i) }(i)
	}
	close(start)
	wg.Wait()
}

func TestVerifC01Concurrent(t *testing.T) {
	const N = 8
	for round := 0; round < 20000; round++ {
		var m Map[string, int]
		var got [N]int
		var ld [N]bool
		vracers(N, func(i int) { got[i], ld[i] = m.LoadOrStore("k", i+1) })
		stored := 0
		for i := range got {
			if got[i] != got[0] {
				vfail(t, "%d concurrent LoadOrStore calls on one key return different values: %v", N, got)
			}
			if !ld[i] {
				stored++
			}
		}
		if stored != 1 {
			vfail(t, "%d concurrent LoadOrStore calls on one key: %d report they stored", N, stored)
		}
		vracers(N, func(i int) { _, ld[i] = m.LoadAndDelete("k") })
		n := 0
		for i := range ld {
			if ld[i] {
				n++
			}
		}
		if n != 1 {
			vfail(t, "%d concurrent LoadAndDelete calls on one entry: %d got it", N, n)
		}
		vracers(N, func(i int) { got[i] = m.GetOrStore("k", i+1) })
		for i := range got {
			if got[i] != got[0] || m.Get("k") != got[0] {
				vfail(t, "%d concurrent GetOrStore calls on one key return different values: %v, stored %d", N, got, m.Get("k"))
			}
		}
	}
}

func vmin(a, b int) int {
	if a < b {
		return a
	}
	return b
}
