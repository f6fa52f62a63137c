package utils

import (
	"errors"
	"fmt"
	"math/rand"
	"testing"
)

func TestVerifL04(t *testing.T) {
	// all histories of up to 7 operations over 3 keys
	type pair struct{ k, v int }
	var ops []string
	keys := 3
	type model []pair
	check := func(m *OrderedMap[int, int], w model) {
		what := fmt.Sprintf("after %v", ops)
		for k := 0; k <= keys; k++ {
			want := MapEntry[int]{}
			for _, p := range w {
				if p.k == k {
					want = MapEntry[int]{p.v, true}
				}
			}
			if got := m.Get(k); got.Found != want.Found || got.Found && got.Value != want.Value {
				vfail(t, "%s: Get(%d) = %+v, want %+v", what, k, got, want)
			}
		}
		if m.Len() != len(w) {
			vfail(t, "%s: Len() = %d, want %d", what, m.Len(), len(w))
		}
		ks, vs := []int{}, []int{}
		for _, p := range w {
			ks, vs = append(ks, p.k), append(vs, p.v)
		}
		if got := m.Keys(); fmt.Sprint(got) != fmt.Sprint(ks) {
			vfail(t, "%s: Keys() = %v, want %v", what, got, ks)
		}
		if got := m.Values(); fmt.Sprint(got) != fmt.Sprint(vs) {
			vfail(t, "%s: Values() = %v, want %v", what, got, vs)
		}
		for stop := 0; stop <= len(w); stop++ {
			e := errors.New("stop")
			var seen []pair
			err := m.Range(func(k, v int) error {
				seen = append(seen, pair{k, v})
				if len(seen) == stop+1 {
					return e
				}
				return nil
			})
			n, we := len(w), error(nil)
			if stop < len(w) {
				n, we = stop+1, e
			}
			if err != we || fmt.Sprint(seen) != fmt.Sprint([]pair(w[:n])) && !(n == 0 && len(seen) == 0) {
				vfail(t, "%s: Range failing at %d visits %v and returns %v, want %v and %v", what, stop, seen, err, w[:n], we)
			}
		}
	}
	run := func(hist []int) {
		m := NewOrderedMap[int, int]()
		var w model
		ops = nil
		val := 100
		vnopanic(t, fmt.Sprintf("history %v", hist), func() {
			check(m, w)
			for _, h := range hist {
				k := h % keys
				idx := -1
				for i, p := range w {
					if p.k == k {
						idx = i
					}
				}
				var got, want MapEntry[int]
				if idx >= 0 {
					want = MapEntry[int]{w[idx].v, true}
				}
				if h < keys {
					val++
					ops = append(ops, fmt.Sprintf("Put(%d,%d)", k, val))
					got = m.Put(k, val)
					if idx >= 0 {
						w[idx].v = val
					} else {
						w = append(w, pair{k, val})
					}
				} else {
					ops = append(ops, fmt.Sprintf("Delete(%d)", k))
					got = m.Delete(k)
					if idx >= 0 {
						w = append(append(model{}, w[:idx]...), w[idx+1:]...)
					}
				}
				if got.Found != want.Found || got.Found && got.Value != want.Value {
					vfail(t, "%v returns %+v, want %+v", ops, got, want)
				}
				check(m, w)
			}
		})
	}
	var rec func(h []int)
	rec = func(h []int) {
		run(h)
		if len(h) == 6 {
			return
		}
		for o := 0; o < 6; o++ {
			rec(append(append([]int{}, h...), o))
		}
	}
	rec(nil)
	keys = 9
	rnd := rand.New(rand.NewSource(1))
	for n := 0; n < 3000; n++ {
		h := make([]int, 10+rnd.Intn(40))
		phase := rnd.Intn(3)
		for i := range h {
			h[i] = rnd.Intn(2 * keys)
			if phase == 0 && i < 10 { // fill first
				h[i] = i % keys
			}
			if phase == 1 && i > 12 && rnd.Intn(3) > 0 { // mostly delete later
				h[i] = keys + rnd.Intn(keys)
			}
		}
		run(h)
	}
}
