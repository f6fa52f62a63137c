package lists

import (
	"fmt"
	"testing"
)

func TestVerifL01(t *testing.T) {
	for n := 0; n <= 40; n++ {
		for extra := 0; extra <= 3; extra += 3 {
			back := make([]int, n+extra)
			for i := range back {
				back[i] = i + 1
			}
			in := back[:n]
			for m := -2; m <= n+3; m++ {
				what := fmt.Sprintf("Split(1..%d, %d)", n, m)
				var out [][]int
				r := vpanics(func() { out = Split(in, m) })
				if m <= 0 {
					if r == nil {
						vfail(t, "%s = %v: a non-positive limit is not refused", what, out)
					}
					continue
				}
				if r != nil {
					vfail(t, "%s panics: %v", what, r)
				}
				k := 0
				for _, g := range out {
					if len(g) > m {
						vfail(t, "%s = %v: a group is over the limit", what, out)
					}
					for _, x := range g {
						if k >= n || x != k+1 {
							vfail(t, "%s = %v: not the same elements in order", what, out)
						}
						k++
					}
				}
				if k != n {
					vfail(t, "%s = %v: elements lost", what, out)
				}
				if n <= m && len(out) != 1 {
					vfail(t, "%s = %v: want one group", what, out)
				}
				for i := range back {
					if back[i] != i+1 {
						vfail(t, "%s wrote to the input", what)
					}
				}
			}
		}
	}
	var rec func(in [][]int, depth int)
	rec = func(in [][]int, depth int) {
		var want []int
		for _, g := range in {
			for _, x := range g {
				want = append(want, x)
			}
		}
		before := fmt.Sprint(in)
		out := Flatten(in)
		if fmt.Sprint(out) != fmt.Sprint(want) || fmt.Sprint(in) != before {
			vfail(t, "Flatten(%s) = %v", before, out)
		}
		for _, g := range in {
			if full := g[:cap(g)]; len(full) > len(g) && full[len(g)] != -7 {
				vfail(t, "Flatten(%s) wrote to the input's spare capacity", before)
			}
		}
		if depth == 0 {
			return
		}
		for l := 0; l <= 2; l++ {
			g := make([]int, l+2)
			for i := range g {
				g[i] = 10*depth + i
			}
			g[l] = -7
			rec(append(append([][]int{}, in...), g[:l]), depth-1)
		}
		rec(append(append([][]int{}, in...), nil), depth-1)
	}
	rec(nil, 4)
}
