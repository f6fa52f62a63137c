package lists

import (
	"fmt"
	"testing"
)

func TestVerifL02(t *testing.T) {
	var rec func(in []int)
	rec = func(in []int) {
		before := append([]int{}, in...)
		same := func(a []int, b []int) bool { return fmt.Sprint(a) == fmt.Sprint(b) }
		for x := 0; x < 4; x++ {
			has := false
			for _, e := range before {
				has = has || e == x
			}
			if r := Contains(in, x); r != has {
				vfail(t, "Contains(%v, %d) = %v", before, x, r)
			}
			back := make([]int, len(in), len(in)+2)
			copy(back, in)
			r := AddUnique(back, x)
			want := append([]int{}, before...)
			if !has {
				want = append(want, x)
			}
			if !same(r, want) || !same(back, before) {
				vfail(t, "AddUnique(%v, %d) = %v", before, x, r)
			}
			nocap := append([]int{}, before...)
			if r := AddUnique(nocap[:len(nocap):len(nocap)], x); !same(r, want) || !same(nocap, before) {
				vfail(t, "AddUnique(%v, %d) = %v", before, x, r)
			}
		}
		c := Copy(in)
		if !same(c, before) || len(c) != len(before) {
			vfail(t, "Copy(%v) = %v", before, c)
		}
		for i := range c {
			c[i] = -5
		}
		if !same(in, before) {
			vfail(t, "Copy(%v) shares storage", before)
		}
		pad := make([]int, len(in)+4)
		for i := range pad {
			pad[i] = -9
		}
		copy(pad[2:], in)
		Reverse(pad[2 : 2+len(in)])
		for i := range pad {
			w := -9
			if i >= 2 && i < 2+len(in) {
				w = before[len(in)-1-(i-2)]
			}
			if pad[i] != w {
				vfail(t, "Reverse(%v) gives %v (buffer %v)", before, pad[2:2+len(in)], pad)
			}
		}
		if !same(in, before) {
			vfail(t, "the input %v was changed to %v", before, in)
		}
		if len(in) < 5 {
			for x := 0; x < 3; x++ {
				rec(append(append([]int{}, in...), x))
			}
		}
	}
	rec(nil)
	for n := 6; n < 40; n++ {
		in := make([]int, n)
		for i := range in {
			in[i] = i
		}
		Reverse(in)
		for i := range in {
			if in[i] != n-1-i {
				vfail(t, "Reverse(0..%d) = %v", n-1, in)
			}
		}
	}
}
