package lists

import (
	"fmt"
	"testing"
)

func TestVerifL03(t *testing.T) {
	for n := 0; n <= 7; n++ {
		list := make([]int, n)
		val := make([]int, n) // what the reference says
		right := make([]bool, n)
		for i := range list {
			list[i], val[i] = i, i
		}
		next := Permute(list)
		check := func(what string) bool {
			if fmt.Sprint(list) != fmt.Sprint(val) {
				vfail(t, "Permute of 0..%d, %s: the list is %v, expected %v", n-1, what, list, val)
				return false
			}
			return true
		}
		if !next() {
			vfail(t, "Permute of 0..%d: the first call reports false", n-1)
		}
		if !check("first call") {
			return
		}
		ends := 0
		for step := 2; ends < 3; step++ {
			best := -1
			for i, v := range val {
				j := i - 1
				if right[v] {
					j = i + 1
				}
				if j >= 0 && j < n && val[j] < v && (best < 0 || v > val[best]) {
					best = i
				}
			}
			if best >= 0 {
				v, j := val[best], best-1
				if right[v] {
					j = best + 1
				}
				val[best], val[j] = val[j], val[best]
				for w := v + 1; w < n; w++ {
					right[w] = !right[w]
				}
			} else {
				ends++
			}
			if r := next(); r != (best >= 0) {
				vfail(t, "Permute of 0..%d: call %d reports %v at %v", n-1, step, r, list)
				return
			}
			if !check(fmt.Sprintf("call %d", step)) {
				return
			}
		}
	}
}
