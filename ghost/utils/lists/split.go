package lists

// ghost client of Split: reads the groups one after the other and counts; the
// contract attached to it says that no element is out of place and none is missing
func ghostSplitRead[T any](in []T, limit int) (n int) {
	groups := Split(in, limit)
	for _, g := range groups {
		for k := range g {
			if any(g[k]) != any(in[n+k]) {
				panic("element out of place")
			}
		}
		if len(g) > limit {
			panic("group too large")
		}
		n += len(g)
	}
	return n
}
