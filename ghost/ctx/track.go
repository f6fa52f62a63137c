package ctx

// the id of a context with a tracking id, and of a context derived from it
func ghostDerived(c C, suggest string, key, val any, tag string, tv []byte) (id, below string) {
	t := WithTracking(c, suggest)
	id = GetTracking(t)
	d, _ := WithCancel(WithTag(WithValue(t, key, val), tag, JSON(tv)))
	below = GetTracking(d)
	return
}

// a tracking id below another
func ghostNext(c C, first, second string) (outer, inner string) {
	t := WithTracking(c, first)
	u := WithTracking(WithTag(t, "k", 1), second)
	return GetTracking(t), GetTracking(u)
}

// two children, one after the other
func ghostSpans(c C, suggest string) (a, b string, p C) {
	p = WithTracking(c, suggest)
	x, _ := Span(p, "x")
	y, _ := Span(p, "y")
	return GetTracking(x), GetTracking(y), p
}

// one more child of a parent that other goroutines use at the same time
func ghostSpan(p C) (id string) {
	x, _ := Span(p, "x")
	return GetTracking(x)
}
