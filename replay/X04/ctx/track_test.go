package ctx

import (
	"context"
	"strings"
	"sync"
	"testing"
)

func TestVerifX04(t *testing.T) {
	bg := context.Background()
	if id := GetTracking(bg); id != "" {
		vfail(t, "GetTracking(background) = %q", id)
	}
	fresh := map[string]bool{}
	for i := 0; i < 10; i++ {
		id := GetTracking(WithTracking(bg, ""))
		if id == "" || fresh[id] {
			vfail(t, "WithTracking(background, \"\"): id %q, after %v", id, fresh)
		}
		fresh[id] = true
	}
	for _, id := range []string{"a", "a.1", "x y", "é", strings.Repeat("z", 1000)} {
		p := WithTracking(bg, id)
		check := func(what string, c C, exp string) {
			t.Helper()
			if g := GetTracking(c); g != exp {
				vfail(t, "id of %s of a context tracked as %q: %q, expected %q", what, id, g, exp)
			}
		}
		check("itself", p, id)
		check("a value", WithValue(p, "k", 1), id)
		check("a tag", WithTag(p, "k", 1), id)
		cc, cf := WithCancel(WithTag(WithValue(p, "k", 1), "t", 2))
		check("a cancellable tag", cc, id)
		cf(nil)
		check("a cancelled one", cc, id)
		q := WithTracking(cc, "other")
		check("a context tracked below", q, "other")
		check("itself, after one was tracked below", p, id)
		tag := ""
		_ = RangeTag(q, func(k string, j JSON) error {
			if k == "tracking-id" {
				tag += string(j) + ";"
			}
			return nil
		})
		if !strings.HasSuffix(tag, `"other";`) {
			vfail(t, "the tags of a context tracked as \"other\" below %q are %s", id, tag)
		}
	}
	for round := 0; round < 20; round++ {
		p := WithTracking(bg, "p")
		seen := map[string]string{}
		var m sync.Mutex
		add := func(id, how string) {
			m.Lock()
			defer m.Unlock()
			if o, ok := seen[id]; ok {
				vfail(t, "two children of \"p\" have the id %q (%s, %s)", id, o, how)
			}
			if !strings.HasPrefix(id, "p.") || len(id) < 3 {
				vfail(t, "a child of \"p\" has the id %q", id)
			}
			seen[id] = how
		}
		one := func(c C, how string) {
			s, cf := Span(c, "s")
			add(GetTracking(s), how)
			x, cf2 := Span(s, "t")
			if g, e := GetTracking(x), GetTracking(s)+"."; !strings.HasPrefix(g, e) {
				vfail(t, "a child of %q has the id %q", GetTracking(s), g)
			}
			cf2(nil)
			cf(nil)
		}
		one(p, "first")
		one(p, "second")
		one(WithTag(p, "k", 1), "below a tag")
		d, cf := WithCancel(p)
		one(d, "below a cancellable context")
		cf(nil)
		var wg sync.WaitGroup
		gate := make(chan int)
		for g := 0; g < 50; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-gate
				for i := 0; i < 10; i++ {
					one(p, "concurrent")
				}
			}()
		}
		close(gate)
		wg.Wait()
	}
	a, cf := Span(bg, "s")
	b, cf2 := Span(bg, "s")
	if x, y := GetTracking(a), GetTracking(b); x == "" || x == y {
		vfail(t, "spans of an untracked context: %q, %q", x, y)
	}
	cf(nil)
	cf2(nil)
}
