package ctx

import (
	"context"
	"testing"
	"time"
)

type vKey struct{ n int }

func TestVerifX03(t *testing.T) {
	check := func(what string, p, d C) {
		for _, k := range []any{vKey{1}, vKey{2}, vKey{3}, "s", 7} {
			if d.Value(k) != p.Value(k) {
				vfail(t, "%s: Value(%v) = %v, the parent has %v", what, k, d.Value(k), p.Value(k))
			}
		}
		if dl, ok := d.Deadline(); ok || !dl.IsZero() {
			vfail(t, "%s: the detached context has a deadline %v", what, dl)
		}
		if d.Err() != nil {
			vfail(t, "%s: the detached context reports %v", what, d.Err())
		}
		select {
		case <-d.Done():
			vfail(t, "%s: the detached context is done", what)
		default:
		}
	}
	base := context.WithValue(context.WithValue(context.Background(), vKey{1}, 1), "s", "x")
	for name, mk := range map[string]func(context.Context) (context.Context, func()){
		"plain":  func(c context.Context) (context.Context, func()) { return c, func() {} },
		"cancel": func(c context.Context) (context.Context, func()) { x, f := context.WithCancel(c); return x, f },
		"deadline": func(c context.Context) (context.Context, func()) {
			x, f := context.WithDeadline(c, time.Now().Add(time.Hour))
			return x, f
		},
		"expired": func(c context.Context) (context.Context, func()) {
			x, f := context.WithDeadline(c, time.Now().Add(-time.Hour))
			return x, f
		},
	} {
		vnopanic(t, name, func() {
			p, f := mk(base)
			p = context.WithValue(p, vKey{2}, name)
			d := Detach(p)
			check(name, p, d)
			check(name+", derived", context.WithValue(p, vKey{3}, 1), context.WithValue(d, vKey{3}, 1))
			dd := Detach(d)
			check(name+", twice", p, dd)
			f()
			check(name+", after cancel", p, d)
			check(name+", twice, after cancel", p, dd)
			check(name+", detached after cancel", p, Detach(p))
			f()
		})
	}
}
