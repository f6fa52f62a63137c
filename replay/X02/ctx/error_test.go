package ctx

import (
	"context"
	"errors"
	"fmt"
	"io"
	"testing"
)

type vErr struct{ err error }

func (e *vErr) Error() string { return "v(" + e.err.Error() + ")" }
func (e *vErr) Unwrap() error { return e.err }

type vIs struct{ n int }

func (e vIs) Error() string        { return fmt.Sprint("is ", e.n) }
func (e vIs) Is(target error) bool { return target == io.ErrNoProgress }

type vMany []error

func (m vMany) Error() string   { return "many" }
func (m vMany) Unwrap() []error { return m }

func vhas(err error) bool {
	var a Error
	var b *Error
	return errors.As(err, &a) || errors.As(err, &b)
}

func TestVerifX02(t *testing.T) {
	c, d := TODO(), C(context.WithValue(TODO(), "x", 1))
	if WrapError(c, nil) != nil {
		vfail(t, "WrapError(nil) is not nil")
	}
	base := []error{io.EOF, &vErr{io.EOF}, vIs{3}, fmt.Errorf("a: %w", &vErr{vIs{1}}), &vErr{&vErr{io.EOF}}, vMany{io.EOF, vIs{2}}}
	all := append([]error{}, base...)
	for _, e := range base {
		for _, w := range []error{Error{Err: e, Stack: []string{"s"}, C: c}, &Error{Err: e, Stack: []string{"s"}, C: c}} {
			all = append(all, w, fmt.Errorf("x: %w", w), &vErr{fmt.Errorf("y: %w", w)}, vMany{io.ErrClosedPipe, w})
		}
	}
	targets := []error{io.EOF, io.ErrNoProgress, io.ErrClosedPipe, vIs{1}, vIs{2}, vIs{3}}
	for _, e := range all {
		e := e
		name := fmt.Sprintf("%T %v", e, e)
		targets := append(append([]error{}, targets...))
		if _, ok := e.(vMany); !ok {
			if _, ok := e.(Error); !ok {
				targets = append(targets, e)
			}
		}
		vnopanic(t, name, func() {
			w := WrapError(d, e)
			if w.Error() != e.Error() {
				vfail(t, "WrapError of %s says %q", name, w.Error())
			}
			for _, x := range targets {
				if errors.Is(w, x) != errors.Is(e, x) {
					vfail(t, "errors.Is(WrapError(%s), %v) = %v", name, x, errors.Is(w, x))
				}
			}
			if vhas(e) {
				if fmt.Sprintf("%T %p", w, w) != fmt.Sprintf("%T %p", e, e) {
					vfail(t, "WrapError wraps %s, which already has a stack", name)
				}
				if ew, ok := w.(Error); ok && ew.C != c {
					vfail(t, "WrapError changes the context of %s", name)
				}
			} else {
				ew, ok := w.(Error)
				if !ok || ew.C != d || len(ew.Stack) == 0 {
					vfail(t, "WrapError of %s gives %#v", name, w)
				}
				if u := errors.Unwrap(w); fmt.Sprintf("%T %p", u, u) != fmt.Sprintf("%T %p", e, e) {
					vfail(t, "the error made by WrapError from %s unwraps to %T %v", name, u, u)
				}
				var v *vErr
				if errors.As(w, &v) != errors.As(e, &v) {
					vfail(t, "errors.As of WrapError(%s)", name)
				}
				if _, ok := WrapError(c, w).(Error); !ok || WrapError(c, w).(Error).C != d {
					vfail(t, "WrapError twice of %s", name)
				}
			}
			n := NewErrorf(d, "m%d: %w", 5, e)
			if n.Error() != "m5: "+e.Error() || !vhas(n) {
				vfail(t, "NewErrorf of %s gives %v", name, n)
			}
			for _, x := range targets {
				if errors.Is(n, x) != errors.Is(e, x) {
					vfail(t, "errors.Is(NewErrorf(%s), %v) = %v", name, x, errors.Is(n, x))
				}
			}
			if _, ok := n.(Error); ok == vhas(e) {
				vfail(t, "NewErrorf of %s gives a %T", name, n)
			}
		})
	}
}
