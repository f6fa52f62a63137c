package utils

import (
	"errors"
	"fmt"
	"io"
	"testing"
)

type vmulti []error

func (m vmulti) Error() string   { return "multi" }
func (m vmulti) Unwrap() []error { return m }

func TestVerifU02(t *testing.T) {
	own := errors.New("own")
	for name, f := range map[string]func(error) error{
		"nil":                  func(err error) error { return nil },
		"the marker":           func(err error) error { return err },
		"the marker wrapped":   func(err error) error { return fmt.Errorf("a: %w", err) },
		"wrapped twice":        func(err error) error { return fmt.Errorf("b: %w", fmt.Errorf("a: %w", err)) },
		"wrapped three times":  func(err error) error { return fmt.Errorf("c: %w", fmt.Errorf("b: %w", fmt.Errorf("a: %w", err))) },
		"one of several":       func(err error) error { return vmulti{own, err} },
		"one of several below": func(err error) error { return fmt.Errorf("x: %w", vmulti{own, fmt.Errorf("y: %w", err)}) },
	} {
		n := 0
		vnopanic(t, name, func() {
			if r := ErrorGate(func(err error) error {
				n++
				if err == nil {
					vfail(t, "ErrorGate passes a nil marker")
				}
				return f(err)
			}); r != nil {
				vfail(t, "ErrorGate of a function that returns %s: %v, expected nil", name, r)
			}
		})
		if n != 1 {
			vfail(t, "ErrorGate calls the function %d times", n)
		}
	}
	var marker error
	_ = ErrorGate(func(err error) error { marker = err; return nil })
	for _, e := range []error{own, io.EOF, EOD{}, fmt.Errorf("a: %w", own), vmulti{own, io.EOF}, errors.New(marker.Error()), fmt.Errorf("%v", marker)} {
		vnopanic(t, fmt.Sprint(e), func() {
			r := ErrorGate(func(err error) error { return e })
			if fmt.Sprintf("%T %v", r, r) != fmt.Sprintf("%T %v", e, e) {
				vfail(t, "ErrorGate of a function that returns %T %q: %v", e, e, r)
			}
		})
	}
}
