package log

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"strings"
	"testing"

	"github.com/Aize-Public/forego/ctx"
)

type vlog struct {
	secret string
	shown  any
}

func (v vlog) LogAs(t *Tags) any { (*t)["seen-"+v.secret] = ctx.JSON(`1`); return v.shown }

type vlogErr struct{ secret string }

func (v *vlogErr) LogAs(t *Tags) any { return "safe" }
func (v *vlogErr) Error() string     { return v.secret }

func TestVerifX06(t *testing.T) {
	tagged := ctx.WithTag(context.Background(), "who", "me")
	plain := errors.New("plain problem")
	stacked := ctx.NewErrorf(tagged, "stacked problem")
	wrapped := fmt.Errorf("outer: %w", stacked)
	vals := []any{"text", 42, nil, RedactedString("SECRET"), vlog{"SECRET", "one"}, vlog{"SECRET", 7}, vlog{"SECRET", plain}, &vlogErr{"SECRET"}, plain, stacked, wrapped, 3.5}
	shown := func(v any) any {
		switch v := v.(type) {
		case RedactedString:
			return "***"
		case vlog:
			return v.shown
		case *vlogErr:
			return "safe"
		}
		return v
	}
	var args []any
	var rec func(n int)
	rec = func(n int) {
		if n > 0 {
			for _, v := range vals {
				args = append(args, v)
				rec(n - 1)
				args = args[:len(args)-1]
			}
			return
		}
		f := strings.Repeat("%v|", len(args))
		var exp []any
		var errs []error
		for _, v := range args {
			exp = append(exp, shown(v))
			if e, ok := v.(error); ok {
				if _, ok := v.(Loggable); !ok {
					errs = append(errs, e)
				}
			}
		}
		in := append([]any{}, args...)
		tags := Tags{"own": ctx.JSON(`1`)}
		var got string
		vnopanic(t, fmt.Sprintf("FormatMsg(%q, %#v)", f, args), func() { got = FormatMsg(context.Background(), &tags, f, in...) })
		if want := fmt.Sprintf(f, exp...); got != want {
			vfail(t, "FormatMsg(%q, %#v) = %q, expected %q", f, args, got, want)
		}
		if !reflect.DeepEqual(in, args) && len(args) > 0 {
			vfail(t, "FormatMsg(%q, %#v) changes its caller's arguments to %#v", f, args, in)
		}
		if string(tags["own"]) != "1" {
			vfail(t, "FormatMsg(%q, %#v) loses a tag", f, args)
		}
		if len(errs) == 0 {
			if tags["error"] != nil {
				vfail(t, "FormatMsg(%q, %#v) without errors has the error tag %s", f, args, tags["error"])
			}
			return
		}
		var l []struct {
			Error string
			Stack []string
			Tags  map[string]any
		}
		if err := json.Unmarshal(tags["error"], &l); err != nil {
			vfail(t, "FormatMsg(%q, %#v): error tag %s: %v", f, args, tags["error"], err)
		}
		for _, e := range errs {
			ok := false
			for _, x := range l {
				ok = ok || x.Error == e.Error() && (e == plain || len(x.Stack) > 0 && x.Tags["who"] == "me")
			}
			if !ok {
				vfail(t, "FormatMsg(%q, %#v): the error %v is not described by the error tag %s", f, args, e, tags["error"])
			}
		}
	}
	for n := 0; n < 4; n++ {
		rec(n)
	}
	var out bytes.Buffer
	c := WithSlogLogger(context.Background(), NewDefaultSlogLogger(&out))
	for i := 0; i < 2; i++ {
		a := []any{RedactedString("SECRET"), &vlogErr{"SECRET"}}
		Infof(c, "hello %s %s", a...)
		if s := out.String(); strings.Contains(s, "SECRET") || !strings.Contains(s, "hello *** safe") {
			vfail(t, "Infof with a redacted string writes %s", s)
		}
		if a[0] != any(RedactedString("SECRET")) {
			vfail(t, "Infof changes its caller's arguments to %#v", a)
		}
	}
}
