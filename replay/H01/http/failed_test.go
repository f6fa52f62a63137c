package http

import (
	"bytes"
	"compress/gzip"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"strings"
	"testing"

	"github.com/Aize-Public/forego/ctx"
)

type vbroken struct{}

func (vbroken) Read([]byte) (int, error) { return 0, errors.New("secret: broken pipe") }

type vcase struct {
	name string
	err  error
	code int // 0: no http error in the chain
}

func vcases() []vcase {
	c := context.Background()
	var out []vcase
	base := []vcase{{"plain", errors.New("secret text"), 0}}
	for _, code := range []int{200, 400, 401, 404, 418, 499, 500, 501, 502, 503, 504, 511, 599, 600, 999} {
		base = append(base, vcase{fmt.Sprint("code ", code), Error{code, errors.New("secret text")}, code}, vcase{fmt.Sprint("NewErrorf ", code), NewErrorf(c, code, "secret %s", "text"), code})
	}
	base = append(base, vcase{"no inner error", Error{Code: 404}, 404}, vcase{"503, no inner error", Error{Code: 503}, 503})
	for _, b := range base {
		out = append(out, b,
			vcase{b.name + " in an error with context", ctx.WrapError(c, b.err), b.code},
			vcase{b.name + " wrapped", fmt.Errorf("outer: %w", b.err), b.code},
			vcase{b.name + " wrapped twice", ctx.NewErrorf(c, "more: %w", fmt.Errorf("outer: %w", b.err)), b.code},
			vcase{b.name + " in 409", Error{409, b.err}, 409},
			vcase{b.name + " in 502", fmt.Errorf("w: %w", Error{502, b.err}), 502},
		)
	}
	return out
}

func TestVerifFailed(t *testing.T) {
	c := ctx.WithTracking(context.Background(), "the-tracking-id")
	for _, cs := range vcases() {
		for _, out := range [][]byte{nil, []byte("partial secret")} {
			in := fmt.Sprintf("handler returns %q and error %s", out, cs.name)
			s := NewServer(context.Background())
			asked := 0
			s.handleRequest("/verif", func(ctx.C, []byte, *http.Request) ([]byte, error) { asked++; return out, cs.err })
			w := httptest.NewRecorder()
			vnopanic(t, in, func() {
				s.mux.ServeHTTP(w, httptest.NewRequest("POST", "/verif", strings.NewReader("x")).WithContext(c))
			})
			want := cs.code
			if want == 0 {
				want = 500
			}
			if w.Code != want || asked != 1 {
				vfail(t, "%s: status %d, want %d (asked %d times)", in, w.Code, want, asked)
			}
			var m map[string]any
			if err := json.Unmarshal(w.Body.Bytes(), &m); err != nil {
				vfail(t, "%s: body %q: %v", in, w.Body, err)
			}
			if m["tracking"] != "the-tracking-id" {
				vfail(t, "%s: no tracking id in %q", in, w.Body)
			}
			if _, has := m["error"]; has != (want < 500) || len(m) > 2 {
				vfail(t, "%s: status %d, body %q", in, want, w.Body)
			}
			if want >= 500 && strings.Contains(w.Body.String(), "secret") {
				vfail(t, "%s: status %d, body %q", in, want, w.Body)
			}
			if want < 500 && m["error"] != cs.err.Error() {
				vfail(t, "%s: body %q, want the text %q", in, w.Body, cs.err)
			}
			if code := ErrorCode(cs.err, 77); code != cs.code && !(cs.code == 0 && code == 77) {
				vfail(t, "ErrorCode of %s = %d, want %d", cs.name, code, cs.code)
			}

			w = httptest.NewRecorder()
			CallHandler{Path: "/call", Handler: func(c ctx.C, call *Call) error {
				call.Write(out)
				return cs.err
			}}.Register(s)
			vnopanic(t, in+" (call)", func() { s.mux.ServeHTTP(w, httptest.NewRequest("POST", "/call", nil).WithContext(c)) })
			if w.Code != want || w.Body.Len() != 0 {
				vfail(t, "%s (call): status %d body %q, want %d and nothing", in, w.Code, w.Body, want)
			}
		}
	}
}

func TestVerifUnread(t *testing.T) {
	s := NewServer(context.Background())
	s.handleRequest("/verif", func(ctx.C, []byte, *http.Request) ([]byte, error) {
		vfail(t, "the handler runs although the body could not be read")
		return nil, nil
	})
	CallHandler{Path: "/call", Handler: func(ctx.C, *Call) error {
		vfail(t, "the call handler runs although the body could not be read")
		return nil
	}}.Register(s)
	for _, p := range []string{"/verif", "/call"} {
		w := httptest.NewRecorder()
		vnopanic(t, "unreadable body", func() { s.mux.ServeHTTP(w, httptest.NewRequest("POST", p, vbroken{})) })
		if w.Code != 400 {
			vfail(t, "unreadable body, %s: status %d", p, w.Code)
		}
	}
}

func TestVerifSucceeded(t *testing.T) {
	for _, n := range []int{-1, 0, 1, 100, 16*1024 - 1, 16 * 1024, 16*1024 + 1, 100000} {
		for _, accept := range []string{"", "gzip", "deflate, gzip;q=1.0, br", "br", "identity"} {
			for _, other := range []string{"", "gzip"} {
				in := fmt.Sprintf("%d bytes, Accept-Encoding %q, Accept and Content-Encoding %q", n, accept, other)
				var out []byte
				if n >= 0 {
					out = make([]byte, n)
					for i := range out {
						out[i] = byte(i * 7 / 3)
					}
				}
				want := append([]byte{}, out...)
				s := NewServer(context.Background())
				s.handleRequest("/verif", func(ctx.C, []byte, *http.Request) ([]byte, error) { return out, nil })
				CallHandler{Path: "/call", Handler: func(c ctx.C, call *Call) error { call.Write(out); return nil }}.Register(s)
				for _, p := range []string{"/verif", "/call"} {
					w := httptest.NewRecorder()
					r := httptest.NewRequest("POST", p, nil)
					if accept != "" {
						r.Header.Set("Accept-Encoding", accept)
					}
					if other != "" {
						r.Header.Set("Accept", other)
						r.Header.Set("Content-Encoding", other)
					}
					vnopanic(t, in, func() { s.mux.ServeHTTP(w, r) })
					got, enc := w.Body.Bytes(), w.Header().Get("Content-Encoding")
					if enc == "gzip" {
						if !strings.Contains(accept, "gzip") {
							vfail(t, "%s %s: compressed", p, in)
						}
						z, err := gzip.NewReader(bytes.NewReader(got))
						if err == nil {
							got, err = io.ReadAll(z)
						}
						if err != nil {
							vfail(t, "%s %s: %v", p, in, err)
						}
					} else if enc != "" {
						vfail(t, "%s %s: Content-Encoding %q", p, in, enc)
					}
					code := 200
					if n <= 0 {
						code = 204
					}
					if w.Code != code || !bytes.Equal(got, want) {
						vfail(t, "%s %s: status %d, %d bytes", p, in, w.Code, len(got))
					}
				}
			}
		}
	}
}
