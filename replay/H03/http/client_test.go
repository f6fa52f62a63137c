package http

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"strings"
	"testing"
)

type vtransport struct {
	code  int
	body  io.ReadCloser
	err   error
	asked []string
}

func (x *vtransport) RoundTrip(r *http.Request) (*http.Response, error) {
	s := r.Method + " " + r.URL.String()
	if r.Body != nil {
		b, _ := io.ReadAll(r.Body)
		s += " " + string(b)
	}
	x.asked = append(x.asked, s)
	if x.err != nil {
		return nil, x.err
	}
	return &http.Response{StatusCode: x.code, Status: fmt.Sprint(x.code, " verif"), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Body: x.body, Request: r}, nil
}

type vcut struct {
	b   []byte
	err error
}

func (x *vcut) Read(p []byte) (int, error) {
	if len(x.b) == 0 {
		return 0, x.err
	}
	n := copy(p, x.b)
	x.b = x.b[n:]
	return n, nil
}
func (x *vcut) Close() error { return nil }

func TestVerifClient(t *testing.T) {
	c := context.Background()
	broken, unplugged := errors.New("broken body"), errors.New("unplugged")
	for code := 200; code <= 599; code++ {
		if code > 208 && code < 226 || code > 226 && code < 300 || code > 308 && code < 400 || code > 451 && code < 500 || code > 511 && code < 599 {
			continue
		}
		for _, bodyErr := range []error{io.EOF, broken} {
			for _, err := range []error{nil, unplugged} {
				for _, m := range []string{"GET", "POST"} {
					in := fmt.Sprintf("%s, status %d, body ends with %v, transport error %v", m, code, bodyErr, err)
					x := &vtransport{code: code, body: &vcut{[]byte("hello"), bodyErr}, err: err}
					cli := Client{cli: http.Client{Transport: x, CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }}}
					var got []byte
					var gotErr error
					want := "GET http://verif.test/x"
					vnopanic(t, in, func() {
						if m == "GET" {
							got, gotErr = cli.Get(c, "http://verif.test/x")
						} else {
							got, gotErr = cli.Post(c, "http://verif.test/x", []byte("question"))
							want = "POST http://verif.test/x question"
						}
					})
					if len(x.asked) != 1 || x.asked[0] != want {
						vfail(t, "%s: sent %v", in, x.asked)
					}
					good := err == nil && (code == 200 || code == 204)
					var e Error
					switch {
					case err != nil:
						if !errors.Is(gotErr, unplugged) {
							vfail(t, "%s: error %v", in, gotErr)
						}
					case !good:
						if !errors.As(gotErr, &e) || e.Code != code {
							vfail(t, "%s: error %v, want one with code %d", in, gotErr, code)
						}
					case bodyErr == io.EOF:
						if gotErr != nil || string(got) != "hello" {
							vfail(t, "%s: %q, %v", in, got, gotErr)
						}
					default:
						if !errors.Is(gotErr, broken) {
							vfail(t, "%s: error %v", in, gotErr)
						}
					}

					x = &vtransport{code: code, body: io.NopCloser(bytes.NewReader([]byte("hello"))), err: err}
					cli.cli.Transport = x
					r, _ := NewRequest(c, m, "http://verif.test/do", strings.NewReader("q"))
					var res *http.Response
					vnopanic(t, in, func() { res, gotErr = cli.Do(r) })
					if (gotErr == nil) != good || good && (res == nil || res.StatusCode != code) {
						vfail(t, "Do, %s: %v, error %v", in, res, gotErr)
					}
					if err == nil && !good && (!errors.As(gotErr, &e) || e.Code != code) {
						vfail(t, "Do, %s: error %v", in, gotErr)
					}
					if err != nil && !errors.Is(gotErr, err) {
						vfail(t, "Do, %s: error %v", in, gotErr)
					}
					if len(x.asked) != 1 || x.asked[0] != m+" http://verif.test/do q" {
						vfail(t, "Do, %s: sent %v", in, x.asked)
					}
				}
			}
		}
	}
}
