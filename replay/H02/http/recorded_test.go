package http

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"net"
	"net/http"
	"net/http/httptest"
	"strings"
	"testing"

	"github.com/Aize-Public/forego/utils/prom"
)

// what a client gets: the first final status, 200 if the body comes first or nothing is written
type vwriter struct {
	h     http.Header
	info  []int
	code  int
	body  []byte
	taken int
}

func (w *vwriter) Header() http.Header { return w.h }
func (w *vwriter) WriteHeader(c int) {
	if w.code != 0 {
		return
	}
	if c >= 100 && c <= 199 && c != 101 {
		w.info = append(w.info, c)
		return
	}
	w.code = c
}
func (w *vwriter) Write(b []byte) (int, error) {
	if w.code == 0 {
		w.code = 200
	}
	w.body = append(w.body, b...)
	return len(b), nil
}

type vhijack struct {
	*vwriter
	err error
}

func (w vhijack) Hijack() (net.Conn, *bufio.ReadWriter, error) {
	w.taken++
	return nil, nil, w.err
}

// the codes recorded while f runs
func vrecorded(f func()) []string {
	old := Metrics.Request
	defer func() { Metrics.Request = old }()
	Metrics.Request = &prom.Histogram{Buckets: []float64{1}, Labels: []string{"method", "path", "code"}}
	f()
	var buf bytes.Buffer
	_ = Metrics.Request.Print("verif", &buf)
	var out []string
	for _, l := range strings.Split(buf.String(), "\n") {
		if strings.Contains(l, "_count{") {
			i := strings.Index(l, `code="`)
			l = l[i+6:]
			n := l[strings.LastIndex(l, " ")+1:]
			out = append(out, l[:strings.Index(l, `"`)]+"x"+n)
		}
	}
	return out
}

type vop struct {
	code int // or a body part
	body string
}

func (o vop) String() string {
	if o.code != 0 {
		return fmt.Sprintf("WriteHeader(%d)", o.code)
	}
	return fmt.Sprintf("Write(%q)", o.body)
}

func vserve(ops []vop, hijackable, handled bool) (w *vwriter, rec []string) {
	w = &vwriter{h: http.Header{}}
	h := func(rw http.ResponseWriter, r *http.Request) {
		if _, ok := rw.(http.Hijacker); ok != hijackable {
			panic("taking over the connection is possible: " + fmt.Sprint(ok))
		}
		for _, o := range ops {
			if o.code != 0 {
				rw.WriteHeader(o.code)
			} else {
				_, _ = rw.Write([]byte(o.body))
			}
		}
	}
	s := NewServer(context.Background())
	var target http.Handler
	if handled {
		s.HandleFunc("/verif", h)
		target = s.mux
	} else {
		s.mux.HandleFunc("/verif", h)
		target = s.h
	}
	r := httptest.NewRequest("GET", "/verif", nil)
	var rw http.ResponseWriter = w
	if hijackable {
		rw = vhijack{vwriter: w}
	}
	rec = vrecorded(func() { target.ServeHTTP(rw, r) })
	return w, rec
}

func vexpect(ops []vop) (info []int, code int, body string) {
	for _, o := range ops {
		switch {
		case o.code == 0:
			if code == 0 {
				code = 200
			}
			body += o.body
		case code != 0:
		case o.code >= 100 && o.code <= 199 && o.code != 101:
			info = append(info, o.code)
		default:
			code = o.code
		}
	}
	if code == 0 {
		code = 200
	}
	return info, code, body
}

func TestVerifRecorded(t *testing.T) {
	all := []vop{{code: 103}, {code: 200}, {code: 204}, {code: 404}, {code: 500}, {code: 101}, {body: "ab"}, {body: ""}}
	var seqs [][]vop
	seqs = append(seqs, nil)
	for _, a := range all {
		seqs = append(seqs, []vop{a})
		for _, b := range all {
			seqs = append(seqs, []vop{a, b})
			for _, c := range all {
				seqs = append(seqs, []vop{a, b, c})
			}
		}
	}
	seqs = append(seqs, []vop{{code: 100}, {code: 102}, {code: 103}, {code: 199}, {code: 201}, {body: "x"}, {code: 500}, {body: "y"}, {body: "z"}})
	for i, ops := range seqs {
		for m := 0; m < 4; m++ {
			if i > 200 && (i+m)%4 != 0 {
				continue
			}
			in := fmt.Sprintf("ops %v hijackable=%v registered=%v", ops, m&1 != 0, m&2 != 0)
			vnopanic(t, in, func() {
				w, rec := vserve(ops, m&1 != 0, m&2 != 0)
				info, code, body := vexpect(ops)
				sent := w.code
				if sent == 0 {
					sent = 200
				}
				if sent != code || fmt.Sprint(w.info) != fmt.Sprint(info) || string(w.body) != body {
					vfail(t, "%s: the client got %v %d %q, want %v %d %q", in, w.info, sent, w.body, info, code, body)
				}
				if len(rec) != 1 || rec[0] != fmt.Sprintf("%dx1", sent) {
					vfail(t, "%s: recorded %v, sent %d", in, rec, sent)
				}
			})
		}
	}
}

func TestVerifTaken(t *testing.T) {
	for m := 0; m < 4; m++ {
		w := &vwriter{h: http.Header{}}
		var herr error
		if m&1 != 0 {
			herr = errors.New("no")
		}
		var got error
		h := func(rw http.ResponseWriter, r *http.Request) {
			_, _, got = rw.(http.Hijacker).Hijack()
			if got != nil {
				rw.WriteHeader(502)
			}
		}
		s := NewServer(context.Background())
		var target http.Handler = s.h
		if m&2 != 0 {
			s.HandleFunc("/verif", h)
			target = s.mux
		} else {
			s.mux.HandleFunc("/verif", h)
		}
		var rec []string
		in := fmt.Sprintf("taking over, error %v, registered %v", herr, m&2 != 0)
		vnopanic(t, in, func() {
			rec = vrecorded(func() { target.ServeHTTP(vhijack{w, herr}, httptest.NewRequest("GET", "/verif", nil)) })
		})
		if w.taken != 1 || got != herr {
			vfail(t, "%s: taken %d times, reported %v", in, w.taken, got)
		}
		want := "101x1"
		if herr != nil {
			want = "502x1"
		}
		if len(rec) != 1 || rec[0] != want {
			vfail(t, "%s: recorded %v, want %s", in, rec, want)
		}
	}
}
