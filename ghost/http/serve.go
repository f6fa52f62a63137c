package http

import (
	"net/http"

	"github.com/Aize-Public/forego/ctx"
)

// a request being served: what it is written to, and the handler's choices
type ghostServing struct {
	w    http.ResponseWriter
	r    *http.Request
	more func() bool
	head func() bool
	code func() int
	body func() []byte
}

var ghostNow ghostServing

// a handler that sends any sequence of headers and body parts
func ghostHandler(w http.ResponseWriter, r *http.Request) {
	for ghostNow.more() {
		if ghostNow.head() {
			if code := ghostNow.code(); code >= 100 { // anything else panics in the standard library
				w.WriteHeader(code)
			}
		} else {
			_, _ = w.Write(ghostNow.body())
		}
	}
}

// stands for the dispatch of a request to a handler
func ghostMuxServe(m *http.ServeMux, w http.ResponseWriter, r *http.Request) { ghostHandler(w, r) }

// stands for the registration of a handler: a request arrives
func ghostMuxHandle(m *http.ServeMux, pattern string, handler func(http.ResponseWriter, *http.Request)) {
	handler(ghostNow.w, ghostNow.r)
}
func ghostMuxRegister(m *http.ServeMux, pattern string, handler func(http.ResponseWriter, *http.Request)) {
}

// a request served by a new server
func ghostServer(c ctx.C) {
	s := NewServer(c)
	s.h.ServeHTTP(ghostNow.w, ghostNow.r)
}

// a request served by a handler registered with a server
func ghostHandled(s *Server, path string) {
	s.HandleFunc(path, ghostHandler)
}

// a handler that takes over the connection, if it can
func ghostHijacker(w http.ResponseWriter, r *http.Request) {
	if h, ok := w.(http.Hijacker); ok {
		ghostNow.more()
		_, _, _ = h.Hijack()
	}
}
func ghostMuxHijack(m *http.ServeMux, w http.ResponseWriter, r *http.Request) { ghostHijacker(w, r) }
func ghostTaken(c ctx.C) {
	s := NewServer(c)
	s.h.ServeHTTP(ghostNow.w, ghostNow.r)
}
func ghostHandledTaken(s *Server, path string) {
	s.HandleFunc(path, ghostHijacker)
}
