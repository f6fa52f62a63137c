package http

import "github.com/Aize-Public/forego/ctx"

import "net/http"

// a request handled by a request handler
func ghostRequest(s *Server, path string, f func(c ctx.C, in []byte, r *http.Request) ([]byte, error)) {
	s.handleRequest(path, f)
}

// a request handled by a call handler
func ghostCall(s *Server, h CallHandler) { h.Register(s) }
