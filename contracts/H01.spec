prop H01
pkg http
ghost http/serve.go
ghost http/request.go

func ErrorCode(err, def)
  ensures @first result == ite(erras(err, Error), errasval(err, Error).Code, def)
  ensures @frame onlymodifies(nothing)

func ghostRequest(s, path, f)
  requires ghostNow.w != nil && ghostNow.r != nil && s != nil && s.mux != nil && f != nil
  stub net/http:(*ServeMux).HandleFunc ghostMuxHandle
  opaque encoding/json:Marshal
  opaque io:ReadAll
  opaque compress/gzip:NewWriter
  opaque compress/gzip:(*Writer).Write
  opaque compress/gzip:(*Writer).Close
  opaque net/http:(Header).Get
  opaque net/http:(Header).Add
  opaque ctx:GetTracking
  opaque ctx:WithTag
  opaque utils:Stack
  let w = ghostNow.w
  let r = ghostNow.r
  let unread = r.Body != nil && ret("io:ReadAll", 0, 1) != nil
  let err = ret(f, 0, 1)
  let out = ret(f, 0, 0)
  let code = ite(erras(err, Error), errasval(err, Error).Code, 500)
  let told = unbox(arg("encoding/json:Marshal", 0, 0), map[string]any)
  ensures @asked calls(f) == ite(unread, 0, 1)
  ensures @one-status calls(w.WriteHeader) <= 1 && forall(j, 0, writes(w), imp(calls(w.WriteHeader) == 1, at(w.WriteHeader, 0) < writeat(w, j)))
  ensures @its-code imp(!unread && err != nil, calls(w.WriteHeader) == 1 && arg(w.WriteHeader, 0, 0) == code)
  ensures @unread imp(unread, calls(w.WriteHeader) == 1 && arg(w.WriteHeader, 0, 0) == 400)
  ensures @body imp(!unread && err != nil, writes(w) == 1 && calls("encoding/json:Marshal") == 1 && written(w, 0) == bytes2str(ret("encoding/json:Marshal", 0, 0)))
  ensures @no-leak imp(!unread && err != nil && code >= 500, forallT(k, string, has(told, k) == (k == "tracking")))
  ensures @told imp(!unread && err != nil && code < 500, forallT(k, string, has(told, k) == (k == "tracking" || k == "error")))
  ensures @empty imp(!unread && err == nil && len(out) == 0, calls(w.WriteHeader) == 1 && arg(w.WriteHeader, 0, 0) == 204 && writes(w) == 0)
  let ok = !unread && err == nil && len(out) > 0
  let accept = ret("net/http:(Header).Get", 0, 0)
  ensures @plain imp(ok && calls("compress/gzip:NewWriter") == 0, writes(w) == 1 && written(w, 0) == old(bytes2str(out)) && calls(w.WriteHeader) == 0 && forall(j, 0, calls("net/http:(Header).Add"), arg("net/http:(Header).Add", j, 1) != "Content-Encoding"))
  ensures @compressed imp(ok && calls("compress/gzip:NewWriter") > 0, arg("net/http:(Header).Get", 0, 0) == r.Header && arg("net/http:(Header).Get", 0, 1) == "Accept-Encoding" && contains(accept, "gzip") && calls("compress/gzip:NewWriter") == 1 && arg("compress/gzip:NewWriter", 0, 0) == w && calls(w.WriteHeader) == 0)
  ensures @compressed-whole imp(ok && calls("compress/gzip:NewWriter") > 0, calls("compress/gzip:(*Writer).Write") == 1 && arg("compress/gzip:(*Writer).Write", 0, 0) == ret("compress/gzip:NewWriter", 0, 0) && arg("compress/gzip:(*Writer).Write", 0, 1) == out && calls("compress/gzip:(*Writer).Close") == 1 && arg("compress/gzip:(*Writer).Close", 0, 0) == ret("compress/gzip:NewWriter", 0, 0) && at("compress/gzip:(*Writer).Write", 0) < at("compress/gzip:(*Writer).Close", 0))
  ensures @announced imp(ok && calls("compress/gzip:NewWriter") > 0, exists(j, 0, calls("net/http:(Header).Add"), arg("net/http:(Header).Add", j, 1) == "Content-Encoding" && arg("net/http:(Header).Add", j, 2) == "gzip" && at("net/http:(Header).Add", j) < at("compress/gzip:(*Writer).Write", 0)))
  ensures @text imp(!unread && err != nil && code < 500, told["error"] == box(errmsg(err)))
  ensures @tracking imp(!unread && err != nil, told["tracking"] == box(ret("ctx:GetTracking", 0, 0)))

func ghostCall(s, h)
  requires ghostNow.w != nil && ghostNow.r != nil && s != nil && s.mux != nil && h.Handler != nil
  stub net/http:(*ServeMux).HandleFunc ghostMuxHandle
  opaque utils:ReadAll
  opaque bytes:(*Buffer).Bytes
  opaque ctx:WithTag
  opaque utils:Stack
  let w = ghostNow.w
  let r = ghostNow.r
  let unread = r.Body != nil && ret("utils:ReadAll", 0, 1) != nil
  let err = ret(h.Handler, 0, 0)
  let out = ret("bytes:(*Buffer).Bytes", 0, 0)
  let code = ite(erras(err, Error), errasval(err, Error).Code, 500)
  ensures @asked calls(h.Handler) == ite(unread, 0, 1)
  ensures @its-code imp(!unread && err != nil, calls(w.WriteHeader) == 1 && arg(w.WriteHeader, 0, 0) == code && writes(w) == 0)
  ensures @unread imp(unread, calls(w.WriteHeader) == 1 && arg(w.WriteHeader, 0, 0) == 400 && writes(w) == 0)
  ensures @empty imp(!unread && err == nil && len(out) == 0, calls(w.WriteHeader) == 1 && arg(w.WriteHeader, 0, 0) == 204 && writes(w) == 0)
  ensures @plain imp(!unread && err == nil && len(out) > 0, calls(w.WriteHeader) == 1 && arg(w.WriteHeader, 0, 0) == 200 && writes(w) == 1 && written(w, 0) == old(bytes2str(out)) && at(w.WriteHeader, 0) < writeat(w, 0))
