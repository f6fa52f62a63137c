prop H02
pkg http
ghost http/serve.go
note the writer below behaves as the standard library's: the first final status is sent, 200 if the body comes first or nothing is written
note a handler that panics is not described

def informational(n) = 100 <= n && n <= 199 && n != 101
# what the writer w below has been told: n header calls of which only the last can be final
def open(w) = forall(j, 0, calls(w.WriteHeader), informational(arg(w.WriteHeader, j, 0)))
def final(w, code) = calls(w.WriteHeader) >= 1 && arg(w.WriteHeader, calls(w.WriteHeader)-1, 0) == code && !informational(code) && forall(j, 0, calls(w.WriteHeader)-1, informational(arg(w.WriteHeader, j, 0))) && forall(j, 0, writes(w), at(w.WriteHeader, calls(w.WriteHeader)-1) < writeat(w, j))
def told(w, code) = ite(code == 0, open(w) && writes(w) == 0, final(w, code) || open(w) && code == 200 && writes(w) >= 1)

func (*response).WriteHeader(r, code)
  requires r.ResponseWriter != nil && code >= 100
  let w = r.ResponseWriter
  ensures @first-only imp(old(r.code) != 0, calls(w.WriteHeader) == 0 && r.code == old(r.code))
  ensures @passed-on imp(old(r.code) == 0, calls(w.WriteHeader) == 1 && arg(w.WriteHeader, 0, 0) == code && r.code == ite(informational(code), 0, code))
  ensures @no-body writes(w) == 0
  ensures @frame onlymodifies(r.code)

func (*response).Write(r, b)
  requires r.ResponseWriter != nil
  let w = r.ResponseWriter
  ensures @bytes writes(w) == 1 && written(w, 0) == old(bytes2str(b)) && calls(w.WriteHeader) == 0
  ensures @its-error result1 == writeerr(w, 0)
  ensures @implied r.code == ite(old(r.code) == 0, 200, old(r.code))
  ensures @frame onlymodifies(r.code)

func ghostServer(c)
  requires ghostNow.w != nil && ghostNow.r != nil && ghostNow.r.URL != nil && ghostNow.more != nil && ghostNow.head != nil && ghostNow.code != nil && ghostNow.body != nil
  stub net/http:(*ServeMux).ServeHTTP ghostMuxServe
  stub net/http:(*ServeMux).HandleFunc ghostMuxRegister
  opaque http:(metric).observe
  opaque ctx:WithTag
  let w = ghostNow.w
  let m = arg("http:(metric).observe", 0, 0)
  inv @ghost forall(j, 0, calls(w.WriteHeader), at(w.WriteHeader, j) < clk())
  inv @ghost [x: heap int] told(w, x)
  ensures @recorded-once calls("http:(metric).observe") == 1
  ensures @recorded-sent ite(m.Code == 200, told(w, 0) || told(w, 200), told(w, m.Code))

func ghostHandled(s, path)
  requires ghostNow.w != nil && ghostNow.r != nil && ghostNow.r.URL != nil && ghostNow.more != nil && ghostNow.head != nil && ghostNow.code != nil && ghostNow.body != nil
  requires s != nil && s.mux != nil && s.OpenAPI != nil && s.OpenAPI.Paths != nil
  stub net/http:(*ServeMux).HandleFunc ghostMuxHandle
  opaque http:(metric).observe
  opaque ctx:WithTag
  let w = ghostNow.w
  let m = arg("http:(metric).observe", 0, 0)
  inv @ghost forall(j, 0, calls(w.WriteHeader), at(w.WriteHeader, j) < clk())
  inv @ghost [x: heap int] told(w, x)
  ensures @recorded-once calls("http:(metric).observe") == 1
  ensures @recorded-sent ite(m.Code == 200, told(w, 0) || told(w, 200), told(w, m.Code))

func ghostTaken(c)
  requires ghostNow.w != nil && ghostNow.r != nil && ghostNow.r.URL != nil && ghostNow.more != nil
  stub net/http:(*ServeMux).ServeHTTP ghostMuxHijack
  stub net/http:(*ServeMux).HandleFunc ghostMuxRegister
  opaque http:(metric).observe
  opaque ctx:WithTag
  let w = ghostNow.w
  let h = unbox(w, http.Hijacker)
  ensures @possible calls(ghostNow.more) == ite(typeis(w, http.Hijacker), 1, 0)
  ensures @by-the-writer imp(typeis(w, http.Hijacker), calls(h.Hijack) == 1)
  ensures @recorded imp(typeis(w, http.Hijacker) && ret(h.Hijack, 0, 2) == nil, arg("http:(metric).observe", 0, 0).Code == 101)

func ghostHandledTaken(s, path)
  requires ghostNow.w != nil && ghostNow.r != nil && ghostNow.r.URL != nil && ghostNow.more != nil
  requires s != nil && s.mux != nil && s.OpenAPI != nil && s.OpenAPI.Paths != nil
  stub net/http:(*ServeMux).HandleFunc ghostMuxHandle
  opaque http:(metric).observe
  opaque ctx:WithTag
  let w = ghostNow.w
  let h = unbox(w, http.Hijacker)
  ensures @possible calls(ghostNow.more) == ite(typeis(w, http.Hijacker), 1, 0)
  ensures @by-the-writer imp(typeis(w, http.Hijacker), calls(h.Hijack) == 1)
  ensures @recorded imp(typeis(w, http.Hijacker) && ret(h.Hijack, 0, 2) == nil, arg("http:(metric).observe", 0, 0).Code == 101)
