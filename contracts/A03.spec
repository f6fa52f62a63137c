prop A03
pkg api

def apitag(f) = lib("reflect:(StructTag).Get", 0, f.Tag, "api")
def encname(f) = cutbefore(lib("reflect:(StructTag).Get", 0, f.Tag, "enc"), ",")
def jsonname(f) = cutbefore(lib("reflect:(StructTag).Get", 0, f.Tag, "json"), ",")
def declared(f) = ite(lib("reflect:(StructTag).Get", 0, f.Tag, "enc") != "", encname(f), jsonname(f))
def wire(f) = ite(declared(f) != "", declared(f), f.Name)
def role(f, i) = split(apitag(f), ",", i)
def known(r) = r == "in" || r == "out" || r == "both" || r == "required" || r == "auth" || r == ""
def lists(f, n, r) = exists(i, 0, n, role(f, i) == r)
def upto(t, f, n) = t.in == (lists(f, n, "in") || lists(f, n, "both")) && t.out == (lists(f, n, "out") || lists(f, n, "both")) && t.required == lists(f, n, "required") && t.auth == lists(f, n, "auth")
def urltag(f) = lib("reflect:(StructTag).Get", 0, f.Tag, "url")
def badurl(f) = urltag(f) != "" && lib("net/url:Parse", 1, urltag(f)) != nil

func tagName(c, f)
  ensures @wire-name result == wire(f)

func parseTags(c, f)
  opaque utils:Stack
  merge tagName
  let n = splitn(apitag(f), ",")
  inv forall(i, 0, $n, known(role(f, i)))
  inv [t: tag] t.in == (lists(f, $n, "in") || lists(f, $n, "both"))
  inv [t: tag] t.out == (lists(f, $n, "out") || lists(f, $n, "both"))
  inv [t: tag] t.required == lists(f, $n, "required")
  inv [t: tag] t.auth == lists(f, $n, "auth")
  inv [t: tag] t.name == wire(f)
  inv [t: tag] t.url == ite(urltag(f) == "", nil, lib("net/url:Parse", 0, urltag(f)))
  ensures @refused (result1 != nil) == (badurl(f) || exists(i, 0, n, !known(role(f, i))))
  ensures @roles imp(result1 == nil, upto(result0, f, n))
  ensures @name imp(result1 == nil, result0.name == wire(f))
  ensures @url imp(result1 == nil, result0.url == ite(urltag(f) == "", nil, lib("net/url:Parse", 0, urltag(f))))
