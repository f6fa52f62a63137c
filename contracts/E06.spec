prop E06
pkg enc
note reflect's descriptions of types and places are deterministic, MakeSlice, New, MakeMap make fresh zero values, Set and SetMapIndex store what they are given (reflect's documentation)
note decoding one member (Handler.unmarshal) is taken by its calls; the address of a place is not nil
note no factory is registered and no debug function is set

def kind(v) = lib("reflect:(Value).Kind", 0, v)
def typ(v) = lib("reflect:(Value).Type", 0, v)
def slot(v, i) = lib("reflect:(Value).Index", 0, v, i)
def place(v, i) = lib("reflect:(Value).Field", 0, v, i)
def decl(v, i) = rtype("Field", typ(v), i)
def visible(f) = lib("reflect:(StructField).IsExported", 0, f)
def jsontag(f) = lib("reflect:(StructTag).Get", 0, f.Tag, "json")
def skipped(f) = jsontag(f) == "-"
def wire(f) = ite(cutbefore(jsontag(f), ",") != "", cutbefore(jsontag(f), ","), f.Name)
def badtag(f) = !skipped(f) && cutafter(jsontag(f), ",") != "" && cutafter(jsontag(f), ",") != "omitempty"
def decodes() = calls("(Handler).unmarshal")
def from(j) = arg("(Handler).unmarshal", j, 2)
def to(j) = arg("(Handler).unmarshal", j, 3)
def failed(j) = ret("(Handler).unmarshal", j, 0)
def named(m, v, i) = visible(decl(v, i)) && !skipped(decl(v, i)) && has(m, wire(decl(v, i)))
def sets() = calls("reflect:(Value).Set")

def target(v) = lib("reflect:(Value).Interface", 0, lib("reflect:(Value).Addr", 0, v))
def canset(v) = lib("reflect:(Value).CanSet", 0, v)
def asks(x) = calls(unbox(x, Unmarshaler).UnmarshalNode)
def special(t) = typeis(t, Unmarshaler) || typeis(t, *json.RawMessage) || typeis(t, *time.Time) || typeis(t, json.Unmarshaler) || typeis(t, *Node)

func (Handler).unmarshal(this, c, from, v)
  opaque (Handler).unmarshal reflect:(Value).Set reflect:(Value).SetZero reflect:New (JSON).Encode encoding/json:Unmarshal encoding/json:Marshal warnIneff
  merge NewErrorf
  requires from != nil && this.Factory == nil && this.Debugf == nil
  requires imp(typeis(target(v), *json.RawMessage), unbox(target(v), *json.RawMessage) != nil)
  requires imp(typeis(target(v), *time.Time), unbox(target(v), *time.Time) != nil)
  requires imp(typeis(target(v), *Node), unbox(target(v), *Node) != nil)
  let t = target(v)
  ensures @unassignable imp(!canset(v), result != nil && calls("(Handler).unmarshal") == 0 && calls("reflect:(Value).Set") == 0)
  ensures @null imp(canset(v) && kind(v) == 22 && typeis(from, Nil), result == nil && calls("reflect:(Value).SetZero") == 1 && arg("reflect:(Value).SetZero", 0, 0) == v)
  ensures @pointer imp(canset(v) && kind(v) == 22 && !typeis(from, Nil), calls("reflect:(Value).Set") == 1 && arg("reflect:(Value).Set", 0, 0) == v && arg("reflect:(Value).Set", 0, 1) == ret("reflect:New", 0, 0) && arg("reflect:New", 0, 0) == rtype("Elem", typ(v)) && calls("(Handler).unmarshal") == 1 && arg("(Handler).unmarshal", 0, 2) == from && arg("(Handler).unmarshal", 0, 3) == lib("reflect:(Value).Elem", 0, v) && result == ret("(Handler).unmarshal", 0, 0))
  ensures @asked-once imp(canset(v) && kind(v) != 22 && t != nil && typeis(t, Unmarshaler), asks(t) == 1 && arg(unbox(t, Unmarshaler).UnmarshalNode, 0, 0) == c && arg(unbox(t, Unmarshaler).UnmarshalNode, 0, 1) == from && result == ret(unbox(t, Unmarshaler).UnmarshalNode, 0, 0))
  ensures @node imp(canset(v) && kind(v) != 22 && !typeis(t, Unmarshaler) && typeis(t, *Node) && !typeis(t, json.Unmarshaler), result == nil && *unbox(t, *Node) == from)
  ensures @by-kind imp(canset(v) && kind(v) != 22 && !special(t), calls(from.unmarshalInto) == 1 && arg(from.unmarshalInto, 0, 0) == c && arg(from.unmarshalInto, 0, 2) == v && result == ret(from.unmarshalInto, 0, 0))

func (List).unmarshalInto(this, c, handler, into)
  opaque (Handler).unmarshal reflect:(Value).Set reflect:MakeSlice reflect:New reflect:ArrayOf
  merge NewErrorf
  requires forall(i, 0, len(this), this[i] != nil)
  let k = kind(into)
  let made = ret("reflect:MakeSlice", 0, 0)
  let arr = lib("reflect:(Value).Elem", 0, ret("reflect:New", 0, 0))
  inv decodes() == $n && forall(i, 0, $n, failed(i) == nil && from(i) == old(this[i]))
  inv imp(k == 23, forall(i, 0, $n, to(i) == slot(made, i)))
  inv imp(k == 17, forall(i, 0, $n, to(i) == slot(arr, i)))
  ensures @first-failure imp(decodes() > 0, forall(j, 0, decodes() - 1, failed(j) == nil)) && imp((k == 23 || k == 17) && decodes() > 0, result == failed(decodes() - 1))
  ensures @each-element forall(j, 0, decodes(), from(j) == old(this[j])) && imp(result == nil && (k == 23 || k == 17), decodes() == len(this))
  ensures @slice imp(k == 23, calls("reflect:MakeSlice") == 1 && arg("reflect:MakeSlice", 0, 0) == typ(into) && arg("reflect:MakeSlice", 0, 1) == len(this) && forall(j, 0, decodes(), to(j) == slot(made, j)) && imp(result == nil, sets() == 1 && arg("reflect:(Value).Set", 0, 0) == into && arg("reflect:(Value).Set", 0, 1) == made))
  ensures @array imp(k == 17, imp(result == nil, len(this) == rtype("Len", typ(into)) && forall(j, 0, decodes(), to(j) == slot(arr, j)) && sets() == 1 && arg("reflect:(Value).Set", 0, 0) == into && arg("reflect:(Value).Set", 0, 1) == arr) && imp(len(this) != rtype("Len", typ(into)), result != nil && decodes() == 0))
  ensures @other imp(k != 23 && k != 17 && k != 20, result != nil)
  ensures @untouched imp(result != nil, sets() == 0)

func (Map).unmarshalInto(this, c, handler, into)
  flag name struct
  opaque (Handler).unmarshal reflect:(Value).Set reflect:New reflect:MakeMap reflect:(Value).SetMapIndex reflect:(Value).SetString reflect:(Value).SetInt reflect:(Value).SetUint
  merge NewErrorf parseTag
  requires kind(into) == 25 && lib("reflect:(Value).NumField", 0, into) >= 0
  requires forallT(x, string, imp(has(this, x), this[x] != nil))
  let n = lib("reflect:(Value).NumField", 0, into)
  let uf = handler.UnhandledFields
  panics exists(i, 0, n, visible(decl(into, i)) && badtag(decl(into, i)))
  inv forall(i, 0, $n, imp(named(this, into, i), exists(j, 0, decodes(), from(j) == this[wire(decl(into, i))] && to(j) == place(into, i))))
  inv forall(j, 0, decodes(), failed(j) == nil && exists(i, 0, $n, named(this, into, i) && from(j) == this[wire(decl(into, i))] && to(j) == place(into, i)))
  inv [s: map[string]bool] forall(i, 0, $n, imp(visible(decl(into, i)) && !skipped(decl(into, i)), s[wire(decl(into, i))]))
  inv [s: map[string]bool] forallT(x, string, imp(s[x], exists(i, 0, $n, visible(decl(into, i)) && !skipped(decl(into, i)) && wire(decl(into, i)) == x)))
  inv [s: fixed map[string]bool] forall(j, 0, calls(uf), ret(uf, j, 0) == nil && existsT(x, string, has(this, x) && !s[x] && arg(uf, j, 2) == this[x]))
  ensures @each-field imp(result == nil, forall(i, 0, n, imp(named(this, into, i), exists(j, 0, decodes(), from(j) == this[wire(decl(into, i))] && to(j) == place(into, i)))))
  ensures @only-fields forall(j, 0, decodes(), exists(i, 0, n, named(this, into, i) && from(j) == this[wire(decl(into, i))] && to(j) == place(into, i)))
  ensures @failure (result != nil) == (exists(j, 0, decodes(), failed(j) != nil) || exists(j, 0, calls(uf), ret(uf, j, 0) != nil))

func (Map).unmarshalInto(this, c, handler, into)
  flag name map
  opaque (Handler).unmarshal reflect:(Value).Set reflect:New reflect:MakeMap reflect:(Value).SetMapIndex reflect:(Value).SetString reflect:(Value).SetInt reflect:(Value).SetUint
  merge NewErrorf parseTag
  requires kind(into) == 21 && rtype("Kind", rtype("Key", typ(into))) == 24
  requires forallT(x, string, imp(has(this, x), this[x] != nil))
  let made = ret("reflect:MakeMap", 0, 0)
  inv calls("reflect:(Value).SetString") == $n && decodes() == $n && calls("reflect:(Value).SetMapIndex") == $n && sets() == 0
  inv forall(j, 0, $n, visited(arg("reflect:(Value).SetString", j, 1)) && failed(j) == nil && from(j) == this[arg("reflect:(Value).SetString", j, 1)])
  inv forall(i, 0, $n, forall(j, 0, i, arg("reflect:(Value).SetString", i, 1) != arg("reflect:(Value).SetString", j, 1)))
  inv forall(j, 0, $n, arg("reflect:(Value).SetMapIndex", j, 0) == made && arg("reflect:(Value).SetMapIndex", j, 1) == arg("reflect:(Value).SetString", j, 0) && arg("reflect:(Value).SetMapIndex", j, 2) == to(j))
  ensures @fresh calls("reflect:MakeMap") == 1 && arg("reflect:MakeMap", 0, 0) == typ(into)
  ensures @each-member imp(result == nil, decodes() == len(this) && calls("reflect:(Value).SetMapIndex") == len(this)) && forall(i, 0, decodes(), forall(j, 0, i, arg("reflect:(Value).SetString", i, 1) != arg("reflect:(Value).SetString", j, 1)))
  ensures @its-value forall(j, 0, decodes(), has(this, arg("reflect:(Value).SetString", j, 1)) && from(j) == this[arg("reflect:(Value).SetString", j, 1)])
  ensures @under-its-key forall(j, 0, calls("reflect:(Value).SetMapIndex"), arg("reflect:(Value).SetMapIndex", j, 0) == made && arg("reflect:(Value).SetMapIndex", j, 1) == arg("reflect:(Value).SetString", j, 0) && arg("reflect:(Value).SetMapIndex", j, 2) == to(j))
  ensures @stored imp(result == nil, sets() == 1 && arg("reflect:(Value).Set", 0, 0) == into && arg("reflect:(Value).Set", 0, 1) == made)
  ensures @failure (result != nil) == exists(j, 0, decodes(), failed(j) != nil) && imp(result != nil, sets() == 0 && result == failed(decodes() - 1))
