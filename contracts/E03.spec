prop E03
pkg enc
note a reflect.Value is assignable and its Set methods store what they are given (reflect's documentation)
note an interface target is one that any value can be stored in

def kind(v) = lib("reflect:(Value).Kind", 0, v)
def sets() = calls("reflect:(Value).SetString") + calls("reflect:(Value).SetBool") + calls("reflect:(Value).Set")
def jsontag(f) = lib("reflect:(StructTag).Get", 0, f.Tag, "json")
def option(f) = cutafter(jsontag(f), ",")

func (String).unmarshalInto(this, c, handler, into)
  opaque reflect:(Value).SetString reflect:(Value).SetBool reflect:(Value).Set
  let k = lib("reflect:(Value).Kind", 0, into)
  ensures @kind (result == nil) == (k == 24 || k == 20)
  ensures @text imp(k == 24, sets() == 1 && calls("reflect:(Value).SetString") == 1 && arg("reflect:(Value).SetString", 0, 0) == into && arg("reflect:(Value).SetString", 0, 1) == this)
  ensures @open imp(k == 20, sets() == 1 && calls("reflect:(Value).Set") == 1 && arg("reflect:(Value).Set", 0, 0) == into && arg("reflect:(Value).Set", 0, 1) == lib("reflect:ValueOf", 0, box(string(this))))
  ensures @untouched imp(result != nil, sets() == 0)

func (Bool).unmarshalInto(this, c, handler, into)
  opaque reflect:(Value).SetString reflect:(Value).SetBool reflect:(Value).Set
  let k = lib("reflect:(Value).Kind", 0, into)
  ensures @kind (result == nil) == (k == 1 || k == 20)
  ensures @truth imp(k == 1, sets() == 1 && calls("reflect:(Value).SetBool") == 1 && arg("reflect:(Value).SetBool", 0, 0) == into && arg("reflect:(Value).SetBool", 0, 1) == this)
  ensures @open imp(k == 20, sets() == 1 && calls("reflect:(Value).Set") == 1 && arg("reflect:(Value).Set", 0, 0) == into && arg("reflect:(Value).Set", 0, 1) == lib("reflect:ValueOf", 0, box(bool(this))))
  ensures @untouched imp(result != nil, sets() == 0)

func parseTag(tag)
  panics jsontag(tag) != "-" && option(tag) != "" && option(tag) != "omitempty"
  mustpanic jsontag(tag) != "-" && option(tag) != "" && option(tag) != "omitempty"
  ensures @field-name result.Name == tag.Name
  ensures @skipped result.Skip == (jsontag(tag) == "-")
  ensures @wire-name imp(!result.Skip, result.JSON == ite(cutbefore(jsontag(tag), ",") != "", cutbefore(jsontag(tag), ","), tag.Name))
  ensures @omit imp(!result.Skip, result.OmitEmpty == (option(tag) == "omitempty"))
