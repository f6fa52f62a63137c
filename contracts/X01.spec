prop X01
pkg ctx
ghost ctx/tags.go
note a context made by the standard library asks its parent for a key that is not its own (library contract)
note what a chain of contexts reports follows link by link: each link asks its parent first, then reports its own tag

def given(val) = typeis(val, json.RawMessage) && unbox(val, json.RawMessage) != nil || typeis(val, JSON) && unbox(val, JSON) != nil || typeis(val, []byte) && unbox(val, []byte) != nil && ret("encoding/json:Valid", 0, 0)

# the callback got exactly this tag, after the parent was asked
def reported(fn, j, k, v) = arg(fn, j, 0) == k && arg(fn, j, 1) == v

func (tagC).Value(this, k)
  flag record-value
  requires this.C != nil && imp(typeis(k, tagRangeFunc), unbox(k, tagRangeFunc) != nil)
  let fn = unbox(k, tagRangeFunc)
  ensures @parent-first imp(typeis(k, tagRangeFunc), calls(this.C.Value) == 1 && arg(this.C.Value, 0, 0) == k)
  ensures @stops imp(typeis(k, tagRangeFunc) && ret(this.C.Value, 0, 0) != nil, result == ret(this.C.Value, 0, 0) && calls(fn) == 0)
  ensures @then-its-own imp(typeis(k, tagRangeFunc) && ret(this.C.Value, 0, 0) == nil, calls(fn) == 1 && reported(fn, 0, this.key, this.json) && at(this.C.Value, 0) < at(fn, 0) && result == ret(fn, 0, 0))
  ensures @other-keys imp(!typeis(k, tagRangeFunc) && k != box(this.key), calls(this.C.Value) == 1 && arg(this.C.Value, 0, 0) == k && result == ret(this.C.Value, 0, 0))
  ensures @its-key imp(k == box(this.key), result == box(this.json))
  ensures @frame onlymodifies(nothing)

func RangeTag(c, fn)
  flag record-value
  requires fn != nil
  let v = ret(c.Value, 0, 0)
  ensures @no-context imp(c == nil, result == nil && calls(fn) == 0)
  ensures @asked imp(c != nil, calls(c.Value) == 1 && typeis(arg(c.Value, 0, 0), tagRangeFunc) && unbox(arg(c.Value, 0, 0), tagRangeFunc) == fn)
  ensures @its-error imp(c != nil && typeis(v, error), result == v)
  ensures @done imp(c != nil && v == nil, result == nil)
  ensures @frame onlymodifies(nothing)

func WithTag(c, key, val)
  requires c != nil
  opaque encoding/json:Marshal
  opaque encoding/json:Valid
  let t = unbox(result, tagC)
  ensures @attached typeis(result, tagC) && t.C == c && t.key == key
  ensures @verbatim imp(given(val), t.json == ite(typeis(val, json.RawMessage), unbox(val, json.RawMessage), ite(typeis(val, JSON), unbox(val, JSON), unbox(val, []byte))))
  ensures @judged imp(typeis(val, []byte), arg("encoding/json:Valid", 0, 0) == unbox(val, []byte))
  ensures @encoded imp(!given(val), calls("encoding/json:Marshal") >= 1 && arg("encoding/json:Marshal", 0, 0) == val && imp(ret("encoding/json:Marshal", 0, 1) == nil, calls("encoding/json:Marshal") == 1 && t.json == ret("encoding/json:Marshal", 0, 0)))
  ensures @described imp(!given(val) && ret("encoding/json:Marshal", 0, 1) != nil, calls("encoding/json:Marshal") == 2 && typeis(arg("encoding/json:Marshal", 1, 0), string) && t.json == ret("encoding/json:Marshal", 1, 0))
  ensures @frame onlymodifies(nothing)

func ghostTwoTags(c, k1, v1, key, val, k2, v2, fn)
  flag record-value
  requires c != nil && v1 != nil && v2 != nil && fn != nil && key != nil && !typeis(key, tagRangeFunc)
  let pv = ret(c.Value, 0, 0)
  ensures @once-each calls(c.Value) == 1 && calls(fn) == ite(pv != nil, 0, ite(ret(fn, 0, 0) != nil, 1, 2))
  ensures @oldest-first imp(calls(fn) >= 1, reported(fn, 0, k1, v1) && at(c.Value, 0) < at(fn, 0)) && imp(calls(fn) >= 2, reported(fn, 1, k2, v2) && at(fn, 0) < at(fn, 1))
  ensures @result imp(pv == nil, result == ret(fn, calls(fn)-1, 0)) && imp(typeis(pv, error), result == pv)
  ensures @frame onlymodifies(nothing)

func ghostSiblingTags(c, k1, v1, k2, v2, fn)
  flag record-value
  requires c != nil && v1 != nil && v2 != nil && fn != nil
  let pv = ret(c.Value, 0, 0)
  ensures @only-its-own calls(c.Value) == 1 && calls(fn) == ite(pv != nil, 0, 1) && imp(pv == nil, reported(fn, 0, k1, v1))
  ensures @frame onlymodifies(nothing)

func ghostTrackedTags(c, k1, v1, id, fn)
  flag record-value
  requires c != nil && v1 != nil && fn != nil && id != ""
  let pv = ret(c.Value, 0, 0)
  ensures @kept calls(c.Value) == 1 && imp(pv == nil, calls(fn) >= 1 && reported(fn, 0, k1, v1) && calls(fn) == ite(ret(fn, 0, 0) == nil, 2, 1) && result == ret(fn, calls(fn)-1, 0))
  ensures @tracking imp(pv == nil && calls(fn) == 2, arg(fn, 1, 0) == "tracking-id")
