prop E04
pkg enc
note mustJSON (encoding/json) writes one value as text; that text is taken by the order it was asked for

def last(p, n, i) = forall(j, i + 1, n, p[j].JSON != p[i].JSON)
def first(p, i) = forall(j, 0, i, p[j].JSON != p[i].JSON)
def complete(m, p, n) = forall(i, 0, n, has(m, p[i].JSON) && imp(last(p, n, i), m[p[i].JSON] == p[i].Value))
def nomore(m, p, n) = forallT(x, string, imp(has(m, x), exists(i, 0, n, p[i].JSON == x)))

func (Pairs).AsMap(this)
  inv [m: fixed Map] complete(m, this, $n) && nomore(m, this, $n)
  ensures @names complete(result, this, len(this))
  ensures @only nomore(result, this, len(this))
  ensures @frame onlymodifies(nothing)

func (Pairs).Find(this, name)
  inv forall(i, 0, $n, this[i].JSON != name)
  ensures @first forall(i, 0, len(this), imp(this[i].JSON == name && first(this, i), result == this[i].Value))
  ensures @nothing imp(forall(i, 0, len(this), this[i].JSON != name), result == nil)
  ensures @frame onlymodifies(nothing)

func (Pairs).native(this)
  requires forall(i, 0, len(this), this[i].Value != nil)
  inv [m: fixed map[string]any] forall(i, 0, $n, has(m, this[i].JSON))
  inv [m: fixed map[string]any] forallT(x, string, imp(has(m, x), exists(i, 0, $n, this[i].JSON == x)))
  let m = unbox(result, map[string]any)
  ensures @names typeis(result, map[string]any) && forall(i, 0, len(this), has(m, this[i].JSON))
  ensures @only forallT(x, string, imp(has(m, x), exists(i, 0, len(this), this[i].JSON == x)))

func (Pairs).unmarshalInto(this, c, handler, into)
  opaque (Map).unmarshalInto
  inv [m: fixed Map] complete(m, this, $n) && nomore(m, this, $n)
  let m = arg("(Map).unmarshalInto", 0, 0)
  ensures @as-map calls("(Map).unmarshalInto") == 1 && complete(m, this, len(this)) && nomore(m, this, len(this)) && arg("(Map).unmarshalInto", 0, 3) == into && result == ret("(Map).unmarshalInto", 0, 0)

fun doc(Int) String
fun textof(Int) String
axiom @empty doc : (= (doc 0) "{")
axiom @member doc : (forall ((i Int)) (! (=> (<= 0 i) (= (doc (+ i 1)) (str.++ (doc i) (ite (> i 0) ", " "") (textof (* 2 i)) ": " (textof (+ (* 2 i) 1))))) :pattern ((doc (+ i 1)))))

func (Pairs).MarshalJSON(this)
  opaque mustJSON
  requires forall(j, bytes2str(ret("mustJSON", j, 0)) == textof(j))
  inv [b: bytes.Buffer] b == doc($n)
  inv calls("mustJSON") == 2 * $n && forall(i, 0, $n, arg("mustJSON", 2*i, 0) == box(this[i].JSON) && arg("mustJSON", 2*i+1, 0) == this[i].Value)
  ensures @members calls("mustJSON") == 2 * len(this) && forall(i, 0, len(this), arg("mustJSON", 2*i, 0) == box(this[i].JSON) && arg("mustJSON", 2*i+1, 0) == this[i].Value)
  ensures @text result1 == nil && bytes2str(result0) == doc(len(this)) + "}"
