prop S02
pkg storage
guard memKeyValue.m : data
note GoString of a node is a function of the node's value (the order of map members is fixed by the fix commit)
note filter literals are not nil; callbacks do not change the store's documents in place

# a field's rendering, an absent field counting as nil
def shown(v) = ite(v == nil, "enc.Nil{}", gostring(v))
def supported(f) = f.Cmp == "EQ" || f.Cmp == "NEQ"
def matches(f, doc) = ite(f.Cmp == "EQ", shown(doc[f.Field]) == gostring(f.Val), shown(doc[f.Field]) != gostring(f.Val))
def all(fs, doc, n) = forall(i, 0, n, supported(fs[i]) && matches(fs[i], doc))

func (Filter).Check(this, c, val)
  requires this.Val != nil
  ensures @supported (result1 == nil) == supported(this)
  ensures @equality imp(result1 == nil, result0 == matches(this, val))
  ensures @frame onlymodifies(nothing)

func check(c, val, filters)
  modular
  requires forall(i, 0, len(filters), filters[i].Val != nil)
  ensures @all (result1 == nil && result0) == all(filters, val, len(filters))
  ensures @reject imp(result1 == nil && !result0, exists(i, 0, len(filters), supported(filters[i]) && !matches(filters[i], val) && all(filters, val, i)))
  ensures @error imp(result1 != nil, exists(i, 0, len(filters), !supported(filters[i]) && all(filters, val, i)))
  inv all(filters, val, $n)

# passes(k): the document held under k satisfies every filter (a name for that formula in the state the lock was taken in)
fun passes(String) Bool
func (*memKeyValue).Range(this, c, f, filters)
  requires this.data != nil && f != nil
  requires forall(i, 0, len(filters), filters[i].Val != nil)
  requires forallT(k, string, passes(k) == (has(this.data, k) && all(filters, this.data[k], len(filters))))
  flag callbacks-panic
  atcall @no-lock-held !held(this.m)
  ensures @held-at-once forall(j, 0, calls(f), has(this.data, arg(f, j, 1)) && arg(f, j, 2) == this.data[arg(f, j, 1)] && arg(f, j, 0) == c)
  ensures @all-filters forall(j, 0, calls(f), all(filters, this.data[arg(f, j, 1)], len(filters)))
  ensures @once forall(j, 0, calls(f), forall(i, 0, j, arg(f, i, 1) != arg(f, j, 1)))
  ensures @goes-on forall(j, 0, calls(f)-1, ret(f, j, 0) == nil)
  ensures @stopped imp(calls(f) > 0, result == ite(ret(f, calls(f)-1, 0) == EOD, nil, ret(f, calls(f)-1, 0)))
  ensures @complete imp(result == nil && imp(calls(f) > 0, ret(f, calls(f)-1, 0) == nil), forallT(k, string, imp(passes(k), exists(j, 0, calls(f), arg(f, j, 1) == k))))
  ensures @unsupported imp(result != nil && calls(f) == 0, exists(i, 0, len(filters), !supported(filters[i])))
  ensures @frame onlymodifies(nothing)
  ensures @unlocked !held(this.m)
  onpanic @unlocked !held(this.m)
  inv [x: slice(key,val)] forall(i, 0, len(x), visited(x[i].key) && has(this.data, x[i].key) && x[i].val == this.data[x[i].key] && passes(x[i].key))
  inv [x: slice(key,val)] forall(i, 0, len(x), forall(j, 0, i, x[i].key != x[j].key))
  inv [x: slice(key,val)] forallT(k, string, imp(visited(k) && passes(k), exists(i, 0, len(x), x[i].key == k)))
  inv [x: slice(key,val)] freshornil(x)
  inv calls(f) == $n
  inv [x: fixed slice(key,val)] forall(j, 0, $n, arg(f, j, 1) == x[j].key && arg(f, j, 2) == x[j].val && arg(f, j, 0) == c)
  inv forall(j, 0, $n, ret(f, j, 0) == nil)
