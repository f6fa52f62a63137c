prop C01
pkg utils/sync
smrep Map.m : K , T
note entries of the underlying sync.Map are read and written only through the methods under contract, so every entry is a boxed K and V (shown at every write)
note sync.Map is used by contract: each of its methods is one atomic operation on an abstract map from keys to values; other callers may change the map between any two of them

# op i is the linearization point: nothing else in the call changes the shared map
def only(m, i) = forall(j, 0, smops(m.m), imp(j != i, smpre(m.m, j) == smpost(m.m, j)))
def readonly(m) = forall(j, 0, smops(m.m), smpre(m.m, j) == smpost(m.m, j))
# what a caller is told about key k of the abstract map s
def says(s, k, v) = v == ite(has(s, k), unbox(smval(s, k), V), zero(V))

func (*Map).Load(this, key)
  flag interfere
  ensures @atomic readonly(this) && exists(i, 0, smops(this.m), result1 == has(smpre(this.m, i), key) && says(smpre(this.m, i), key, result0))

func (*Map).Get(this, key)
  flag interfere
  ensures @atomic readonly(this) && exists(i, 0, smops(this.m), says(smpre(this.m, i), key, result))

func (*Map).Store(this, key, val)
  flag interfere
  ensures @atomic exists(i, 0, smops(this.m), only(this, i) && smpost(this.m, i) == smput(smpre(this.m, i), key, val))

func (*Map).Delete(this, key)
  flag interfere
  ensures @atomic exists(i, 0, smops(this.m), only(this, i) && smpost(this.m, i) == smdel(smpre(this.m, i), key))

func (*Map).LoadAndDelete(this, key)
  flag interfere
  ensures @atomic exists(i, 0, smops(this.m), only(this, i) && smpost(this.m, i) == smdel(smpre(this.m, i), key) && result1 == has(smpre(this.m, i), key) && says(smpre(this.m, i), key, result0))

func (*Map).LoadOrStore(this, key, val)
  flag interfere
  ensures @atomic exists(i, 0, smops(this.m), only(this, i) && result1 == has(smpre(this.m, i), key) && ite(result1, smpost(this.m, i) == smpre(this.m, i) && says(smpre(this.m, i), key, result0), smpost(this.m, i) == smput(smpre(this.m, i), key, val) && result0 == val))

func (*Map).GetOrStore(this, key, val)
  flag interfere
  ensures @atomic exists(i, 0, smops(this.m), only(this, i) && ite(has(smpre(this.m, i), key), smpost(this.m, i) == smpre(this.m, i) && says(smpre(this.m, i), key, result), smpost(this.m, i) == smput(smpre(this.m, i), key, val) && result == val))

func (*Map).IsEmpty(this)
  ensures @exact result == forallS(k, "Any", !has(old(this.m), k))
  ensures @atomic readonly(this)

# n callbacks have seen distinct present keys with their values
def seen(m, f, n) = forall(j, 0, n, has(m, box(arg(f, j, 0))) && says(m, box(arg(f, j, 0)), arg(f, j, 1)))
def distinct(f, n) = forall(i, 0, n, forall(j, 0, i, arg(f, i, 0) != arg(f, j, 0)))
def complete(m, f, n) = forallT(k, K, imp(has(m, box(k)), exists(j, 0, n, arg(f, j, 0) == k)))
func (*Map).Range(this, f)
  requires f != nil
  ensures @present seen(old(this.m), f, calls(f))
  ensures @once distinct(f, calls(f))
  ensures @until-false forall(j, 0, calls(f)-1, ret(f, j, 0))
  ensures @all imp(forall(j, 0, calls(f), ret(f, j, 0)), complete(old(this.m), f, calls(f)))
  ensures @atomic readonly(this)
  inv calls(f) == $n
  inv seen(old(this.m), f, calls(f))
  inv distinct(f, calls(f))
  inv forall(j, 0, calls(f), visited(box(arg(f, j, 0))))
  inv forallT(k, K, imp(visited(box(k)), exists(j, 0, calls(f), arg(f, j, 0) == k)))
  inv forall(j, 0, calls(f), ret(f, j, 0))

func (*Map).RangeErr(this, f)
  requires f != nil
  ensures @present seen(old(this.m), f, calls(f))
  ensures @once distinct(f, calls(f))
  ensures @first-error imp(result != nil, calls(f) >= 1 && ret(f, calls(f)-1, 0) == result)
  ensures @until-error forall(j, 0, calls(f)-1, ret(f, j, 0) == nil)
  ensures @no-error imp(result == nil, forall(j, 0, calls(f), ret(f, j, 0) == nil) && complete(old(this.m), f, calls(f)))
  ensures @atomic readonly(this)
  inv calls(f) == $n
  inv seen(old(this.m), f, calls(f))
  inv distinct(f, calls(f))
  inv forall(j, 0, calls(f), visited(box(arg(f, j, 0))))
  inv forallT(k, K, imp(visited(box(k)), exists(j, 0, calls(f), arg(f, j, 0) == k)))
  inv forall(j, 0, calls(f), ret(f, j, 0) == nil)

func (*Map).Map(this)
  ensures @fresh result != nil && fresh(result)
  ensures @keys forallT(k, K, has(result, k) == has(old(this.m), k))
  ensures @values forallT(k, K, imp(has(result, k), says(old(this.m), k, result[k])))
  inv [x: fixed map[K]V] forallT(k, K, has(x, k) == visited(box(k)))
  inv [x: fixed map[K]V] forallT(k, K, imp(has(x, k), says(old(this.m), k, x[k])))

pkg utils/lists
smrep Set.m : T , bool : val

# the set as seen by callers: the keys of the shared map (every value is true)
func (*Set).Add(this, t)
  flag interfere
  ensures @atomic exists(i, 0, smops(this.m), only(this, i) && result == !has(smpre(this.m, i), t) && ite(result, smpost(this.m, i) == smput(smpre(this.m, i), t, true), smpost(this.m, i) == smpre(this.m, i)))

func (*Set).Has(this, t)
  flag interfere
  ensures @atomic readonly(this) && exists(i, 0, smops(this.m), result == has(smpre(this.m, i), t))

func (*Set).Remove(this, t)
  flag interfere
  ensures @atomic exists(i, 0, smops(this.m), only(this, i) && result == has(smpre(this.m, i), t) && ite(result, smpost(this.m, i) == smdel(smpre(this.m, i), t), smpost(this.m, i) == smpre(this.m, i)))

func (*Set).All(this)
  ensures @members forall(i, 0, len(result), has(old(this.m), box(result[i])))
  ensures @once forall(i, 0, len(result), forall(j, 0, i, result[i] != result[j]))
  ensures @all forallT(k, T, imp(has(old(this.m), box(k)), exists(i, 0, len(result), result[i] == k)))
  ensures @atomic readonly(this)
  inv [x: []T] len(x) == $n
  inv [x: []T] forall(i, 0, len(x), visited(box(x[i])))
  inv [x: []T] forall(i, 0, len(x), forall(j, 0, i, x[i] != x[j]))
  inv [x: []T] forallT(k, T, imp(visited(box(k)), exists(i, 0, len(x), x[i] == k)))
