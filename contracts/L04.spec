prop L04
pkg utils

# number of non-nil pointers at positions lo..hi-1 of a backing array
fun live((Array Int Int), Int, Int) Int
axiom @live-empty live : (forall ((r (Array Int Int)) (lo Int)) (! (= (live r lo lo) 0) :pattern ((live r lo lo))))
axiom @live-step live : (forall ((r (Array Int Int)) (lo Int) (i Int)) (! (=> (<= lo i) (= (live r lo (+ i 1)) (+ (live r lo i) (ite (= (select r i) 0) 0 1)))) :pattern ((live r lo i) (select r i))))
def rank(m, i) = live(arr(m.list), off(m.list), off(m.list)+i)

# representation invariant: byKey maps exactly the live keys to their slot
def wf(m) = m.byKey != nil && forallT(k, K, imp(has(m.byKey, k), 0 <= m.byKey[k] && m.byKey[k] < len(m.list) && m.list[m.byKey[k]] != nil && m.list[m.byKey[k]].Key == k)) && forall(i, 0, len(m.list), imp(m.list[i] != nil, has(m.byKey, m.list[i].Key) && m.byKey[m.list[i].Key] == i))
# what a caller sees: present keys, their values, and the slot order of the live pairs
def found(m, k) = has(m.byKey, k)
def value(m, k) = m.list[m.byKey[k]].Value
def looks(m, k, r) = r.Found == found(m, k) && imp(r.Found, r.Value == value(m, k))

func NewOrderedMap()
  ensures @wf wf(result)
  ensures @empty len(result.list) == 0 && forallT(k, K, !found(result, k))
  ensures @fresh fresh(result) && fresh(result.byKey)

func (OrderedMap).Get(m, key)
  requires wf(m)
  ensures @lookup looks(m, key, result)
  ensures @frame onlymodifies(nothing)

func (*OrderedMap).Put(m, key, value)
  requires wf(m)
  ensures @wf wf(m)
  ensures @present found(m, key) && m.list[m.byKey[key]].Value == value
  ensures @old result.Found == old(found(m, key)) && imp(result.Found, result.Value == old(value(m, key)))
  ensures @others forallT(k, K, imp(k != key, found(m, k) == old(found(m, k)) && imp(found(m, k), m.list[m.byKey[k]].Value == old(m.list[m.byKey[k]].Value))))
  ensures @order forallT(k, K, imp(k != key && found(m, k), m.byKey[k] == old(m.byKey[k])))
  ensures @replaced-stays imp(old(found(m, key)), m.byKey[key] == old(m.byKey[key]))
  ensures @new-is-last imp(!old(found(m, key)), forallT(k, K, imp(k != key && found(m, k), m.byKey[k] < m.byKey[key])))

func (*OrderedMap).Delete(m, key)
  requires wf(m)
  ensures @wf wf(m)
  ensures @gone !found(m, key)
  ensures @old result.Found == old(found(m, key)) && imp(result.Found, result.Value == old(value(m, key)))
  ensures @others forallT(k, K, imp(k != key, found(m, k) == old(found(m, k)) && imp(found(m, k), m.list[m.byKey[k]].Value == old(m.list[m.byKey[k]].Value))))
  ensures @order forallT(k, K, imp(k != key && found(m, k), m.byKey[k] == old(m.byKey[k])))

def visitedTo(m, f, n) = forall(i, 0, n, 0 <= rank(m, i) && rank(m, i) <= rank(m, n) && imp(m.list[i] != nil, rank(m, i)+1 <= rank(m, n) && arg(f, rank(m, i), 0) == m.list[i].Key && arg(f, rank(m, i), 1) == m.list[i].Value))
func (OrderedMap).Range(m, f)
  requires wf(m)
  requires f != nil
  ensures @all imp(result == nil, calls(f) == rank(m, len(m.list)) && visitedTo(m, f, len(m.list)))
  ensures @no-error imp(result == nil, forall(j, 0, calls(f), ret(f, j, 0) == nil))
  ensures @first-error imp(result != nil, calls(f) >= 1 && ret(f, calls(f)-1, 0) == result && forall(j, 0, calls(f)-1, ret(f, j, 0) == nil))
  ensures @prefix imp(result != nil, exists(n, 0, len(m.list), m.list[n] != nil && calls(f) == rank(m, n)+1 && visitedTo(m, f, n) && arg(f, rank(m, n), 0) == m.list[n].Key && arg(f, rank(m, n), 1) == m.list[n].Value))
  ensures @frame onlymodifies(nothing)
  inv calls(f) == rank(m, $n)
  inv visitedTo(m, f, $n)
  inv forall(j, 0, calls(f), ret(f, j, 0) == nil)

def listed(m, x, n) = forall(i, 0, n, 0 <= rank(m, i) && rank(m, i) <= rank(m, n) && imp(m.list[i] != nil, rank(m, i)+1 <= rank(m, n) && x[rank(m, i)] == m.list[i].Key))
func (OrderedMap).Keys(m)
  requires wf(m)
  ensures @count len(result) == rank(m, len(m.list))
  ensures @in-order listed(m, result, len(m.list))
  ensures @frame onlymodifies(nothing)
  inv [x: []K] len(x) == rank(m, $n)
  inv [x: []K] listed(m, x, $n)

def listedV(m, x, n) = forall(i, 0, n, 0 <= rank(m, i) && rank(m, i) <= rank(m, n) && imp(m.list[i] != nil, rank(m, i)+1 <= rank(m, n) && x[rank(m, i)] == m.list[i].Value))
func (OrderedMap).Values(m)
  requires wf(m)
  ensures @count len(result) == rank(m, len(m.list))
  ensures @in-order listedV(m, result, len(m.list))
  ensures @frame onlymodifies(nothing)
  inv [x: []V] len(x) == rank(m, $n)
  inv [x: []V] listedV(m, x, $n)

func (OrderedMap).Len(m)
  requires wf(m)
  ensures @count result == rank(m, len(m.list))
  ensures @frame onlymodifies(nothing)
  inv [x: int] x == rank(m, $n)
