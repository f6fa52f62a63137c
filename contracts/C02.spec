prop C02
pkg utils/caches
typarams lruHeap
ghost utils/caches/lru.go
guard LRU.l : curSize heap
note container/heap: each operation, asked of a heap in order, calls the given Swap on elements of the heap any number of times, pushes or pops at the end, and leaves the heap in order; Pop removes an element no other is less than (its documentation)
note sizes reported by the source are not negative and their sum does not overflow; the maximum is not negative and does not change
note clock readings never decrease and the zero time is before all of them; uses at the same reading count as equally recent
note sums over a list: facts of arithmetic (equal elements give equal sums, one more element adds its size, exchanging two changes nothing)

# the sum of the sizes of n entries, from o on
fun total((Array Int {lruEntry[K,V]}), Int, Int) Int
axiom @sum-of-none total : (forall ((a (Array Int {lruEntry[K,V]})) (o Int) (n Int)) (! (=> (<= n 0) (= (total a o n) 0)) :pattern ((total a o n))))
axiom @sum-not-negative total : (forall ((a (Array Int {lruEntry[K,V]})) (o Int) (n Int)) (! (=> (forall ((i Int)) (=> (and (<= o i) (< i (+ o n))) (>= ({lruEntry[K,V]}.size (select a i)) 0))) (>= (total a o n) 0)) :pattern ((total a o n))))
axiom @sum-of-equals total : (forall ((a (Array Int {lruEntry[K,V]})) (o Int) (b (Array Int {lruEntry[K,V]})) (p Int) (n Int)) (! (=> (forall ((i Int)) (=> (and (<= 0 i) (< i n)) (= ({lruEntry[K,V]}.size (select a (+ o i))) ({lruEntry[K,V]}.size (select b (+ p i)))))) (= (total a o n) (total b p n))) :pattern ((total a o n) (total b p n))))
axiom @sum-of-one-more total : (forall ((a (Array Int {lruEntry[K,V]})) (o Int) (b (Array Int {lruEntry[K,V]})) (p Int) (n Int) (m Int)) (! (=> (and (<= 0 n) (= m (+ n 1)) (forall ((i Int)) (=> (and (<= 0 i) (< i n)) (= ({lruEntry[K,V]}.size (select a (+ o i))) ({lruEntry[K,V]}.size (select b (+ p i))))))) (= (total b p m) (+ (total a o n) ({lruEntry[K,V]}.size (select b (+ p n)))))) :pattern ((total a o n) (total b p m))))
axiom @sum-of-exchanged total : (forall ((a (Array Int {lruEntry[K,V]})) (x Int) (v {lruEntry[K,V]}) (y Int) (w {lruEntry[K,V]}) (o Int) (n Int)) (! (=> (and (<= o x) (< x (+ o n)) (<= o y) (< y (+ o n)) (= v (select a y)) (= w (select a x))) (= (total (store (store a x v) y w) o n) (total a o n))) :pattern ((total (store (store a x v) y w) o n))))

# no element is older than its parent, up(i, p): p is the parent of i; but(..., k): the element at k may be anything
fun up(Int, Int) Bool
fun inorder((Array Int {lruEntry[K,V]}), Int, Int) Bool
fun but((Array Int {lruEntry[K,V]}), Int, Int, Int) Bool
axiom @up-means-parent up : (forall ((i Int) (p Int)) (! (= (up i p) (or (= i (+ (* 2 p) 1)) (= i (+ (* 2 p) 2)))) :pattern ((up i p))))
axiom @inorder-means inorder : (forall ((a (Array Int {lruEntry[K,V]})) (o Int) (n Int)) (! (= (inorder a o n) (forall ((i Int) (p Int)) (! (=> (and (up i p) (<= 0 p) (< i n)) (<= ({lruEntry[K,V]}.last (select a (+ o p))) ({lruEntry[K,V]}.last (select a (+ o i))))) :pattern ((up i p))))) :pattern ((inorder a o n))))
axiom @but-means but : (forall ((a (Array Int {lruEntry[K,V]})) (o Int) (n Int) (k Int)) (! (= (but a o n k) (and (forall ((i Int) (p Int)) (! (=> (and (up i p) (<= 0 p) (< i n) (not (= i k)) (not (= p k))) (<= ({lruEntry[K,V]}.last (select a (+ o p))) ({lruEntry[K,V]}.last (select a (+ o i))))) :pattern ((up i p)))) (forall ((i Int) (p Int)) (! (=> (and (up i k) (up k p) (<= 0 p) (< i n)) (<= ({lruEntry[K,V]}.last (select a (+ o p))) ({lruEntry[K,V]}.last (select a (+ o i))))) :pattern ((up i k) (up k p)))))) :pattern ((but a o n k))))

def sum(l) = total(arr(l), off(l), len(l))
def ordered(l, n) = inorder(arr(l), off(l), n)
def order(l) = ordered(l, len(l))
def keyed(h) = h.index != nil && forall(i, 0, len(h.list), has(h.index, h.list[i].key) && h.index[h.list[i].key] == i)
def listed(h) = forallT(k, K, imp(has(h.index, k), 0 <= h.index[k] && h.index[k] < len(h.list) && h.list[h.index[k]].key == k))
def dated(l) = forall(i, 0, len(l), 1 <= l[i].last && l[i].last <= now())
def sized(l) = forall(i, 0, len(l), l[i].size >= 0)
def rep(h) = h != nil && keyed(h) && listed(h)
def hp(h) = unbox(h, *lruHeap[K,V])
def ent(x) = unbox(x, lruEntry[K,V])
def good(h) = rep(h) && dated(h.list) && sized(h.list) && order(h.list)

func (*lruHeap).Swap(this, i, j)
  modular
  requires keyed(this) && listed(this)
  requires 0 <= i && i < len(this.list) && 0 <= j && j < len(this.list) && i != j
  modifies elems(this.list)
  modifies entries(this.index)
  ensures @keyed keyed(this)
  ensures @listed listed(this)
  ensures @present forallT(x, K, has(this.index, x) == old(has(this.index, x)))
  ensures @kept forallT(x, K, imp(has(this.index, x), this.list[this.index[x]] == old(this.list[this.index[x]])))
  ensures @sum sum(this.list) == old(sum(this.list))

func ghostHeapPush(h, x)
  modular
  requires typeis(h, *lruHeap[K,V]) && typeis(x, lruEntry[K,V]) && rep(hp(h)) && order(hp(h).list) && !has(hp(h).index, ent(x).key)
  modifies hp(h).list
  modifies elems(hp(h).list)
  modifies spare(hp(h).list)
  modifies entries(hp(h).index)
  ensures @rep rep(hp(h))
  ensures @order order(hp(h).list)
  ensures @present forallT(y, K, has(hp(h).index, y) == (y == ent(x).key || old(has(hp(h).index, y))))
  ensures @kept forallT(y, K, imp(old(has(hp(h).index, y)), hp(h).list[hp(h).index[y]] == old(hp(h).list[hp(h).index[y]])))
  ensures @new hp(h).list[hp(h).index[ent(x).key]] == ent(x)
  ensures @sum sum(hp(h).list) == old(sum(hp(h).list)) + ent(x).size
  inv @ghostSwaps rep(hp(h))
  inv @ghostSwaps forallT(y, K, has(hp(h).index, y) == pre(has(hp(h).index, y)))
  inv @ghostSwaps forallT(y, K, imp(pre(has(hp(h).index, y)), hp(h).list[hp(h).index[y]] == pre(hp(h).list[hp(h).index[y]])))
  inv @ghostSwaps sum(hp(h).list) == pre(sum(hp(h).list))
  inv @ghostNeeds [j: int] up(j, (j-1)/2)
  inv @ghostInOrder [j: int] up(j, (j-1)/2)
  inv @ghostInOrder [j: int] ordered(hp(h).list, j)

func ghostHeapPop(h)
  modular
  requires typeis(h, *lruHeap[K,V]) && rep(hp(h)) && order(hp(h).list) && len(hp(h).list) > 0
  modifies hp(h).list
  modifies elems(hp(h).list)
  modifies entries(hp(h).index)
  ensures @rep rep(hp(h))
  ensures @order order(hp(h).list)
  ensures @popped typeis(result, lruEntry[K,V]) && old(has(hp(h).index, ent(result).key)) && ent(result) == old(hp(h).list[hp(h).index[ent(result).key]])
  ensures @present forallT(y, K, has(hp(h).index, y) == (y != ent(result).key && old(has(hp(h).index, y))))
  ensures @kept forallT(y, K, imp(has(hp(h).index, y), hp(h).list[hp(h).index[y]] == old(hp(h).list[hp(h).index[y]])))
  ensures @least forallT(y, K, imp(has(hp(h).index, y), ent(result).last <= hp(h).list[hp(h).index[y]].last))
  ensures @sum sum(hp(h).list) == old(sum(hp(h).list)) - ent(result).size
  inv @ghostSwaps rep(hp(h))
  inv @ghostSwaps forallT(y, K, has(hp(h).index, y) == pre(has(hp(h).index, y)))
  inv @ghostSwaps forallT(y, K, imp(pre(has(hp(h).index, y)), hp(h).list[hp(h).index[y]] == pre(hp(h).list[hp(h).index[y]])))
  inv @ghostSwaps sum(hp(h).list) == pre(sum(hp(h).list))
  inv @ghostNeeds [j: int] up(j, (j-1)/2)
  inv @ghostInOrder [j: int] up(j, (j-1)/2)
  inv @ghostInOrder [j: int] ordered(hp(h).list, j)
  inv @ghostHeapPop [j: int] forall(i, 0, j, hp(h).list[len(hp(h).list)-1].last <= hp(h).list[i].last)

func ghostHeapFix(h, k)
  modular
  requires typeis(h, *lruHeap[K,V]) && rep(hp(h)) && 0 <= k && k < len(hp(h).list)
  requires but(arr(hp(h).list), off(hp(h).list), len(hp(h).list), k)
  modifies elems(hp(h).list)
  modifies entries(hp(h).index)
  ensures @rep rep(hp(h))
  ensures @order order(hp(h).list)
  ensures @present forallT(y, K, has(hp(h).index, y) == old(has(hp(h).index, y)))
  ensures @kept forallT(y, K, imp(old(has(hp(h).index, y)), hp(h).list[hp(h).index[y]] == old(hp(h).list[hp(h).index[y]])))
  ensures @sum sum(hp(h).list) == old(sum(hp(h).list))
  inv @ghostSwaps rep(hp(h))
  inv @ghostSwaps forallT(y, K, has(hp(h).index, y) == pre(has(hp(h).index, y)))
  inv @ghostSwaps forallT(y, K, imp(pre(has(hp(h).index, y)), hp(h).list[hp(h).index[y]] == pre(hp(h).list[hp(h).index[y]])))
  inv @ghostSwaps sum(hp(h).list) == pre(sum(hp(h).list))
  inv @ghostHeapFix [j: int] up(j, (j-1)/2) && up(k, (k-1)/2) == (k >= 1)
  inv @ghostInOrder [j: int] up(j, (j-1)/2)
  inv @ghostInOrder [j: int] ordered(hp(h).list, j)

func (*LRU).Invalidate(this, c, k)
  requires good(this.heap) && this.curSize == sum(this.heap.list)
  stub container/heap:Fix ghostHeapFix
  stub container/heap:Pop ghostHeapPop
  let h = this.heap
  ensures @gone !has(h.index, k)
  ensures @others forallT(x, K, imp(x != k, has(h.index, x) == old(has(h.index, x)) && imp(has(h.index, x), h.list[h.index[x]] == old(h.list[h.index[x]]))))
  ensures @keyed keyed(h)
  ensures @listed listed(h)
  ensures @dated dated(h.list)
  ensures @sized sized(h.list)
  ensures @order order(h.list)
  ensures @accounted this.curSize == sum(h.list)

func (*LRU).Get(this, c, k)
  requires good(this.heap) && this.curSize == sum(this.heap.list) && this.curSize <= this.MaxSize && 0 <= this.MaxSize && this.MaxSize < 1000000000000000000
  requires this.OnMiss != nil && 0 <= ret(this.OnMiss, 0, 1) && ret(this.OnMiss, 0, 1) < 1000000000000000000
  stub container/heap:Fix ghostHeapFix
  stub container/heap:Pop ghostHeapPop
  stub container/heap:Push ghostHeapPush
  flag callbacks-panic
  let h = this.heap
  let hit = old(has(h.index, k))
  let asked = calls(this.OnMiss)
  let size = ret(this.OnMiss, 0, 1)
  let err = ret(this.OnMiss, 0, 2)
  let added = !hit && err == nil && size != 0
  ensures @hit imp(hit, asked == 0 && result0 == old(h.list[h.index[k]].val) && result1 == HIT && result2 == nil)
  ensures @hit-is-latest imp(hit, has(h.index, k) && h.list[h.index[k]].last == now() && h.list[h.index[k]].val == old(h.list[h.index[k]].val) && h.list[h.index[k]].size == old(h.list[h.index[k]].size))
  ensures @hit-keeps imp(hit, forallT(x, K, imp(x != k, has(h.index, x) == old(has(h.index, x)) && imp(has(h.index, x), h.list[h.index[x]] == old(h.list[h.index[x]])))))
  ensures @asked imp(!hit, asked == 1 && arg(this.OnMiss, 0, 0) == c && arg(this.OnMiss, 0, 1) == k && result0 == ret(this.OnMiss, 0, 0) && result2 == err && result1 == ite(err != nil, ERR, ite(size == 0, NO, MISS)))
  ensures @not-retained imp(!hit && !added, forallT(x, K, has(h.index, x) == old(has(h.index, x)) && imp(has(h.index, x), h.list[h.index[x]] == old(h.list[h.index[x]]))))
  ensures @retained imp(added && has(h.index, k), h.list[h.index[k]].val == result0 && h.list[h.index[k]].size == size && h.list[h.index[k]].last >= old(now()))
  ensures @others imp(added, forallT(x, K, imp(x != k && has(h.index, x), old(has(h.index, x)) && h.list[h.index[x]] == old(h.list[h.index[x]]))))
  ensures @oldest-goes imp(added, forallT(x, K, imp(x != k && old(has(h.index, x)) && !has(h.index, x), forall(i, 0, len(h.list), old(h.list[h.index[x]].last) <= h.list[i].last))))
  ensures @newest-goes-last imp(added && !has(h.index, k), forall(i, 0, len(h.list), h.list[i].last >= old(now())))
  ensures @no-need imp(added && old(this.curSize) + size <= this.MaxSize, forallT(x, K, has(h.index, x) == (x == k || old(has(h.index, x)))))
  ensures @keyed keyed(h)
  ensures @listed listed(h)
  ensures @dated dated(h.list)
  ensures @sized sized(h.list)
  ensures @order order(h.list)
  ensures @accounted this.curSize == sum(h.list)
  ensures @within this.curSize <= this.MaxSize
  ensures @unlocked !held(this.l)
  onpanic !held(this.l) && onlymodifies(nothing)
  inv keyed(this.heap) && listed(this.heap)
  inv forallT(y, K, imp(has(this.heap.index, y), 1 <= this.heap.list[this.heap.index[y]].last && this.heap.list[this.heap.index[y]].last <= now()))
  inv forallT(y, K, imp(has(this.heap.index, y), this.heap.list[this.heap.index[y]].size >= 0))
  inv order(this.heap.list)
  inv this.curSize == sum(this.heap.list)
  inv forallT(x, K, imp(x != k && has(this.heap.index, x), old(has(this.heap.index, x)) && this.heap.list[this.heap.index[x]] == old(this.heap.list[this.heap.index[x]])))
  inv imp(has(this.heap.index, k), this.heap.list[this.heap.index[k]].val == ret(this.OnMiss, 0, 0) && this.heap.list[this.heap.index[k]].size == ret(this.OnMiss, 0, 1) && this.heap.list[this.heap.index[k]].last >= old(now()))
  inv forallT(x, K, imp(x != k && old(has(this.heap.index, x)) && !has(this.heap.index, x), forallT(y, K, imp(has(this.heap.index, y), old(this.heap.list[this.heap.index[x]].last) <= this.heap.list[this.heap.index[y]].last))))
  inv imp(!has(this.heap.index, k), forallT(y, K, imp(has(this.heap.index, y), this.heap.list[this.heap.index[y]].last >= old(now()))))
  inv imp(old(this.curSize) + ret(this.OnMiss, 0, 1) <= this.MaxSize, forallT(x, K, has(this.heap.index, x) == (x == k || old(has(this.heap.index, x)))) && this.curSize <= this.MaxSize)

func (*LRU).Keys(this)
  requires good(this.heap)
  let h = this.heap
  ensures @each forall(i, 0, len(result), has(h.index, result[i]))
  ensures @all forallT(x, K, imp(has(h.index, x), h.index[x] < len(result) && result[h.index[x]] == x))
  ensures @once forall(i, 0, len(result), h.index[result[i]] == i)
  ensures onlymodifies(nothing) && !held(this.l)
  inv [$n: int, keys: []K] len(keys) == $n && forall(i, 0, $n, keys[i] == this.heap.list[i].key)

func (*LRU).String(this)
  requires good(this.heap)
  ensures onlymodifies(nothing) && !held(this.l)

func NewLRU(c, maxSize, onMiss)
  let l = unbox(result, *LRU[K,V])
  ensures @kind typeis(result, *LRU[K,V]) && fresh(l) && fresh(l.heap)
  ensures @empty len(l.heap.list) == 0 && l.curSize == 0 && forallT(x, K, !has(l.heap.index, x)) && good(l.heap) && sum(l.heap.list) == 0
  ensures @given l.MaxSize == maxSize && l.OnMiss == onMiss
