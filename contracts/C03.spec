prop C03
pkg utils/caches
guard memCache.lock : m
note the source function does not call back into the same cache (the code holds its lock while asking)
note old(...) is the moment the lock is taken: the guarded map is only reachable under the lock (shown at every access)

def mem(r) = unbox(r, *memCache[K, V])
func Mem(c, miss)
  ensures @empty typeis(result, *memCache[K, V]) && fresh(mem(result)) && mem(result).m != nil && fresh(mem(result).m) && forallT(k, K, !has(mem(result).m, k))
  ensures @source mem(result).miss == miss && calls(miss) == 0

def same(this, k) = forallT(x, K, imp(x != k, has(this.m, x) == old(has(this.m, x)) && imp(has(this.m, x), this.m[x] == old(this.m[x]))))
func (*memCache).Get(this, c, k)
  requires this.m != nil && this.miss != nil
  flag callbacks-panic
  let hit = old(has(this.m, k))
  ensures @hit imp(hit, result1 == HIT && result2 == nil && result0 == old(this.m[k]) && calls(this.miss) == 0)
  ensures @asked-once imp(!hit, calls(this.miss) == 1 && arg(this.miss, 0, 1) == k && arg(this.miss, 0, 0) == c)
  ensures @answer imp(!hit, result0 == ret(this.miss, 0, 0) && result2 == ret(this.miss, 0, 1) && result1 == ite(result2 == nil, MISS, ERR))
  ensures @retained imp(!hit && result2 == nil, has(this.m, k) && this.m[k] == result0)
  ensures @errors-not-retained imp(!hit && result2 != nil, !has(this.m, k))
  ensures @kept imp(hit, has(this.m, k) && this.m[k] == old(this.m[k]))
  ensures @others same(this, k)
  ensures @fixed this.m == old(this.m) && this.miss == old(this.miss)
  onpanic @others same(this, k) && has(this.m, k) == old(has(this.m, k))

func (*memCache).Invalidate(this, c, k)
  requires this.m != nil
  ensures @gone !has(this.m, k)
  ensures @others same(this, k)
  ensures @fixed this.m == old(this.m) && this.miss == old(this.miss)
