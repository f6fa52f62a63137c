prop C04
pkg utils/caches
ghost utils/caches/request.go
guard entry.m : V expire err
note the inner cache is used through its interface: it returns a non-nil entry unless it reports an error (NewRequestLRU builds it over LRU with a constructor that always makes one)
note the source function does not call back into the same entry (the code holds its lock while asking)
note clock readings never decrease and the zero time is before all of them

func (*RequestCache).Request(this, c, key)
  requires this.cache != nil && this.onMiss != nil
  requires imp(ret(this.cache.Get, 0, 2) == nil, ret(this.cache.Get, 0, 0) != nil)
  flag callbacks-panic
  let e = ret(this.cache.Get, 0, 0)
  let cerr = ret(this.cache.Get, 0, 2)
  let asked = calls(this.onMiss) != 0
  let ttl = ret(this.onMiss, 0, 1)
  ensures @one-entry calls(this.cache.Get) == 1 && arg(this.cache.Get, 0, 1) == key
  ensures @cache-error imp(cerr != nil, result2 == cerr && !asked)
  ensures @still-valid imp(cerr == nil && !asked, now() <= old(e.expire))
  ensures @same-answer imp(cerr == nil && !asked, result0 == old(e.V) && result2 == old(e.err) && result1 == HIT && e.V == old(e.V) && e.err == old(e.err) && e.expire == old(e.expire))
  ensures @asked-once imp(asked, cerr == nil && calls(this.onMiss) == 1 && arg(this.onMiss, 0, 1) == key)
  ensures @answer imp(asked, result0 == ret(this.onMiss, 0, 0) && result2 == ret(this.onMiss, 0, 2) && result1 == ite(result2 == nil, MISS, ERR))
  ensures @retained imp(asked && ttl > 0, e.V == result0 && e.err == result2 && e.expire <= now() + ttl)
  ensures @kept-long-enough imp(asked && ttl > 0, e.expire >= old(now()) + ttl)
  ensures @not-retained imp(asked && ttl <= 0, e.expire < now())
  ensures @frame onlymodifies(obj(e))
  onpanic @frame onlymodifies(nothing)

func (*RequestCache).Invalidate(this, c, key)
  requires this.cache != nil
  ensures @passed-on calls(this.cache.Invalidate) == 1 && arg(this.cache.Invalidate, 0, 1) == key
  ensures @frame onlymodifies(nothing)

func ghostNewEntry(c, k, n, f)
  ensures @fresh-entry fresh(result0) && result0 != nil && result0.expire < 1 && result1 == 1 && result2 == nil

func NewRequestLRU(c, maxSize, onMiss)
  ensures @source result != nil && result.onMiss == onMiss && calls(onMiss) == 0
  ensures @size typeis(result.cache, *LRU[K, *entry[V]]) && unbox(result.cache, *LRU[K, *entry[V]]).MaxSize == maxSize
