prop S01
pkg storage
guard memKeyValue.m : data
note old(...) is the moment the lock is taken: the guarded map is only reachable under the lock (shown at every access)
note documents are stored and returned by reference, as the code does

func NewMemKeyValue()
  ensures @empty fresh(result) && result.data != nil && fresh(result.data) && forallT(k, string, !has(result.data, k))

def same(this, k) = forallT(x, string, imp(x != k, has(this.data, x) == old(has(this.data, x)) && this.data[x] == old(this.data[x])))
func (*memKeyValue).Get(this, c, key)
  requires this.data != nil
  ensures @last result1 == nil && result0 == ite(old(has(this.data, key)), old(this.data[key]), nil)
  ensures @frame onlymodifies(nothing)
  ensures @unlocked !held(this.m)

func (*memKeyValue).Upsert(this, c, key, val)
  requires this.data != nil
  ensures @stored result == nil && has(this.data, key) && this.data[key] == val
  ensures @others same(this, key)
  ensures @same-map this.data == old(this.data)
  ensures @frame onlymodifies(entries(this.data))
  ensures @unlocked !held(this.m)

func (*memKeyValue).Delete(this, c, key)
  requires this.data != nil
  ensures @gone result == nil && !has(this.data, key)
  ensures @others same(this, key)
  ensures @same-map this.data == old(this.data)
  ensures @frame onlymodifies(entries(this.data))
  ensures @unlocked !held(this.m)
