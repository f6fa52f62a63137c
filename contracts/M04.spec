prop M04
pkg utils/prom
guard registry.Mutex.Mutex : metrics
note old(...) is the moment the lock is taken: the guarded map is only reachable under the lock (shown at every access)
note a nil metric under a taken name cannot occur: Register of a nil interface value is outside the property

func Register(name, m)
  requires registry.metrics != nil
  panics registry.metrics[name] != nil
  mustpanic registry.metrics[name] != nil
  ensures @registered result == m && has(registry.metrics, name) && registry.metrics[name] == m
  ensures @others forallT(x, string, imp(x != name, has(registry.metrics, x) == old(has(registry.metrics, x)) && registry.metrics[x] == old(registry.metrics[x])))
  ensures @same-registry registry.metrics == old(registry.metrics)
  ensures @unlocked !held(registry.Mutex.Mutex)
  onpanic @untouched content(registry.metrics) == old(content(registry.metrics)) && registry.metrics == old(registry.metrics)
  onpanic @unlocked !held(registry.Mutex.Mutex)

func Range(f)
  requires registry.metrics != nil && f != nil
  flag callbacks-panic
  atcall @no-lock-held !held(registry.Mutex.Mutex)
  ensures @once forall(j, 0, calls(f), forall(i, 0, j, arg(f, i, 0) != arg(f, j, 0)))
  ensures @own-name forall(j, 0, calls(f), has(registry.metrics, arg(f, j, 0)) && arg(f, j, 1) == registry.metrics[arg(f, j, 0)])
  ensures @complete imp(result == nil, forallT(x, string, imp(old(has(registry.metrics, x)), exists(j, 0, calls(f), arg(f, j, 0) == x))))
  ensures @no-error forall(j, 0, calls(f)-1, ret(f, j, 0) == nil)
  ensures @first-error ite(result == nil, imp(calls(f) > 0, ret(f, calls(f)-1, 0) == nil), calls(f) > 0 && ret(f, calls(f)-1, 0) == result)
  ensures @unlocked !held(registry.Mutex.Mutex)
  onpanic @unlocked !held(registry.Mutex.Mutex)
  ensures @frame onlymodifies(nothing)
  inv [o: fixed map[string]Metric] forallT(x, string, has(o, x) == visited(x) && imp(visited(x), o[x] == registry.metrics[x] && has(registry.metrics, x)))
  inv calls(f) == $n
  inv forall(j, 0, $n, visited(arg(f, j, 0)))
  inv forallT(x, string, imp(visited(x), exists(j, 0, $n, arg(f, j, 0) == x)))
  inv forall(j, 0, $n, forall(i, 0, j, arg(f, i, 0) != arg(f, j, 0)))
  inv forall(j, 0, $n, has(registry.metrics, arg(f, j, 0)) && arg(f, j, 1) == registry.metrics[arg(f, j, 0)])
  inv forall(j, 0, $n, ret(f, j, 0) == nil)
