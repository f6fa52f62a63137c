prop M01
pkg utils/prom
use prom.inc
guard histogramTS.m.Mutex : buckets sum count
pkg utils/sync
smrep Map.m : K , T : val != nil
pkg utils/prom

func stringify(keys, vals)
  modular
  flag pure
  mustpanic len(keys) != len(vals)
  panics len(keys) != len(vals)
  ensures @pairs result == text(keys, vals)
  inv [s: string, n: int] s == lab(arr(keys), arr(vals), off(keys), off(vals), n)

def bucket(h, i) = ite(i < len(h.buckets), h.buckets[i], 0)
func (*histogramTS).observe(this, le, val)
  modular
  modifies obj(this)
  modifies elems(this.buckets)
  modifies spare(this.buckets)
  ensures @counted imp(old(this.count) < 9223372036854775807, this.count == old(this.count) + 1)
  ensures @summed this.sum == old(this.sum) + val
  ensures @buckets len(this.buckets) == ite(old(len(this.buckets)) < len(le), len(le), old(len(this.buckets))) && forall(i, 0, len(le), imp(old(bucket(this, i)) < 9223372036854775807, this.buckets[i] == old(bucket(this, i)) + ite(val <= le[i], 1, 0)))
  ensures @other-buckets forall(i, len(le), len(this.buckets), this.buckets[i] == old(bucket(this, i)))
  inv onlymodifies(obj(this), elems(this.buckets), spare(this.buckets)) && off(this.buckets) == old(off(this.buckets)) && (fresh(this.buckets) || ref(this.buckets) == old(ref(this.buckets)) && cap(this.buckets) == old(cap(this.buckets)))
  inv len(this.buckets) >= pre(len(this.buckets)) && len(this.buckets) <= ite(pre(len(this.buckets)) < len(le), len(le), pre(len(this.buckets))) && forall(i, 0, pre(len(this.buckets)), this.buckets[i] == pre(this.buckets[i])) && forall(i, pre(len(this.buckets)), len(this.buckets), this.buckets[i] == 0)
  inv forall(i, 0, $n, imp(pre(this.buckets[i]) < 9223372036854775807, this.buckets[i] == pre(this.buckets[i]) + ite(val <= le[i], 1, 0)))
  inv forall(i, $n, len(this.buckets), this.buckets[i] == pre(this.buckets[i]))

# the entry of a label combination after the call
func (*Histogram).Observe(this, val, labels)
  flag interfere add
  mustpanic len(this.Labels) != len(labels)
  panics len(this.Labels) != len(labels)
  let !key = text(this.Labels, labels)
  let !n = smops(this.val.m)
  let !e = unbox(smval(smpost(this.val.m, n-1), key), *histogramTS)
  ensures @reached n >= 1 && has(smpost(this.val.m, n-1), key) && e != nil
  ensures @only-its-entry forall(j, 0, n, smpost(this.val.m, j) == smpre(this.val.m, j) || !has(smpre(this.val.m, j), key) && smpost(this.val.m, j) == smput(smpre(this.val.m, j), key, e))
  ensures @new-entry imp(fresh(e), e.count == 1 && e.sum == 0.0 + val && len(e.buckets) == len(this.Buckets) && forall(i, 0, len(this.Buckets), e.buckets[i] == ite(val <= this.Buckets[i], 1, 0)))
  ensures @known-entry imp(!fresh(e), imp(old(e.count) < 9223372036854775807, e.count == old(e.count) + 1) && e.sum == old(e.sum) + val && forall(i, 0, len(this.Buckets), imp(old(bucket(e, i)) < 9223372036854775807, e.buckets[i] == old(bucket(e, i)) + ite(val <= this.Buckets[i], 1, 0))))
  ensures @frame onlymodifies(this.val.m, obj(e), elems(e.buckets), spare(e.buckets))

func (*Histogram).ObserveSince(this, start, labels)
  flag interfere add
  mustpanic len(this.Labels) != len(labels)
  panics len(this.Labels) != len(labels)
  let !key = text(this.Labels, labels)
  let !n = smops(this.val.m)
  let !e = unbox(smval(smpost(this.val.m, n-1), key), *histogramTS)
  ensures @reached n >= 1 && has(smpost(this.val.m, n-1), key) && e != nil
  ensures @only-its-entry forall(j, 0, n, smpost(this.val.m, j) == smpre(this.val.m, j) || !has(smpre(this.val.m, j), key) && smpost(this.val.m, j) == smput(smpre(this.val.m, j), key, e))
  ensures @new-entry imp(fresh(e), e.count == 1 && len(e.buckets) == len(this.Buckets) && forall(i, 0, len(this.Buckets), e.buckets[i] == ite(e.sum <= this.Buckets[i], 1, 0)))
  ensures @known-entry imp(!fresh(e), imp(old(e.count) < 9223372036854775807, e.count == old(e.count) + 1))
  ensures @frame onlymodifies(this.val.m, obj(e), elems(e.buckets), spare(e.buckets))

# printing keeps the data and does not fail, whatever stage the first observation is in
func (*histogramTS).print(this, w, le, name, labels)
  requires w != nil
  ensures @counts this.count == old(this.count) && this.sum == old(this.sum)
  ensures @buckets forall(i, 0, len(this.buckets), this.buckets[i] == old(bucket(this, i)))
  inv this.count == old(this.count) && this.sum == old(this.sum) && forall(i, 0, len(this.buckets), this.buckets[i] == old(bucket(this, i)))
  inv len(this.buckets) >= len(le)
