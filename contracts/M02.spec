prop M02
pkg utils/prom
use prom.inc
guard counter.m.Mutex : sum
atomic GaugeCounter : val
pkg utils/sync
smrep Map.m : K , T : val != nil
pkg utils/prom
note entries of the label maps are non-nil (shown at every write)
note float accumulation is the machine's own addition (uninterpreted rounding)

func stringify(keys, vals)
  modular
  flag pure
  mustpanic len(keys) != len(vals)
  panics len(keys) != len(vals)
  ensures @pairs result == text(keys, vals)
  inv [s: string, n: int] s == lab(arr(keys), arr(vals), off(keys), off(vals), n)

# op j of the call is the only one that may change the label map, and only by adding key
def addsonly(m, key) = forall(j, 0, smops(m.m), smpost(m.m, j) == smpre(m.m, j) || !has(smpre(m.m, j), key) && forallS(k, "Any", k == box(key) || smval(smpost(m.m, j), k) == smval(smpre(m.m, j), k) && has(smpost(m.m, j), k) == has(smpre(m.m, j), k)))

func (*counter).observe(this, val)
  ensures @summed this.sum == old(this.sum) + val
  ensures @frame onlymodifies(this.sum)

func (*counter).value(this)
  ensures @value result == old(this.sum)
  ensures @frame onlymodifies(nothing)

func (*Counter).Observe(this, val, labels)
  flag interfere add
  mustpanic len(this.Labels) != len(labels)
  panics len(this.Labels) != len(labels)
  let !key = text(this.Labels, labels)
  let !n = smops(this.val.m)
  let !e = unbox(smval(smpost(this.val.m, n-1), key), *counter)
  ensures @reached n >= 1 && has(smpost(this.val.m, n-1), key) && e != nil
  ensures @only-its-entry addsonly(&this.val, key)
  ensures @new-entry imp(fresh(e), e.sum == 0.0 + val)
  ensures @known-entry imp(!fresh(e), e.sum == old(e.sum) + val)
  ensures @frame onlymodifies(this.val.m, e.sum)

func (*Gauge).Counter(this, labels)
  flag interfere add
  mustpanic len(this.Labels) != len(labels)
  let !key = text(this.Labels, labels)
  let !n = smops(this.val.m)
  let !v = smval(smpost(this.val.m, n-1), key)
  maypanic
  ensures @reached n >= 1 && has(smpost(this.val.m, n-1), key) && typeis(v, *GaugeCounter) && result == unbox(v, *GaugeCounter)
  ensures @only-its-entry addsonly(&this.val, key)
  ensures @new-entry imp(fresh(result), result.val == 0)
  ensures @frame onlymodifies(this.val.m)
  onpanic @documented len(this.Labels) != len(labels) || has(smpost(this.val.m, n-1), key) && !typeis(v, *GaugeCounter)
  onpanic @only-its-entry addsonly(&this.val, key)
  onpanic @frame onlymodifies(this.val.m)

def int64range(x) = -9223372036854775808 <= x && x <= 9223372036854775807
func (*GaugeCounter).Inc(this, amt)
  flag interfere
  ensures @self result == this
  ensures @atomic exists(i, 0, aops(this.val), forall(j, 0, aops(this.val), imp(i != j, apre(this.val, j) == apost(this.val, j))) && imp(int64range(apre(this.val, i) + amt), apost(this.val, i) == apre(this.val, i) + amt))
  ensures @frame onlymodifies(this.val)

func (*GaugeCounter).Dec(this, amt)
  flag interfere
  ensures @self result == this
  ensures @atomic exists(i, 0, aops(this.val), forall(j, 0, aops(this.val), imp(i != j, apre(this.val, j) == apost(this.val, j))) && imp(int64range(apre(this.val, i) - amt), apost(this.val, i) == apre(this.val, i) - amt))
  ensures @frame onlymodifies(this.val)

func (*GaugeCounter).value(this)
  flag interfere
  ensures @atomic exists(i, 0, aops(this.val), result == i2f(apre(this.val, i))) && forall(j, 0, aops(this.val), apre(this.val, j) == apost(this.val, j))
  ensures @frame onlymodifies(this.val)

func (*Gauge).SetFunc(this, f, labels)
  flag interfere
  mustpanic len(this.Labels) != len(labels)
  panics len(this.Labels) != len(labels)
  let !key = text(this.Labels, labels)
  let !m = this.val.m
  ensures @self result == this
  ensures @effect exists(i, 0, smops(this.val.m), forall(j, 0, smops(this.val.m), imp(j != i, smpost(this.val.m, j) == smpre(this.val.m, j))) && smpost(this.val.m, i) == ite(f == nil, smdel(smpre(this.val.m, i), key), smput(smpre(this.val.m, i), key, box(gaugeFunc(f)))))
  ensures @not-called calls(f) == 0
  ensures @frame onlymodifies(this.val.m)
