prop M03
pkg utils/prom
use prom.inc
guard counter.m.Mutex : sum
guard histogramTS.m.Mutex : buckets sum count
atomic GaugeCounter : val
pkg utils/sync
smrep Map.m : K , T : val != nil
pkg utils/prom
note the entries do not change while they are printed except through their locks; the value printed is the one read under the lock

func stringify(keys, vals)
  modular
  flag pure
  mustpanic len(keys) != len(vals)
  panics len(keys) != len(vals)
  ensures @pairs result == text(keys, vals)
  inv [s: string, n: int] s == lab(arr(keys), arr(vals), off(keys), off(vals), n)

def key(this, j) = unbox(smvisit(this.val.m, j), string)
def nm(name, l) = ite(l == "", name, name + "{" + l + "}")
def eachonce(this, n) = forall(i, 0, n, forall(j, 0, i, smvisit(this.val.m, i) != smvisit(this.val.m, j)))
def centry(this, j) = unbox(smval(this.val.m, smvisit(this.val.m, j)), *counter)
def cexpect(this, j) = ite(j == 0, "# HELP " + this.Name + " " + this.Desc + "\n", ite(j == 1, "# TYPE " + this.Name + ite(this.Gauge, " gauge\n", " counter\n"), nm(this.Name, key(this, j-2)) + " " + fmtv("f", centry(this, j-2).sum) + "\n"))

func (*Counter).Print(this, w)
  requires w != nil
  let n = smvisits(this.val.m)
  ensures @complete imp(result == nil, writes(w) == ite(n == 0, 0, n+2) && forallS(k, "Any", imp(has(this.val.m, k), exists(j, 0, n, smvisit(this.val.m, j) == k))))
  ensures @once eachonce(this, n)
  ensures @text forall(j, 0, writes(w), written(w, j) == cexpect(this, j))
  ensures @no-error forall(j, 0, writes(w)-1, writeerr(w, j) == nil)
  ensures @first-error ite(result == nil, imp(writes(w) > 0, writeerr(w, writes(w)-1) == nil), writes(w) > 0 && writeerr(w, writes(w)-1) == result)
  ensures @frame onlymodifies(nothing)
  inv [first: bool] first == ($n == 0)
  inv smvisits(this.val.m) == $n
  inv forall(j, 0, $n, visited(smvisit(this.val.m, j)))
  inv forallS(k, "Any", imp(visited(k), exists(j, 0, $n, smvisit(this.val.m, j) == k)))
  inv eachonce(this, $n)
  inv writes(w) == ite($n == 0, 0, $n+2)
  inv forall(j, 0, writes(w), written(w, j) == cexpect(this, j))
  inv forall(j, 0, writes(w), writeerr(w, j) == nil)

# the value a gauge entry reports: the counter's value, or whatever its function returned
def okentry(x) = typeis(x, *GaugeCounter) && unbox(x, *GaugeCounter) != nil || typeis(x, gaugeFunc) && unbox(x, gaugeFunc) != nil
def gentry(this, j) = smval(this.val.m, smvisit(this.val.m, j))
def gline(this, name, x, l, s) = ite(typeis(x, *GaugeCounter), s == nm(name, l) + " " + fmtv("v", i2f(unbox(x, *GaugeCounter).val)) + "\n", existsT(v, float64, s == nm(name, l) + " " + fmtv("v", v) + "\n"))
def gexpect(this, name, j, s) = ite(j == 0, s == "# HELP " + name + " " + this.Desc + "\n", ite(j == 1, s == "# TYPE " + name + " gauge\n", gline(this, name, gentry(this, j-2), key(this, j-2), s)))

func (*Gauge).Print(this, name, w)
  requires w != nil
  requires forallS(k, "Any", imp(has(this.val.m, k), okentry(smval(this.val.m, k))))
  let n = smvisits(this.val.m)
  ensures @complete imp(result == nil, writes(w) == ite(n == 0, 0, n+2) && forallS(k, "Any", imp(has(this.val.m, k), exists(j, 0, n, smvisit(this.val.m, j) == k))))
  ensures @once eachonce(this, n)
  ensures @text forall(j, 0, writes(w), gexpect(this, name, j, written(w, j)))
  ensures @no-error forall(j, 0, writes(w)-1, writeerr(w, j) == nil)
  ensures @first-error ite(result == nil, imp(writes(w) > 0, writeerr(w, writes(w)-1) == nil), writes(w) > 0 && writeerr(w, writes(w)-1) == result)
  ensures @frame onlymodifies(nothing)
  inv [first: bool] first == ($n == 0)
  inv smvisits(this.val.m) == $n
  inv forall(j, 0, $n, visited(smvisit(this.val.m, j)))
  inv forallS(k, "Any", imp(visited(k), exists(j, 0, $n, smvisit(this.val.m, j) == k)))
  inv eachonce(this, $n)
  inv writes(w) == ite($n == 0, 0, $n+2)
  inv forall(j, 0, writes(w), gexpect(this, name, j, written(w, j)))
  inv forall(j, 0, writes(w), writeerr(w, j) == nil)

# one entry: a line per bound in order, then +Inf, sum and count
def blabel(labels) = ite(labels == "", "", labels + ",")
def hexpect(this, le, name, labels, j, s) = ite(j < len(le), s == name + "_bucket{" + blabel(labels) + "le=\"" + fmtv("v", le[j]) + "\"} " + itoa(this.buckets[j]) + "\n", ite(j == len(le), s == name + "_bucket{" + blabel(labels) + "le=\"+Inf\"} " + itoa(this.count) + "\n", ite(j == len(le) + 1, s == nm(name + "_sum", labels) + " " + fmtv("f", this.sum) + "\n", s == nm(name + "_count", labels) + " " + itoa(this.count) + "\n")))

func (*histogramTS).print(this, w, le, name, labels)
  requires w != nil
  ensures @complete imp(result == nil, writes(w) == len(le) + 3)
  ensures @text writes(w) <= len(le) + 3 && forall(j, 0, writes(w), hexpect(this, le, name, labels, j, written(w, j)))
  ensures @no-error forall(j, 0, writes(w)-1, writeerr(w, j) == nil)
  ensures @first-error writes(w) > 0 && writeerr(w, writes(w)-1) == result
  ensures @counts this.count == old(this.count) && this.sum == old(this.sum) && forall(i, 0, len(this.buckets), this.buckets[i] == old(ite(i < len(this.buckets), this.buckets[i], 0)))
  inv this.count == old(this.count) && this.sum == old(this.sum) && forall(i, 0, len(this.buckets), this.buckets[i] == old(ite(i < len(this.buckets), this.buckets[i], 0)))
  inv len(this.buckets) >= len(le)
  inv writes(w) == $n
  inv writes(w) == 0
  inv forall(j, 0, $n, hexpect(this, le, name, labels, j, written(w, j)))
  inv forall(j, 0, writes(w), writeerr(w, j) == nil)

def custline(m, k) = k + " " + fmtv("v", m[k]) + "\n"
func (*Custom).Print(this, name, w)
  requires w != nil && this.Func != nil
  let m = ret(this.Func, 0, 0)
  ensures @asked calls(this.Func) == 1
  ensures @nothing imp(len(m) == 0, writes(w) == 0 && result == nil)
  ensures @headers imp(writes(w) > 0, written(w, 0) == "# HELP " + name + " " + this.Desc + "\n") && imp(writes(w) > 1, written(w, 1) == "# TYPE " + name + " " + this.Type + "\n")
  ensures @no-error forall(j, 0, writes(w)-1, writeerr(w, j) == nil)
  ensures @first-error ite(result == nil, imp(writes(w) > 0, writeerr(w, writes(w)-1) == nil), writes(w) > 0 && writeerr(w, writes(w)-1) == result)
  ensures @once imp(result == nil && len(m) > 0, writes(w) == 2 + len(m))
  ensures @frame onlymodifies(nothing)
  ensures @lines forall(j, 2, writes(w), existsT(k, string, written(w, j) == custline(m, k)))
  inv [x: fixed []string] forall(i, 0, $n, written(w, 2+i) == custline(m, x[i]))
  inv [x: []string] len(x) == $n
  inv [x: []string] fresh(x)
  inv imp(writes(w) >= 2, written(w, 0) == "# HELP " + name + " " + this.Desc + "\n" && written(w, 1) == "# TYPE " + name + " " + this.Type + "\n")
  inv writes(w) == $n + 2
  inv forall(j, 0, writes(w), writeerr(w, j) == nil)

func (*Gauge).SetFunc(this, f, labels)
  maypanic
  ensures @kept forall(j, 0, smops(this.val.m), forallS(k, "Any", imp(has(smpost(this.val.m, j), k), smval(smpost(this.val.m, j), k) == smval(smpre(this.val.m, j), k) || okentry(smval(smpost(this.val.m, j), k)))))

func (*Gauge).Counter(this, labels)
  maypanic
  ensures @kept forall(j, 0, smops(this.val.m), forallS(k, "Any", imp(has(smpost(this.val.m, j), k), smval(smpost(this.val.m, j), k) == smval(smpre(this.val.m, j), k) || okentry(smval(smpost(this.val.m, j), k)))))

# the whole histogram: the headers, then each entry printed once under its own labels by (*histogramTS).print (its contract is above)
def hprinted(this, w, name, j) = arg("(*histogramTS).print", j, 0) == unbox(smval(this.val.m, smvisit(this.val.m, j)), *histogramTS) && arg("(*histogramTS).print", j, 1) == w && arg("(*histogramTS).print", j, 2) == this.Buckets && arg("(*histogramTS).print", j, 3) == name && arg("(*histogramTS).print", j, 4) == key(this, j)
func (*Histogram).Print(this, name, w)
  requires w != nil
  opaque (*histogramTS).print
  let n = smvisits(this.val.m)
  let p = calls("(*histogramTS).print")
  ensures @complete imp(result == nil, p == n && forallS(k, "Any", imp(has(this.val.m, k), exists(j, 0, n, smvisit(this.val.m, j) == k))))
  ensures @once eachonce(this, n)
  ensures @headers writes(w) <= 2 && imp(result == nil, writes(w) == ite(n == 0, 0, 2)) && imp(p > 0, writes(w) == 2) && imp(writes(w) > 0, written(w, 0) == "# HELP " + name + " " + this.Desc + "\n") && imp(writes(w) > 1, written(w, 1) == "# TYPE " + name + " histogram\n")
  ensures @headers-first forall(j, 0, p, at("(*histogramTS).print", j) > writeat(w, 1))
  ensures @entries forall(j, 0, p, hprinted(this, w, name, j))
  ensures @no-error forall(j, 0, p-1, ret("(*histogramTS).print", j, 0) == nil) && forall(j, 0, writes(w)-1, writeerr(w, j) == nil)
  ensures @first-error ite(p > 0, result == ret("(*histogramTS).print", p-1, 0), ite(writes(w) > 0, result == writeerr(w, writes(w)-1), result == nil))
  ensures @frame onlymodifies(nothing)
  inv [first: bool] first == ($n == 0)
  inv smvisits(this.val.m) == $n
  inv calls("(*histogramTS).print") == $n
  inv forall(j, 0, $n, ret("(*histogramTS).print", j, 0) == nil)
  inv forall(j, 0, $n, hprinted(this, w, name, j))
  inv imp(writes(w) >= 2, forall(j, 0, $n, at("(*histogramTS).print", j) > writeat(w, 1)))
  inv imp(writes(w) >= 2, writeat(w, 1) < clk())
  inv forall(j, 0, $n, visited(smvisit(this.val.m, j)))
  inv forallS(k, "Any", imp(visited(k), exists(j, 0, $n, smvisit(this.val.m, j) == k)))
  inv eachonce(this, $n)
  inv writes(w) == ite($n == 0, 0, 2)
  inv forall(j, 0, writes(w), writeerr(w, j) == nil)
  inv imp(writes(w) >= 2, written(w, 0) == "# HELP " + name + " " + this.Desc + "\n" && written(w, 1) == "# TYPE " + name + " histogram\n")
