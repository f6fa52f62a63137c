prop L03
pkg utils/lists
ghost utils/lists/perm.go
note the generator's own bookkeeping (elems) is reachable only through the generator: permute makes it, and only next changes it

# each element's place in the original list, all different
def n(g) = len(g.elems)
def wf(g) = len(g.elems) == len(g.inplace) && forall(i, 0, n(g), g.elems[i].orig >= 0 && g.elems[i].orig < n(g)) && forall(i, 0, n(g), forall(j, 0, i, g.elems[i].orig != g.elems[j].orig))
# element i can move in its direction: there is a neighbour there, and it is smaller
def canmove(g, i) = ite(g.elems[i].right, i < n(g)-1 && g.elems[i+1].orig < g.elems[i].orig, i > 0 && g.elems[i-1].orig < g.elems[i].orig)
def target(g, i) = ite(g.elems[i].right, i+1, i-1)
def largest(g, i) = canmove(g, i) && forall(k, 0, n(g), imp(canmove(g, k), g.elems[k].orig <= g.elems[i].orig))

func (*permGen).next(this)
  modular
  modifies elems(this.inplace)
  modifies elems(this.elems)
  requires this != nil && wf(this)
  flag export invariant moves adjacent stuck
  ensures @invariant wf(this) && this.inplace == old(this.inplace) && this.elems == old(this.elems)
  ensures @moves result == exists(b, 0, n(this), old(canmove(this, b)))
  ensures @picks imp(result, exists(b, 0, n(this), old(largest(this, b))))
  ensures @adjacent imp(result, exists(p, 0, n(this)-1, this.inplace[p] == old(this.inplace[p+1]) && this.inplace[p+1] == old(this.inplace[p]) && forall(k, 0, n(this), imp(k != p && k != p+1, this.inplace[k] == old(this.inplace[k])))))
  ensures @stuck imp(!result, forall(i, 0, n(this), this.inplace[i] == old(this.inplace[i]) && this.elems[i] == old(this.elems[i])))
  ensures @swaps imp(result, forall(b, 0, n(this), imp(old(largest(this, b)), this.inplace[b] == old(this.inplace[target(this, b)]) && this.inplace[old(target(this, b))] == old(this.inplace[b]) && forall(k, 0, n(this), imp(k != b && k != old(target(this, b)), this.inplace[k] == old(this.inplace[k]))))))
  ensures @along imp(result, forall(b, 0, n(this), imp(old(largest(this, b)), this.elems[b].orig == old(this.elems[target(this, b)].orig) && this.elems[old(target(this, b))].orig == old(this.elems[b].orig) && forall(k, 0, n(this), imp(k != b && k != old(target(this, b)), this.elems[k].orig == old(this.elems[k].orig))))))
  ensures @turns imp(result, forall(b, 0, n(this), imp(old(largest(this, b)), forall(k, 0, n(this), forall(j, 0, n(this), imp(this.elems[k].orig == old(this.elems[j].orig), this.elems[k].right == (old(this.elems[j].right) != (old(this.elems[j].orig > this.elems[b].orig)))))))))
  inv [o: int, b: int] ite(b < 0, o == -1, b < $n && canmove(this, b) && o == this.elems[b].orig)
  inv [o: int] forall(k, 0, $n, imp(canmove(this, k), this.elems[k].orig <= o))
  inv [o: fixed int] forall(k, 0, n(this), this.elems[k].orig == pre(this.elems[k].orig) && this.elems[k].right == (pre(this.elems[k].right) != (k < $n && pre(this.elems[k].orig) > o)))
  inv onlymodifies(elems(this.elems))

def swap1(a, b) = len(a) == len(b) && exists(p, 0, len(a)-1, a[p] == b[p+1] && a[p+1] == b[p] && forall(k, 0, len(a), imp(k != p && k != p+1, a[k] == b[k])))
func permute(inplace)
  modular
  ensures @fresh-state fresh(result) && result.inplace == inplace && wf(result) && forall(i, 0, len(inplace), result.elems[i].orig == i && !result.elems[i].right) && fresh(result.elems)
  inv [g: fixed *permGen[T]] g.inplace == inplace && len(g.elems) == len(inplace) && fresh(g) && fresh(g.elems)
  inv [g: fixed *permGen[T]] forall(k, 0, $n, g.elems[k].orig == k && !g.elems[k].right)

func ghostFirst(inplace)
  ensures @first-call result && onlymodifies(nothing)

func ghostSecond(inplace)
  ensures @second-call imp(result, exists(p, 0, len(inplace)-1, inplace[p] == old(inplace[p+1]) && inplace[p+1] == old(inplace[p]) && forall(k, 0, len(inplace), imp(k != p && k != p+1, inplace[k] == old(inplace[k])))))
  ensures @stays imp(!result, forall(k, 0, len(inplace), inplace[k] == old(inplace[k])))

func ghostThird(inplace)
  ensures @third-call ite(result0, swap1(inplace, result1), forall(k, 0, len(inplace), inplace[k] == result1[k]))
