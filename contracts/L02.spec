prop L02
pkg utils/lists

func Contains(a, i)
  ensures @exact result == exists(k, 0, len(a), a[k] == i)
  ensures @frame onlymodifies(nothing)
  inv [n: int] forall(k, 0, n, a[k] != i)
  inv forall(k, 0, $n, a[k] != i)

func AddUnique(a, i)
  let present = exists(k, 0, len(a), old(a[k]) == i)
  ensures @present imp(present, result == a)
  ensures @length imp(!present, len(result) == len(a)+1)
  ensures @keeps forall(k, 0, len(a), result[k] == old(a[k]))
  ensures @appended imp(!present, result[len(a)] == i)
  ensures @frame onlymodifies(spare(a))
  inv forall(k, 0, $n, a[k] != i)

func Copy(a)
  ensures @length len(result) == len(a)
  ensures @same forall(k, 0, len(a), result[k] == old(a[k]))
  ensures @fresh fresh(result)
  ensures @frame onlymodifies(nothing)

func Reverse(a)
  ensures @mirrored forall(k, 0, len(a), a[k] == old(a[len(a)-1-k]))
  ensures @frame onlymodifies(elems(a))
  inv forall(k, 0, $n, a[k] == pre(a[len(a)-1-k]) && a[len(a)-1-k] == pre(a[k]))
  inv forall(k, $n, len(a)-$n, a[k] == pre(a[k]))
