prop L01
pkg utils/lists
ghost utils/lists/split.go

func Split(in, m)
  mustpanic m <= 0
  panics m <= 0
  ensures @one-group imp(len(in) <= m, len(result) == 1 && result[0] == in)
  ensures @limit forall(g, 0, len(result), len(result[g]) <= m)
  ensures @frame onlymodifies(nothing)
  inv [x: fixed [][]T, c: fixed int] forall(g, 0, $n, ref(x[g]) == ref(in) && off(x[g]) == off(in)+g*c && len(x[g]) == ite(len(in)-g*c < c, len(in)-g*c, c))

# total length of the slices at positions lo..hi-1 of a backing array
fun psum((Array Int Slice), Int, Int) Int
axiom @psum-empty psum : (forall ((r (Array Int Slice)) (lo Int)) (! (= (psum r lo lo) 0) :pattern ((psum r lo lo))))
axiom @psum-step psum : (forall ((r (Array Int Slice)) (lo Int) (i Int)) (! (=> (<= lo i) (= (psum r lo (+ i 1)) (+ (psum r lo i) (sl.len (select r i))))) :pattern ((psum r lo i) (select r i))))
def upto(in, g) = psum(arr(in), off(in), off(in)+g)
def concat(x, in, n) = forall(g, 0, n, 0 <= upto(in, g) && upto(in, g)+len(in[g]) <= len(x) && forall(k, 0, len(in[g]), x[upto(in, g)+k] == in[g][k]))

func Flatten(in)
  ensures @all len(result) == upto(in, len(in))
  ensures @in-order concat(result, in, len(in))
  ensures @frame onlymodifies(nothing)
  inv [x: []T] len(x) == upto(in, $n)
  inv [x: []T] concat(x, in, $n)

func ghostSplitRead(in, m)
  requires m > 0
  ensures @nothing-lost result == len(in)
  inv [x: fixed [][]T, c: fixed int] forall(g, 0, $n, ref(x[g]) == ref(in) && off(x[g]) == off(in)+g*c && len(x[g]) == ite(len(in)-g*c < c, len(in)-g*c, c))
  inv @ghost1 [x: fixed [][]T, n: int] n == ite(len(in) < $n*len(x[0]), len(in), $n*len(x[0]))
