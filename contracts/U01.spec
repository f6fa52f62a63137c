prop U01
pkg utils
note a reader puts at most as many bytes into its buffer as fit, and touches nothing else (io.Reader's contract)
note what the context says of its end is what its Err returns; a reader that never comes back is waited for until the context ends

fun got(Int) String
fun chunk(Int) String
axiom @nothing got : (= (got 0) "")
axiom @more got : (forall ((i Int)) (! (=> (<= 0 i) (= (got (+ i 1)) (str.++ (got i) (chunk i)))) :pattern ((got (+ i 1)))))

# the error returned names its cause, wrapped (NewErrorf, see X02)
def says(x) = result1 == ret("ctx:NewErrorf", calls("ctx:NewErrorf") - 1, 0) && contains(arg("ctx:NewErrorf", calls("ctx:NewErrorf") - 1, 1), "%w") && exists(i, 0, len(arg("ctx:NewErrorf", calls("ctx:NewErrorf") - 1, 2)), arg("ctx:NewErrorf", calls("ctx:NewErrorf") - 1, 2)[i] == x)

func ReadAll(c, r, close)
  requires c != nil && r != nil
  requires forall(j, ret(r.Read, j, 2) == chunk(j))
  flag chan
  flag go-now
  flag record-err
  opaque ctx:NewErrorf
  requires forall(j, ret("ctx:NewErrorf", j, 0) != nil)
  inv [b: bytes.Buffer] b == got(calls(r.Read))
  inv forall(i, 0, calls(r.Read), ret(r.Read, i, 1) == nil)
  let n = calls(r.Read)
  let e = ret(r.Read, n - 1, 1)
  let d = ret(c.Done, 0, 0)
  let cancelled = calls(d, recv) == 1
  ensures @everything imp(!cancelled, n > 0 && bytes2str(result0) == got(n))
  ensures @end imp(!cancelled && e == io.EOF, result1 == nil)
  ensures @cause imp(!cancelled && e != io.EOF, e != nil && result1 != nil && says(e))
  ensures @stops imp(!cancelled, forall(i, 0, n - 1, ret(r.Read, i, 1) == nil))
  ensures @cancelled imp(cancelled, result1 != nil && says(ret(c.Err, calls(c.Err) - 1, 0)))
  ensures @closed calls(close) == ite(close == nil, 0, 1)
