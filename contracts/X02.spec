prop X02
pkg ctx
ghost ctx/error.go
note errors of other packages answer Is alike for an Error and for a pointer to an Error (library contract of errors.Is)
note fmt.Errorf keeps the errors of its %w verbs reachable (library contract)

# the error carries a stack somewhere in its chain
def carries(err) = erris(err, zero(Error))
def wellbehaved(err) = forallT(p, *Error, erris(err, p) == carries(err))
def wraps(w, err, c) = typeis(w, Error) && unbox(w, Error).Err == err && unbox(w, Error).C == c && unbox(w, Error).Stack != nil

func maybeWrap(c, err)
  requires err != nil && wellbehaved(err)
  ensures @kept imp(carries(err), result == err)
  ensures @wrapped imp(!carries(err), wraps(result, err, c))
  ensures @frame onlymodifies(nothing)
  inv [s: []string] s != nil

func WrapError(c, err)
  requires imp(err != nil, wellbehaved(err))
  ensures @nil imp(err == nil, result == nil)
  ensures @kept imp(err != nil && carries(err), result == err)
  ensures @wrapped imp(err != nil && !carries(err), wraps(result, err, c))
  ensures @frame onlymodifies(nothing)
  inv [s: []string] s != nil

func NewErrorf(c, f, args)
  opaque fmt:Errorf
  let made = ret("fmt:Errorf", 0, 0)
  requires made != nil && wellbehaved(made)
  ensures @formatted calls("fmt:Errorf") == 1 && arg("fmt:Errorf", 0, 0) == f && arg("fmt:Errorf", 0, 1) == args
  ensures @kept imp(carries(made), result == made)
  ensures @wrapped imp(!carries(made), wraps(result, made, c))
  ensures @frame onlymodifies(nothing)
  inv [s: []string] s != nil

func (Error).Error(err)
  requires err.Err != nil
  ensures @same-message result == errmsg(err.Err)

func (Error).Unwrap(err)
  ensures @cause result == err.Err

func (Error).Is(this, err)
  ensures @matches result == (typeis(err, Error) || typeis(err, *Error) || erris(this.Err, err))

func ghostTransparent(c, err, target)
  requires err != nil && target != nil && wellbehaved(err)
  ensures @same-message result1 == errmsg(err)
  ensures @same-matches imp(!typeis(target, Error) && !typeis(target, *Error), result3 == result2)
  ensures @matches-on imp(result2, result3)
  inv [s: []string] s != nil

func ghostTwice(c, d, err)
  requires err != nil && wellbehaved(err)
  ensures @once result0 == result1
  inv [s: []string] s != nil
