prop U02
pkg utils
note errors.Is is the library's answer to "is the marker in the chain of this error"
note a panic of the gated function passes through

func ErrorGate(f)
  requires f != nil
  flag callbacks-panic
  ensures @once calls(f) == 1
  ensures @marker arg(f, 0, 0) != nil && typeis(arg(f, 0, 0), errGate)
  ensures @gate result == ite(erris(ret(f, 0, 0), arg(f, 0, 0)), nil, ret(f, 0, 0))
  ensures @frame onlymodifies(nothing)

func (errGate).Error(err)
  ensures @own-text result != ""
