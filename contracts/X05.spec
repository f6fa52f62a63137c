prop X05
pkg ctx/log
ghost log/options.go
note a context's value for a key is a function of the context and the key
note what the log functions and helpers do is not described: the calls they get are

# the options a context carries are what these functions put there
def conf(c) = c != nil && imp(typeis(ctxvalue(c, zero(configKey)), *config), unbox(ctxvalue(c, zero(configKey)), *config) != nil)
def once(l, c, level, src, f, args) = calls(l) == 1 && arg(l, 0, 0) == c && arg(l, 0, 1) == level && arg(l, 0, 2) == src && arg(l, 0, 3) == f && arg(l, 0, 4) == args

def lv(l, level, f, args) = calls(l) == 1 && arg(l, 0, 1) == level && arg(l, 0, 3) == f && arg(l, 0, 4) == args

func WithLogFunc(c, l)
  requires conf(c)
  ensures @frame onlymodifies(nothing)

func WithHelper(c, h)
  requires conf(c)
  ensures @frame onlymodifies(nothing)

func ghostCustom(c, l, h, level, src, f, args)
  flag tracelog
  requires conf(c) && l != nil && h != nil
  ensures @once once(l, result, level, src, f, args)
  ensures @helper calls(h) >= 1
  ensures @frame onlymodifies(nothing)

func ghostCustom2(c, l, h, level, src, f, args)
  flag tracelog
  requires conf(c) && l != nil && h != nil
  ensures @once once(l, result, level, src, f, args)
  ensures @helper calls(h) >= 1
  ensures @frame onlymodifies(nothing)

func ghostBelow(c, l, key, val, level, src, f, args)
  flag tracelog
  requires conf(c) && l != nil && key != nil && !typeis(key, configKey)
  ensures @once once(l, result, level, src, f, args)
  ensures @frame onlymodifies(nothing)

func ghostParent(c, l, m, h, level, src, f, args)
  flag tracelog
  requires conf(c) && l != nil && m != nil && h != nil && l != m
  ensures @once once(l, result, level, src, f, args)
  ensures @not-the-child calls(m) == 0 && imp(!typeis(ctxvalue(c, zero(configKey)), *config), calls(h) == 0)
  ensures @frame onlymodifies(nothing)

func ghostSibling(c, l, m, h, level, src, f, args)
  flag tracelog
  requires conf(c) && l != nil && m != nil && h != nil && l != m
  ensures @once once(l, result, level, src, f, args)
  ensures @not-the-sibling calls(m) == 0 && imp(!typeis(ctxvalue(c, zero(configKey)), *config), calls(h) == 0)
  ensures @frame onlymodifies(nothing)

func ghostChild(c, l, m, level, src, f, args)
  flag tracelog
  requires conf(c) && l != nil && m != nil && l != m
  ensures @once once(m, result, level, src, f, args)
  ensures @not-the-parent calls(l) == 0
  ensures @frame onlymodifies(nothing)

func ghostLevels(c, e, w, i, d, f, args)
  flag tracelog
  requires conf(c) && e != nil && w != nil && i != nil && d != nil && e != w && e != i && e != d && w != i && w != d && i != d
  ensures @error lv(e, 8, f, args)
  ensures @warn lv(w, 4, f, args)
  ensures @info lv(i, 0, f, args)
  ensures @debug lv(d, -4, f, args)
  ensures @frame onlymodifies(nothing)
