prop X03
pkg ctx
ghost ctx/detach.go
note a context's value for a key is a function of the context and the key
note a channel that is nil never becomes ready (Go language)

func ghostDetached(c, key)
  requires c != nil
  ensures @same-value result0 == ctxvalue(c, key)
  ensures @no-deadline !result2 && result1 == zero(time.Time)
  ensures @never-done result3 == nil
  ensures @no-error result4 == nil
