prop X04
pkg ctx
ghost ctx/track.go
atomic trackingCtx : Last
note the hexadecimal text of a number determines the number (library contract)

def tracked(p) = typeis(p, *trackingCtx) && unbox(p, *trackingCtx) != nil && unbox(p, *trackingCtx).C != nil

func ghostDerived(c, suggest, key, val, tag, tv)
  opaque github.com/google/uuid:NewString
  requires c != nil && key != nil && !typeis(key, trackingGet)
  ensures @same result1 == result0
  ensures @suggested imp(suggest != "", result0 == suggest)
  ensures @new imp(suggest == "", calls("github.com/google/uuid:NewString") == 1 && result0 == ret("github.com/google/uuid:NewString", 0, 0))

func ghostNext(c, first, second)
  opaque github.com/google/uuid:NewString
  requires c != nil && first != "" && second != ""
  ensures @outer result0 == first
  ensures @inner result1 == second
  ensures @frame onlymodifies(nothing)

func ghostSpans(c, suggest)
  opaque github.com/google/uuid:NewString
  requires c != nil && suggest != ""
  ensures @first result0 == suggest + "." + fmtv("x", int32(1))
  ensures @second result1 == suggest + "." + fmtv("x", int32(2))

func ghostSpan(p)
  opaque github.com/google/uuid:NewString
  flag interfere
  let this = unbox(p, *trackingCtx)
  requires tracked(p) && this.ID != ""
  ensures @one-step aops(this.Last) == 1 && (apost(this.Last, 0) == apre(this.Last, 0) + 1 || apre(this.Last, 0) == 2147483647 && apost(this.Last, 0) == -2147483648)
  ensures @numbered result == old(this.ID) + "." + fmtv("x", apost(this.Last, 0))
