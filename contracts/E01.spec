prop E01
pkg enc
note a reflect.Value is assignable and its Set methods store what they are given, rounded to a float32 target's precision (reflect's documentation)
note strconv.ParseInt, ParseUint and ParseFloat return the value of the text they are given, or an error (their documentation)
note a float32 target receives the double nearest to the number, rounded again to float32

def kind(v) = lib("reflect:(Value).Kind", 0, v)
def isint(k) = 2 <= k && k <= 6
def isuint(k) = 7 <= k && k <= 11
def isfloat(k) = k == 13 || k == 14
def intfits(k, n) = imp(k == 3, -128 <= n && n <= 127) && imp(k == 4, -32768 <= n && n <= 32767) && imp(k == 5, -2147483648 <= n && n <= 2147483647) && -9223372036854775808 <= n && n <= 9223372036854775807
def uintfits(k, n) = imp(k == 8, n <= 255) && imp(k == 9, n <= 65535) && imp(k == 10, n <= 4294967295) && 0 <= n && n <= 18446744073709551615
def floatfits(k, x) = imp(k == 13, !f32over(x))
def sets() = calls("reflect:(Value).SetInt") + calls("reflect:(Value).SetUint") + calls("reflect:(Value).SetFloat") + calls("reflect:(Value).Set") + calls("reflect:(Value).SetString")
def onlyset(n, f, into, x) = n == 1 && f == into && x
# the integer part of a decimal text: what stands before the point, when only digits follow it
def whole(s) = ite(contains(s, ".") && lib("strings:Trim", 0, cutafter(s, "."), "0123456789") == "", cutbefore(s, "."), s)

func (Integer).unmarshalInto(this, c, handler, into)
  opaque reflect:(Value).SetInt reflect:(Value).SetUint reflect:(Value).SetFloat reflect:(Value).Set reflect:(Value).SetString
  let k = lib("reflect:(Value).Kind", 0, into)
  ensures @exact-int imp(isint(k), (result == nil) == intfits(k, this) && imp(result == nil, sets() == 1 && calls("reflect:(Value).SetInt") == 1 && arg("reflect:(Value).SetInt", 0, 0) == into && arg("reflect:(Value).SetInt", 0, 1) == this))
  ensures @exact-uint imp(isuint(k), (result == nil) == uintfits(k, this) && imp(result == nil, sets() == 1 && calls("reflect:(Value).SetUint") == 1 && arg("reflect:(Value).SetUint", 0, 0) == into && arg("reflect:(Value).SetUint", 0, 1) == this))
  ensures @exact-float imp(isfloat(k), result == nil && sets() == 1 && calls("reflect:(Value).SetFloat") == 1 && arg("reflect:(Value).SetFloat", 0, 0) == into && arg("reflect:(Value).SetFloat", 0, 1) == i2f(this))
  ensures @untouched imp(result != nil, sets() == 0)

func (Float).unmarshalInto(this, c, handler, into)
  opaque reflect:(Value).SetInt reflect:(Value).SetUint reflect:(Value).SetFloat reflect:(Value).Set reflect:(Value).SetString
  let k = lib("reflect:(Value).Kind", 0, into)
  ensures @exact-int imp(isint(k), (result == nil) == (fwithin(this, -9223372036854775808, 9223372036854775807) && intfits(k, ftrunc(this))) && imp(result == nil, sets() == 1 && calls("reflect:(Value).SetInt") == 1 && arg("reflect:(Value).SetInt", 0, 0) == into && arg("reflect:(Value).SetInt", 0, 1) == ftrunc(this)))
  ensures @exact-uint imp(isuint(k), (result == nil) == (fwithin(this, 0, 18446744073709551615) && uintfits(k, ftrunc(this))) && imp(result == nil, sets() == 1 && calls("reflect:(Value).SetUint") == 1 && arg("reflect:(Value).SetUint", 0, 0) == into && arg("reflect:(Value).SetUint", 0, 1) == ftrunc(this)))
  ensures @exact-float imp(isfloat(k), (result == nil) == floatfits(k, this) && imp(result == nil, sets() == 1 && calls("reflect:(Value).SetFloat") == 1 && arg("reflect:(Value).SetFloat", 0, 0) == into && arg("reflect:(Value).SetFloat", 0, 1) == this))
  ensures @untouched imp(result != nil, sets() == 0)

func (Digits).unmarshalInto(this, c, handler, into)
  opaque reflect:(Value).SetInt reflect:(Value).SetUint reflect:(Value).SetFloat reflect:(Value).Set reflect:(Value).SetString
  let k = lib("reflect:(Value).Kind", 0, into)
  let n = lib("strconv:ParseInt", 0, whole(this), 10, 64)
  let u = lib("strconv:ParseUint", 0, whole(this), 10, 64)
  let f = lib("strconv:ParseFloat", 0, this, 64)
  ensures @exact-int imp(isint(k), (result == nil) == (lib("strconv:ParseInt", 1, whole(this), 10, 64) == nil && intfits(k, n)) && imp(result == nil, sets() == 1 && calls("reflect:(Value).SetInt") == 1 && arg("reflect:(Value).SetInt", 0, 0) == into && arg("reflect:(Value).SetInt", 0, 1) == n))
  ensures @exact-uint imp(isuint(k), (result == nil) == (lib("strconv:ParseUint", 1, whole(this), 10, 64) == nil && uintfits(k, u)) && imp(result == nil, sets() == 1 && calls("reflect:(Value).SetUint") == 1 && arg("reflect:(Value).SetUint", 0, 0) == into && arg("reflect:(Value).SetUint", 0, 1) == u))
  ensures @exact-float imp(isfloat(k), (result == nil) == (lib("strconv:ParseFloat", 1, this, 64) == nil && floatfits(k, f)) && imp(result == nil, sets() == 1 && calls("reflect:(Value).SetFloat") == 1 && arg("reflect:(Value).SetFloat", 0, 0) == into && arg("reflect:(Value).SetFloat", 0, 1) == f))
  ensures @untouched imp(result != nil, sets() == 0)
