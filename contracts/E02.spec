prop E02
pkg enc
note a value of type *ctx.Error is of pointer kind, nil for reflect when it is nil (reflect's documentation); a ctx.Error holds an error
note reflect's getters (Bool, Int, Uint, Float, String, IsNil, Elem) give what the value holds (reflect's documentation); strconv.FormatUint writes the number in decimal
note what a value that encodes itself answers is what MarshalNode, MarshalJSON or Error return

def value(x) = lib("reflect:ValueOf", 0, x)
def kind(x) = lib("reflect:(Value).Kind", 0, value(x))
def self(x) = typeis(x, Marshaler) || typeis(x, time.Time) || typeis(x, ctx.Error) || typeis(x, *ctx.Error) || typeis(x, json.Marshaler) || typeis(x, Node)
def plain(x) = x != nil && !self(x)
def is(n, x) = n == x
def uintof(x) = lib("reflect:(Value).Uint", 0, value(x))
def asks(x) = calls(unbox(x, Marshaler).MarshalNode)
def writesjson(x) = calls(unbox(x, json.Marshaler).MarshalJSON)

func (Handler).Marshal(this, c, in)
  opaque (Handler).Marshal (JSON).Decode parseTag
  merge NewErrorf
  let k = kind(in)
  let gone = k == 22 && lib("reflect:(Value).IsNil", 0, value(in))
  requires imp(typeis(in, ctx.Error), unbox(in, ctx.Error).Err != nil)
  requires imp(typeis(in, *ctx.Error), k == 22 && lib("reflect:(Value).IsNil", 0, value(in)) == (unbox(in, *ctx.Error) == nil))
  requires imp(typeis(in, *ctx.Error) && unbox(in, *ctx.Error) != nil, unbox(in, *ctx.Error).Err != nil)
  ensures @nothing imp(in == nil, result1 == nil && result0 == box(zero(Nil)))
  ensures @asked-once imp(in != nil && !gone && typeis(in, Marshaler), asks(in) == 1 && arg(unbox(in, Marshaler).MarshalNode, 0, 0) == c && result0 == ret(unbox(in, Marshaler).MarshalNode, 0, 0) && result1 == ret(unbox(in, Marshaler).MarshalNode, 0, 1))
  ensures @json-once imp(in != nil && !gone && !typeis(in, Marshaler) && !typeis(in, time.Time) && !typeis(in, ctx.Error) && !typeis(in, *ctx.Error) && typeis(in, json.Marshaler), writesjson(in) == 1)
  ensures @as-is imp(in != nil && !gone && !typeis(in, Marshaler) && !typeis(in, time.Time) && !typeis(in, ctx.Error) && !typeis(in, *ctx.Error) && !typeis(in, json.Marshaler) && typeis(in, Node), result1 == nil && result0 == in)
  ensures @bool imp(plain(in) && !gone && k == 1, result1 == nil && result0 == box(Bool(lib("reflect:(Value).Bool", 0, value(in)))))
  ensures @signed imp(plain(in) && !gone && 2 <= k && k <= 6, result1 == nil && result0 == box(Integer(lib("reflect:(Value).Int", 0, value(in)))))
  ensures @unsigned imp(plain(in) && !gone && 7 <= k && k <= 11, result1 == nil && result0 == ite(uintof(in) <= 9223372036854775807, box(Integer(uintof(in))), box(Digits(lib("strconv:FormatUint", 0, uintof(in), 10)))))
  ensures @float imp(plain(in) && !gone && (k == 13 || k == 14), result1 == nil && result0 == box(Float(lib("reflect:(Value).Float", 0, value(in)))))
  ensures @text imp(plain(in) && !gone && k == 24, result1 == nil && result0 == box(String(lib("reflect:(Value).String", 0, value(in)))))
  ensures @refused imp(plain(in) && !gone && (k == 19 || k == 12 || k == 15 || k == 16 || k == 18 || k == 26), result0 == nil && result1 != nil)
  ensures @nil-pointer imp(in != nil && gone, result1 == nil && result0 == box(zero(Nil)))
  ensures @nil-value imp(plain(in) && !gone && (k == 23 || k == 21) && lib("reflect:(Value).IsNil", 0, value(in)), result1 == nil && result0 == box(zero(Nil)))
