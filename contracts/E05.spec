prop E05
pkg enc
note a channel hands over each value once, in the order sent, and is at its end once it is closed and empty (Go language); each end reads the channel the other writes (shown)
note what the context says of its end is what its Err returns

def cross(a, b) = a.Send == b.Recv && b.Send == a.Recv

func NewPipe(buf)
  panics buf < 0
  ensures @crossed cross(result0, result1)
  ensures @two-ways result0.Send != result1.Send && result0.Send != nil && result1.Send != nil
  ensures @open !closed(result0.Send) && !closed(result1.Send)
  ensures @frame fresh(result0.Send) && fresh(result1.Send)

func (Pipe).Read(this, c)
  requires c != nil
  flag chan
  flag record-err
  let n = calls(this.Recv, recv)
  ensures @message imp(n == 1 && arg(this.Recv, recv, 0, 1), result0 == arg(this.Recv, recv, 0, 0) && result1 == nil)
  ensures @end imp(n == 1 && !arg(this.Recv, recv, 0, 1), result0 == nil && result1 == io.EOF)
  ensures @cancelled imp(n == 0, result0 == nil && calls(c.Done) == 1 && calls(ret(c.Done, 0, 0), recv) == 1 && calls(c.Err) == 1 && result1 == ret(c.Err, 0, 0))
  ensures @one n <= 1
  ensures @leaves calls(this.Send, send) == 0 && calls(this.Send, close) == 0
  ensures @frame onlymodifies(nothing)

func (Pipe).Write(this, c, n)
  requires c != nil
  flag chan
  flag record-err
  let k = calls(this.Send, send)
  ensures @handed imp(k == 1, result == nil && arg(this.Send, send, 0, 0) == n)
  ensures @refused imp(k == 0, result == io.ErrClosedPipe && closed(this.Send) || calls(c.Done) == 1 && calls(ret(c.Done, 0, 0), recv) == 1 && calls(c.Err) == 1 && result == ret(c.Err, 0, 0))
  ensures @one k <= 1
  ensures @leaves calls(this.Send, close) == 0
  ensures @frame onlymodifies(nothing)

func (Pipe).Close(this, c)
  flag chan
  flag record-err
  requires this.Send != this.Recv
  ensures @ended imp(this.Send != nil, closed(this.Send)) && result == nil
  ensures @once calls(this.Send, close) == ite(this.Send == nil || old(closed(this.Send)), 0, 1)
  ensures @own-end calls(this.Recv, close) == 0 && imp(this.Recv != nil, closed(this.Recv) == old(closed(this.Recv)))
