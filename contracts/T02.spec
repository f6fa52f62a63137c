prop T02
pkg test
guard BufferedRWC.Mutex : ToRead readClosed Written
note acq(...) is the moment the lock was last taken: by this call, or again after waiting
note sync.Cond: Wait releases the lock, Broadcast wakes every waiter, Signal one (library contract); a stream is used after NewBufferedRWC made it
note Closed is for the tests that use the double, nothing reads it

def ready(s) = s.cond.L == box(&s.Mutex)
def woken(s) = calls("sync:(*Cond).Broadcast") >= 1 && arg("sync:(*Cond).Broadcast", 0, 0) == &s.cond

func NewBufferedRWC()
  ensures @ready fresh(result) && ready(result) && len(result.ToRead) == 0 && len(result.Written) == 0 && !result.readClosed

func (*BufferedRWC).Append(this, p)
  requires ready(this)
  opaque sync:(*Cond).Signal
  opaque sync:(*Cond).Broadcast
  let n = old(len(this.ToRead))
  panics this.readClosed
  onpanic panicval == io.ErrClosedPipe && onlymodifies(nothing)
  ensures @last len(this.ToRead) == n + 1 && len(this.ToRead[n]) == len(p) && forall(i, 0, len(p), this.ToRead[n][i] == old(p[i]))
  ensures @own-copy ref(this.ToRead[n]) != ref(p) || len(p) == 0
  ensures @before forall(i, 0, n, this.ToRead[i] == old(this.ToRead[i]))
  ensures @wakes calls("sync:(*Cond).Signal") + calls("sync:(*Cond).Broadcast") >= 1
  ensures @rest this.readClosed == old(this.readClosed) && this.Written == old(this.Written)

func (*BufferedRWC).Read(this, dst)
  requires ready(this)
  flag acq
  let q = acq(this.ToRead)
  let over = acq(len(this.ToRead)) == 0 && acq(this.readClosed)
  let head = acq(this.ToRead[0])
  let taken = len(this.ToRead) == len(q) - 1 && forall(i, 0, len(q) - 1, this.ToRead[i] == acq(this.ToRead[i+1]))
  let same = len(this.ToRead) == len(q) && forall(i, 0, len(q), this.ToRead[i] == acq(this.ToRead[i]))
  ensures @end (result1 == nil || result1 == io.EOF && over) && imp(len(dst) > 0 && over, result1 == io.EOF) && imp(result1 != nil, result0 == 0 && same)
  ensures @nothing-asked imp(len(dst) == 0, result0 == 0 && (same || len(q) > 0 && len(head) == 0 && taken))
  ensures @next imp(len(dst) > 0 && result1 == nil, len(q) > 0 && result0 == ite(len(dst) < len(head), len(dst), len(head)) && forall(i, 0, result0, dst[i] == acq(this.ToRead[0][i])))
  ensures @left imp(len(dst) > 0 && result1 == nil && result0 < len(head), len(this.ToRead) == len(q) && ref(this.ToRead[0]) == ref(head) && off(this.ToRead[0]) == off(head) + result0 && len(this.ToRead[0]) == len(head) - result0 && forall(i, 1, len(q), this.ToRead[i] == acq(this.ToRead[i])))
  ensures @taken imp(len(dst) > 0 && result1 == nil && result0 == len(head), taken)
  ensures @rest this.readClosed == acq(this.readClosed) && this.Written == acq(this.Written)

func (*BufferedRWC).Write(this, b)
  requires ready(this)
  let n = old(len(this.Written))
  ensures @closed imp(len(b) > 0 && old(this.readClosed), result0 == 0 && result1 == io.ErrClosedPipe)
  ensures @recorded imp(len(b) > 0 && !old(this.readClosed), result0 == len(b) && result1 == nil && len(this.Written) == n + 1 && len(this.Written[n]) == len(b) && forall(i, 0, len(b), this.Written[n][i] == old(b[i])))
  ensures @own-copy imp(len(b) > 0 && !old(this.readClosed), ref(this.Written[n]) != ref(b))
  ensures @before forall(i, 0, n, this.Written[i] == old(this.Written[i]))
  ensures @otherwise imp(len(b) == 0, result0 == 0 && result1 == nil) && imp(len(b) == 0 || old(this.readClosed), len(this.Written) == n)
  ensures @rest this.readClosed == old(this.readClosed) && this.ToRead == old(this.ToRead)

func (*BufferedRWC).Close(this)
  requires ready(this)
  opaque sync:(*Cond).Broadcast
  ensures @closed this.readClosed && (result == nil) == !old(this.readClosed) && imp(result != nil, result == io.ErrClosedPipe)
  ensures @wakes imp(result == nil, woken(this))
  ensures @rest this.ToRead == old(this.ToRead) && this.Written == old(this.Written)

func (*BufferedRWC).SetReadClosed(this)
  requires ready(this)
  opaque sync:(*Cond).Broadcast
  ensures @closed this.readClosed
  ensures @wakes woken(this)
  ensures @rest this.ToRead == old(this.ToRead) && this.Written == old(this.Written)

func (*BufferedRWC).IsReadClosed(this)
  requires ready(this)
  ensures @answer result == this.readClosed
  ensures @frame onlymodifies(nothing)

func (*BufferedRWC).HasRead(this)
  requires ready(this)
  ensures @answer result == (len(this.ToRead) > 0)
  ensures @frame onlymodifies(nothing)
