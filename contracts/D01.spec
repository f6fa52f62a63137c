prop D01
pkg shutdown
ghost shutdown/shutdown.go
note the body of sync.Once.Do runs at most once and Do returns after it (library contract); sync.WaitGroup.Wait returns only when every Add has been matched by a Done (library contract)
note the goroutines a call starts are considered after the call has returned, in every case; a hold taken while nothing is held races with Wait only in the way the library documents
note a release function is called once

# the one shutdown of the process: made by the package, never replaced
def ready(s) = s != nil && s.ch != nil && s.ch5 != nil && s.ch != s.ch5 && closed(s.ch) == fired(s.once) && imp(closed(s.ch5), closed(s.ch))

func newShutter()
  ensures @ready ready(result) && !closed(result.ch) && !closed(result.ch5)
  ensures @fresh fresh(result) && fresh(result.ch) && fresh(result.ch5)

func ghostBegin()
  requires ready(shutdowner)
  requires closed(shutdowner.ch) || !closed(shutdowner.ch5)
  flag chan
  flag go-after
  opaque time:Sleep
  ensures @signals result0 == old(shutdowner.ch) && result1 == old(shutdowner.ch5) && result0 == shutdowner.ch && result1 == shutdowner.ch5
  ensures @started closed(result0)
  ensures @once ite(old(closed(shutdowner.ch)), calls(result0, close) == 0 && calls(result1, close) == 0, calls(result0, close) == 1 && calls(result1, close) == 1)
  ensures @five-seconds imp(calls(result1, close) == 1, calls("time:Sleep") == 1 && arg("time:Sleep", 0, 0) >= 5000000000 && at(result0, close, 0) < at("time:Sleep", 0) && at("time:Sleep", 0) < at(result1, close, 0))
  ensures @invariant ready(shutdowner)

func ghostBeginTwice()
  requires ready(shutdowner)
  flag chan
  flag go-after
  opaque time:Sleep
  ensures @once ite(old(closed(shutdowner.ch)), calls(result0, close) == 0 && calls(result1, close) == 0, calls(result0, close) == 1 && calls(result1, close) == 1)
  ensures @started closed(result0)

func Hold()
  requires ready(shutdowner)
  opaque sync:(*WaitGroup).Add
  opaque sync:(*WaitGroup).Done
  ensures @one-unit calls("sync:(*WaitGroup).Add") == 1 && arg("sync:(*WaitGroup).Add", 0, 0) == &shutdowner.wg && arg("sync:(*WaitGroup).Add", 0, 1) == 1 && calls("sync:(*WaitGroup).Done") == 0
  ensures @invariant ready(shutdowner)

func ghostHoldRelease()
  requires ready(shutdowner)
  opaque sync:(*WaitGroup).Add
  opaque sync:(*WaitGroup).Done
  ensures @one-unit calls("sync:(*WaitGroup).Add") == 1 && arg("sync:(*WaitGroup).Add", 0, 0) == &shutdowner.wg && arg("sync:(*WaitGroup).Add", 0, 1) == 1
  ensures @released calls("sync:(*WaitGroup).Done") == 1 && arg("sync:(*WaitGroup).Done", 0, 0) == &shutdowner.wg && at("sync:(*WaitGroup).Add", 0) < at("sync:(*WaitGroup).Done", 0)
  ensures @frame onlymodifies(nothing)

func ghostHoldAndWaitRelease()
  requires ready(shutdowner)
  flag chan
  opaque sync:(*WaitGroup).Add
  opaque sync:(*WaitGroup).Done
  ensures @one-unit calls("sync:(*WaitGroup).Add") == 1 && arg("sync:(*WaitGroup).Add", 0, 0) == &shutdowner.wg && arg("sync:(*WaitGroup).Add", 0, 1) == 1
  ensures @waits calls(result, recv) == 1 && at("sync:(*WaitGroup).Add", 0) < at(result, recv, 0)
  ensures @released calls("sync:(*WaitGroup).Done") == 1 && arg("sync:(*WaitGroup).Done", 0, 0) == &shutdowner.wg && at(result, recv, 0) < at("sync:(*WaitGroup).Done", 0)
  ensures @frame onlymodifies(nothing)

func Done()
  requires ready(shutdowner)
  flag chan
  flag go-after
  opaque sync:(*WaitGroup).Wait
  ensures @own-signal fresh(result) && calls(result, close) == 1
  ensures @after-releases calls("sync:(*WaitGroup).Wait") == 1 && arg("sync:(*WaitGroup).Wait", 0, 0) == &shutdowner.wg && at("sync:(*WaitGroup).Wait", 0) < at(result, close, 0)
  ensures @invariant ready(shutdowner)
