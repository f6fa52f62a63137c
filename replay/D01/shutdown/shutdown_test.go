package shutdown

import (
	"sync"
	"testing"
	"time"
)

func vclosed(ch <-chan struct{}, d time.Duration) bool {
	select {
	case <-ch:
		return true
	case <-time.After(d):
		return false
	}
}

// the process has one shutdown: one history, through the exported functions only
func TestVerifD01(t *testing.T) {
	started, later := Started(), Started5Sec()
	if vclosed(started, 50*time.Millisecond) || vclosed(later, 50*time.Millisecond) {
		vfail(t, "before Begin: a start signal is closed")
	}
	r1 := Hold()
	d1 := Done()
	if vclosed(d1, 100*time.Millisecond) {
		vfail(t, "Hold; Done: completed while held")
	}
	r2 := Hold()
	r1.Release()
	if vclosed(d1, 100*time.Millisecond) {
		vfail(t, "Hold; Hold; first released: completed while the second is held")
	}
	waited := make(chan ReleaseFn, 1)
	go func() { waited <- HoldAndWait() }()
	time.Sleep(200 * time.Millisecond)
	select {
	case <-waited:
		vfail(t, "HoldAndWait returns before Begin")
	default:
	}
	r2()
	d2 := Done()
	if vclosed(d1, 100*time.Millisecond) || vclosed(d2, 100*time.Millisecond) {
		vfail(t, "a call of HoldAndWait in progress: completed while it holds")
	}
	t0 := time.Now()
	var wg sync.WaitGroup
	gate := make(chan int)
	for i := 0; i < 200; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-gate
			defer func() {
				if r := recover(); r != nil {
					vfail(t, "200 concurrent Begin: panicked: %v", r)
				}
			}()
			Begin()
			if !vclosed(started, 0) && !vclosed(started, 100*time.Millisecond) {
				vfail(t, "Begin returned: the start signal is open")
			}
		}()
	}
	close(gate)
	wg.Wait()
	vnopanic(t, "Begin again", Begin)
	if Started() != started || !vclosed(Started(), 0) && !vclosed(Started(), 50*time.Millisecond) {
		vfail(t, "after Begin: Started is another signal, or open")
	}
	var r3 ReleaseFn
	select {
	case r3 = <-waited:
	case <-time.After(2 * time.Second):
		vfail(t, "HoldAndWait does not return after Begin")
	}
	if vclosed(d1, 100*time.Millisecond) {
		vfail(t, "HoldAndWait returned, not released: completed")
	}
	r3.Release()
	if !vclosed(d1, 2*time.Second) || !vclosed(d2, 2*time.Second) || !vclosed(Done(), 2*time.Second) {
		vfail(t, "all holds released: not completed")
	}
	if vclosed(later, 4900*time.Millisecond-time.Since(t0)) {
		vfail(t, "Started5Sec closed %v after Begin", time.Since(t0))
	}
	Begin()
	if !vclosed(later, 10*time.Second) {
		vfail(t, "Started5Sec still open %v after Begin", time.Since(t0))
	}
	time.Sleep(300 * time.Millisecond)
}
