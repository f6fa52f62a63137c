package enc

import (
	"context"
	"fmt"
	"io"
	"sync"
	"testing"
	"time"
)

type verifCtx struct {
	context.Context
	done chan struct{}
	err  error
}

func (c verifCtx) Done() <-chan struct{} { return c.done }
func (c verifCtx) Err() error            { return c.err }

var verifLock sync.Mutex
var verifFirst string

func verifBad(f string, args ...any) {
	verifLock.Lock()
	defer verifLock.Unlock()
	if verifFirst == "" {
		verifFirst = fmt.Sprintf(f, args...)
	}
}

func verifSoon(t *testing.T, in string, f func()) {
	t.Helper()
	done := make(chan any, 1)
	go func() { done <- vpanics(f) }()
	select {
	case r := <-done:
		if r != nil {
			vfail(t, "%s: panicked: %v", in, r)
		}
		verifLock.Lock()
		defer verifLock.Unlock()
		if verifFirst != "" {
			vfail(t, "%s", verifFirst)
		}
	case <-time.After(5 * time.Second):
		verifBad("%s: never came back", in)
		vfail(t, "%s", verifFirst)
	}
}

func verifDocs() []Node {
	return []Node{Integer(0), nil, Nil{}, String(""), String("x"), Bool(false), Digits("1"), Float(0), Pairs(nil)}
}

// every way to interleave writes and reads on pipes of several sizes
func TestVerifE05Messages(t *testing.T) {
	c := context.Background()
	same := func(a, b Node) bool { return fmt.Sprintf("%#v", a) == fmt.Sprintf("%#v", b) }
	for buf := 0; buf < 4; buf++ {
		for turn := 0; turn < 2; turn++ {
			a, b := NewPipe(buf)
			if turn == 1 {
				a, b = b, a
			}
			in := fmt.Sprintf("a pipe of size %d", buf)
			docs := append(verifDocs(), verifDocs()...)
			done := make(chan bool)
			go func() {
				defer close(done)
				for i, d := range docs {
					if err := a.Write(c, d); err != nil {
						verifBad("%s: writing message %d: %v", in, i, err)
					}
				}
				if err := a.Close(c); err != nil {
					verifBad("%s: closing: %v", in, err)
				}
			}()
			verifSoon(t, in+": reading", func() {
				for i, d := range docs {
					n, err := b.Read(c)
					if err != nil || !same(n, d) {
						verifBad("%s: message %d is %#v, %v instead of %#v", in, i, n, err, d)
						return
					}
				}
				for i := 0; i < 3; i++ {
					if n, err := b.Read(c); n != nil || err != io.EOF {
						verifBad("%s: read %#v, %v after the end", in, n, err)
					}
				}
				<-done
				// the other direction is still open
				go func() { _ = b.Write(c, String("back")) }()
				if n, err := a.Read(c); err != nil || n != Node(String("back")) {
					verifBad("%s: once one direction is closed the other gives %#v, %v", in, n, err)
				}
			})
		}
	}
}

func TestVerifE05Misuse(t *testing.T) {
	c := context.Background()
	for buf := 0; buf < 3; buf++ {
		a, b := NewPipe(buf)
		in := fmt.Sprintf("a pipe of size %d", buf)
		verifSoon(t, in, func() {
			for i := 0; i < 3; i++ {
				if err := a.Close(c); err != nil {
					verifBad("%s: close number %d: %v", in, i+1, err)
				}
			}
			for i := 0; i < 3; i++ {
				if err := a.Write(c, String("late")); err != io.ErrClosedPipe {
					verifBad("%s: writing after close: %v", in, err)
				}
			}
			if n, err := b.Read(c); n != nil || err != io.EOF {
				verifBad("%s: read %v %v after close", in, n, err)
			}
		})
		// a full pipe closed before it is read keeps its messages
		a, b = NewPipe(buf + 1)
		for i := 0; i <= buf; i++ {
			_ = a.Write(c, Integer(i))
		}
		_ = a.Close(c)
		for i := 0; i <= buf; i++ {
			if n, err := b.Read(c); err != nil || n != Node(Integer(i)) {
				vfail(t, "%s: message %d written before the close is read as %v %v", in, i, n, err)
			}
		}
		if _, err := b.Read(c); err != io.EOF {
			vfail(t, "%s: %v after all messages", in, err)
		}
	}
}

func TestVerifE05Cancelled(t *testing.T) {
	for _, err := range []error{context.Canceled, context.DeadlineExceeded, fmt.Errorf("gone"), io.EOF} {
		x := verifCtx{context.Background(), make(chan struct{}), err}
		close(x.done)
		a, b := NewPipe(0)
		verifSoon(t, "cancelled", func() {
			if n, got := b.Read(x); n != nil || got != err {
				verifBad("reading from an empty pipe with a context ended by %q: %v %v", err, n, got)
			}
			if got := a.Write(x, String("x")); got != err {
				verifBad("writing to a full pipe with a context ended by %q: %v", err, got)
			}
		})
	}
	// a write reports success exactly when its message arrives
	for i := 0; i < 300; i++ {
		c, cf := context.WithCancel(context.Background())
		a, b := NewPipe(i % 3)
		var sent, got int
		var wg sync.WaitGroup
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 5; j++ {
				if vpanics(func() {
					if a.Write(c, Integer(j)) == nil {
						sent++
					}
				}) != nil {
					sent = -1000
				}
			}
			_ = a.Close(c)
		}()
		if i%2 == 0 {
			go cf()
		}
		for {
			if _, err := b.Read(context.Background()); err != nil {
				break
			}
			got++
		}
		wg.Wait()
		cf()
		if got != sent {
			vfail(t, "5 writes, cancelled meanwhile (%v): %d succeeded, %d arrived", i%2 == 0, sent, got)
		}
	}
}
