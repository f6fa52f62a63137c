// The slices given to Append and Write are not changed afterwards here, and Close is not asked to wake anyone:
// those are the known findings of this property.
package test

import (
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"testing"
	"time"
)

func TestVerifStreamModel(t *testing.T) {
	rnd := rand.New(rand.NewSource(1))
	for round := 0; round < 400; round++ {
		s := NewBufferedRWC()
		var want, got []byte
		var wrote [][]byte
		closed := false
		hist := ""
		for step := 0; step < 14; step++ {
			switch op := rnd.Intn(8); {
			case op <= 1 && !closed:
				p := make([]byte, rnd.Intn(7))
				rnd.Read(p)
				hist += fmt.Sprintf("Append(%d) ", len(p))
				want = append(want, p...)
				s.Append(p)
			case op <= 4:
				dst := make([]byte, rnd.Intn(6), 8)
				hist += fmt.Sprintf("Read(%d) ", len(dst))
				if len(s.ToRead) == 0 && !closed {
					continue
				}
				had := len(s.ToRead)
				n, err := s.Read(dst)
				if n < 0 || n > len(dst) {
					vfail(t, "%s: read %d of %d", hist, n, len(dst))
					return
				}
				got = append(got, dst[:n]...)
				if (err == io.EOF) != (had == 0) || err != nil && err != io.EOF {
					vfail(t, "%s: %d chunks left, closed %v, error %v", hist, had, closed, err)
				}
				if !bytes.HasPrefix(want, got) {
					vfail(t, "%s: read %x of %x", hist, got, want)
					return
				}
				if n == 0 && len(dst) > 0 && err == nil && len(s.ToRead) == had {
					vfail(t, "%s: nothing was read although there was something", hist)
				}
			case op == 5:
				b := make([]byte, rnd.Intn(5))
				rnd.Read(b)
				hist += fmt.Sprintf("Write(%d) ", len(b))
				n, err := s.Write(b)
				switch {
				case len(b) == 0 && (n != 0 || err != nil):
					vfail(t, "%s: empty write: %d %v", hist, n, err)
				case len(b) > 0 && closed && (n != 0 || err != io.ErrClosedPipe):
					vfail(t, "%s: write to a closed stream: %d %v", hist, n, err)
				case len(b) > 0 && !closed:
					wrote = append(wrote, append([]byte(nil), b...))
					if n != len(b) || err != nil {
						vfail(t, "%s: write: %d %v", hist, n, err)
					}
				}
			case op == 6 && rnd.Intn(3) == 0:
				hist += "Close "
				err := s.Close()
				if (err == nil) == closed || err != nil && err != io.ErrClosedPipe {
					vfail(t, "%s: %v", hist, err)
				}
				closed = true
			case op == 7 && rnd.Intn(5) == 0:
				hist += "SetReadClosed "
				s.SetReadClosed()
				closed = true
			}
			if s.IsReadClosed() != closed {
				vfail(t, "%s: IsReadClosed %v", hist, !closed)
			}
			if len(s.Written) != len(wrote) {
				vfail(t, "%s: %d writes recorded, not %d", hist, len(s.Written), len(wrote))
				return
			}
			for i, w := range wrote {
				if !bytes.Equal(w, s.Written[i]) {
					vfail(t, "%s: write %d recorded as %x, not %x", hist, i, s.Written[i], w)
				}
			}
			var left []byte
			for _, b := range s.ToRead {
				left = append(left, b...)
			}
			if !bytes.Equal(append(append([]byte(nil), got...), left...), want) {
				vfail(t, "%s: read %x, left %x, appended %x", hist, got, left, want)
				return
			}
			if s.HasRead() != (len(s.ToRead) > 0) {
				vfail(t, "%s: HasRead %v", hist, s.HasRead())
			}
		}
		if closed {
			func() {
				defer func() {
					if x := recover(); x != io.ErrClosedPipe {
						vfail(t, "%s: Append to a closed stream panics with %v", hist, x)
					}
				}()
				s.Append([]byte("x"))
			}()
			if s.HasRead() && len(got) == len(want) && len(want) > 0 && len(s.ToRead[0]) > 0 {
				vfail(t, "%s: something was appended to a closed stream", hist)
			}
			done := make(chan struct{})
			go func() { s.IsReadClosed(); close(done) }()
			select {
			case <-done:
			case <-time.After(5 * time.Second):
				vfail(t, "%s: the lock is held after a panic", hist)
				return
			}
		}
	}
}

func TestVerifStreamEmptyBuffer(t *testing.T) {
	s := NewBufferedRWC()
	s.Append([]byte("abc"))
	if n, err := s.Read(nil); n != 0 || err != nil || len(s.ToRead) != 1 {
		vfail(t, "read into nil: %d %v %d", n, err, len(s.ToRead))
	}
	s.SetReadClosed()
	if n, err := s.Read(nil); n != 0 || err != nil || len(s.ToRead) != 1 {
		vfail(t, "closed, not drained, read into nil: %d %v %d", n, err, len(s.ToRead))
	}
	b := make([]byte, 3)
	if n, err := s.Read(b); n != 3 || err != nil || string(b) != "abc" {
		vfail(t, "closed, not drained: %d %v %q", n, err, b)
	}
	if n, err := s.Read(nil); n != 0 || err != io.EOF {
		vfail(t, "closed and drained, read into nil: %d %v", n, err)
	}
	if n, err := s.Read(b); n != 0 || err != io.EOF {
		vfail(t, "closed and drained: %d %v", n, err)
	}
}

// blocked readers, all of them, are woken by closing
func TestVerifStreamWakes(t *testing.T) {
	for _, how := range []string{"SetReadClosed"} { // Close: see KNOWN_FINDINGS
		s := NewBufferedRWC()
		errs := make(chan error, 3)
		for i := 0; i < 3; i++ {
			go func() {
				_, err := s.Read(make([]byte, 4))
				errs <- err
			}()
		}
		time.Sleep(50 * time.Millisecond)
		s.SetReadClosed()
		for i := 0; i < 3; i++ {
			select {
			case err := <-errs:
				if err != io.EOF {
					vfail(t, "%s: blocked reader got %v", how, err)
				}
			case <-time.After(3 * time.Second):
				vfail(t, "%s: a blocked reader is not woken", how)
				return
			}
		}
	}
	s := NewBufferedRWC()
	got := make(chan string, 1)
	go func() {
		b := make([]byte, 9)
		n, _ := s.Read(b)
		got <- string(b[:n])
	}()
	time.Sleep(50 * time.Millisecond)
	s.Append([]byte("hey"))
	select {
	case x := <-got:
		if x != "hey" {
			vfail(t, "a blocked reader gets %q", x)
		}
	case <-time.After(3 * time.Second):
		vfail(t, "a blocked reader is not woken by Append")
	}
}

// many readers and writers at once: every byte arrives once
func TestVerifStreamConcurrent(t *testing.T) {
	s := NewBufferedRWC()
	const n = 200
	seen := make(chan []byte, 4*n)
	done := make(chan struct{}, 8)
	for w := 0; w < 4; w++ {
		go func() {
			b := make([]byte, 1)
			for {
				k, err := s.Read(b)
				if err != nil {
					done <- struct{}{}
					return
				}
				seen <- append([]byte(nil), b[:k]...)
			}
		}()
		go func() {
			for i := 0; i < n/4; i++ {
				_, _ = s.Write([]byte{1, 2})
				_ = s.IsReadClosed()
				_ = s.HasRead()
			}
			done <- struct{}{}
		}()
	}
	for i := 0; i < n; i++ {
		s.Append([]byte{byte(i), byte(i)})
	}
	for i := 0; i < 4; i++ {
		<-done
	}
	for s.HasRead() {
		time.Sleep(time.Millisecond)
	}
	s.SetReadClosed()
	for i := 0; i < 4; i++ {
		<-done
	}
	close(seen)
	var count [n]int
	for b := range seen {
		for _, x := range b {
			count[x]++
		}
	}
	for i, c := range count {
		if c != 2 {
			vfail(t, "byte %d arrived %d times, not 2", i, c)
		}
	}
	if len(s.Written) != n {
		vfail(t, "%d writes recorded, not %d", len(s.Written), n)
	}
}
