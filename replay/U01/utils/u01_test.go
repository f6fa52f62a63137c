package utils

import (
	"context"
	"errors"
	"fmt"
	"io"
	"strings"
	"testing"
	"time"
)

// gives its pieces one by one, the last one together with err or before it, then hangs if err is nil
type verifReader struct {
	pieces []string
	err    error
	along  bool
	hang   chan struct{}
	reads  chan struct{}
}

func (r *verifReader) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = '#' // a reader may use all of p as scratch space
	}
	if len(r.pieces) == 0 {
		if r.err == nil {
			if r.reads != nil {
				close(r.reads)
				r.reads = nil
			}
			<-r.hang
			return 0, io.ErrClosedPipe
		}
		return 0, r.err
	}
	n := copy(p, r.pieces[0])
	if n < len(r.pieces[0]) {
		r.pieces = append([]string{r.pieces[0][n:]}, r.pieces[1:]...)
		return n, nil
	}
	r.pieces = r.pieces[1:]
	if len(r.pieces) == 0 && r.along && r.err != nil {
		return n, r.err
	}
	return n, nil
}

func TestVerifU01(t *testing.T) {
	big := strings.Repeat("0123456789abcdef", 1500)
	bad := errors.New("broken")
	for _, pieces := range [][]string{{}, {"a"}, {"", "a", ""}, {"ab", "c", "def"}, {big}, {big, "x", big + "y"}, {"", ""}, {big[:8192]}, {big[:8193]}, {"\x00\xff"}} {
		for _, err := range []error{io.EOF, bad, fmt.Errorf("x: %w", io.EOF), io.ErrUnexpectedEOF} {
			for _, along := range []bool{false, true} {
				for _, closing := range []int{0, 1, 2} {
					r := &verifReader{pieces: append([]string{}, pieces...), err: err, along: along}
					in := fmt.Sprintf("a reader of %d pieces, %d bytes, that ends with %q, together with its last piece: %v", len(pieces), len(strings.Join(pieces, "")), err, along)
					closed := 0
					var cl func() error
					if closing > 0 {
						cl = func() error {
							closed++
							if closing == 2 {
								return errors.New("close")
							}
							return nil
						}
					}
					var got []byte
					var e error
					vnopanic(t, in, func() { got, e = ReadAll(context.Background(), r, cl) })
					want := strings.Join(pieces, "")
					if string(got) != want {
						vfail(t, "%s: %d bytes returned, the same: %v", in, len(got), strings.HasPrefix(want, string(got)))
					}
					if (e == nil) != (err == io.EOF) || e != nil && !errors.Is(e, err) {
						vfail(t, "%s: error %v", in, e)
					}
					if cl != nil && closed != 1 {
						vfail(t, "%s: closed %d times", in, closed)
					}
				}
			}
		}
	}
}

func TestVerifU01Cancelled(t *testing.T) {
	for _, pieces := range [][]string{{}, {"abc"}, {"abc", "def"}} {
		for i := 0; i < 20; i++ {
			r := &verifReader{pieces: append([]string{}, pieces...), hang: make(chan struct{}), reads: make(chan struct{})}
			reads := r.reads
			c, cf := context.WithCancel(context.Background())
			go func() {
				if i%2 == 0 {
					<-reads
				}
				cf()
			}()
			closed := 0
			done := make(chan bool)
			var got []byte
			var err error
			go func() {
				got, err = ReadAll(c, r, func() error { closed++; return nil })
				close(done)
			}()
			select {
			case <-done:
			case <-time.After(5 * time.Second):
				vfail(t, "a reader that hangs after %q: the call does not return when the context is cancelled", pieces)
			}
			close(r.hang)
			in := fmt.Sprintf("a reader that hangs after %q, cancelled", pieces)
			if !errors.Is(err, context.Canceled) {
				vfail(t, "%s: error %v", in, err)
			}
			if closed != 1 {
				vfail(t, "%s: closed %d times", in, closed)
			}
			if want := strings.Join(pieces, ""); !strings.HasPrefix(want, string(got)) || i%2 == 0 && string(got) != want {
				vfail(t, "%s: returned %q", in, got)
			}
		}
	}
}
