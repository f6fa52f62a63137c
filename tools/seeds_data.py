# every seeded change: seed(id, property, [(file, old, new)...], package of the demonstration, demonstration, needs, what it breaks)
seed("L01-short-tail", "L01", [("utils/lists/group.go", "	chunkSize := (len(in) + buckets - 1) / buckets\n", "	chunkSize := (len(in) + buckets/2) / buckets\n")], "utils/lists", '''
package lists

import "testing"

func TestDemo(t *testing.T) {
	in := make([]int, 9)
	n := 0
	for _, g := range Split(in, 3) { // 3 groups of 3
		n += len(g)
	}
	if n != 9 {
		t.Fatal(n)
	}
	in = make([]int, 13)
	n = 0
	for _, g := range Split(in, 4) { // 4 groups, 13/4 rounds down
		n += len(g)
	}
	if n != 13 {
		t.Fatalf("%d of 13 elements left", n)
	}
}
''', "a length whose remainder over the number of groups is less than half of it", "the last elements of the list are lost by Split")


seed("L02-reverse-even", "L02", [("utils/lists/reverse.go", "	for i < len(a)/2 {\n", "	for j-i > 1 {\n")], "utils/lists", '''
package lists

import "testing"

func TestDemo(t *testing.T) {
	for n := 0; n < 20; n++ {
		a := make([]int, n)
		for i := range a {
			a[i] = i
		}
		Reverse(a)
		for i := range a {
			if a[i] != n-1-i {
				t.Fatalf("Reverse(0..%d) = %v", n-1, a)
			}
		}
	}
}
''', "a list of even length", "the two middle elements of a list of even length stay where they were")

seed("L02-contains-last", "L02", [("utils/lists/lists.go", "	for _, e := range a {\n		if e == i {\n			return true\n		}\n	}\n", "	for n := 0; n < len(a); n += 2 {\n		if a[n] == i || n+1 < len(a)-1 && a[n+1] == i {\n			return true\n		}\n	}\n")], "utils/lists", '''
package lists

import "testing"

func TestDemo(t *testing.T) {
	for n := 0; n < 20; n++ {
		a := make([]int, n)
		for i := range a {
			a[i] = i
		}
		for i := range a {
			if !Contains(a, i) {
				t.Fatalf("Contains(%v, %d) is false", a, i)
			}
			if len(AddUnique(a, i)) != n {
				t.Fatalf("AddUnique(%v, %d) adds it again", a, i)
			}
		}
	}
}
''', "a list of even length and the value of its last element", "the last element of a list of even length is not found, so AddUnique adds it a second time")

seed("L04-delete-compacts", "L04", [("utils/ordered_map.go", "		delete(this.byKey, key)\n		this.list[i] = nil\n", "		delete(this.byKey, key)\n		this.list[i] = nil\n		if i == len(this.list)-1 {\n			this.list = this.list[:i]\n		} else if i == 0 && len(this.byKey) > 0 && len(this.list) > 4*len(this.byKey) {\n			this.list = this.list[1:]\n			for k := range this.byKey {\n				this.byKey[k]--\n			}\n			for len(this.list) > 0 && this.list[0] == nil {\n				this.list = this.list[1:]\n			}\n		}\n")], "utils", '''
package utils

import "testing"

func TestDemo(t *testing.T) {
	m := NewOrderedMap[int, int]()
	for i := 0; i < 6; i++ {
		m.Put(i, 10*i)
	}
	for i := 4; i >= 0; i-- {
		m.Delete(i)
		if r := m.Get(5); !r.Found || r.Value != 50 {
			t.Fatalf("after deleting %d: Get(5) = %+v", i, r)
		}
	}
	if ks := m.Keys(); len(ks) != 1 || ks[0] != 5 {
		t.Fatal(ks)
	}
}
''', "a history that deletes most keys and then the first slot while later slots before the survivor are already empty", "compaction drops leading empty slots without shifting the index, so lookups hit the wrong slot or go out of range")

seed("C01-get-then-store", "C01", [("utils/sync/map.go", "	out, loaded := this.m.LoadOrStore(key, val)\n	if out == nil {\n		var zero V\n		return zero, loaded\n	}\n	return out.(V), loaded\n", "	if out, loaded := this.Load(key); loaded {\n		return out, true\n	}\n	this.m.Store(key, val)\n	return val, false\n")], "utils/sync", '''
package sync

import (
	"sync"
	"testing"
)

func TestDemo(t *testing.T) {
	for rep := 0; rep < 20000; rep++ {
		var m Map[string, int]
		var l sync.Mutex
		var wg sync.WaitGroup
		start := make(chan int)
		won := 0
		for g := 0; g < 4; g++ {
			g := g
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				_, loaded := m.LoadOrStore("k", g)
				l.Lock()
				defer l.Unlock()
				if !loaded {
					won++
				}
			}()
		}
		close(start)
		wg.Wait()
		if won != 1 {
			t.Fatalf("%d of 4 concurrent callers stored their value", won)
		}
	}
}
''', "two callers storing the same absent key at the same time", "load-or-store looks first and stores later, so it can replace a value another caller just stored")

seed("C03-ask-unlocked", "C03", [("utils/caches/mem.go", "	v, err := this.miss(c, k)\n", "	this.lock.Unlock() // do not block the other keys while asking\n	v, err := this.miss(c, k)\n	this.lock.Lock()\n")], "utils/caches", '''
package caches

import (
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/Aize-Public/forego/ctx"
)

func TestDemo(t *testing.T) {
	var asked int64
	m := Mem(ctx.TODO(), func(ctx.C, string) (int, error) {
		atomic.AddInt64(&asked, 1)
		time.Sleep(20 * time.Millisecond)
		return 1, nil
	})
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() { defer wg.Done(); m.Get(ctx.TODO(), "k") }()
	}
	wg.Wait()
	if asked != 1 {
		t.Fatalf("the source was asked %d times for one key", asked)
	}
}
''', "concurrent callers asking for the same key while the source is busy", "the lock is released while the source is asked, so the same key is asked several times")

seed("C04-late-second", "C04", [("utils/caches/request.go", "time.Until(e.expire) >= 0", "int(time.Until(e.expire).Seconds()) >= 0")], "utils/caches", '''
package caches

import (
	"testing"
	"time"

	"github.com/Aize-Public/forego/ctx"
)

func TestDemo(t *testing.T) {
	n := 0
	rc := NewRequestLRU(ctx.TODO(), 10, func(ctx.C, string) (int, time.Duration, error) { n++; return n, 100 * time.Millisecond, nil })
	rc.Request(ctx.TODO(), "k")
	time.Sleep(300 * time.Millisecond)
	if v, _, _ := rc.Request(ctx.TODO(), "k"); v != 2 {
		t.Fatal("an answer with a time to live of 100ms is served after 300ms")
	}
}
''', "a request less than a second after the time to live passed", "answers are served up to a second after their time to live")

seed("M01-from-the-top", "M01", [("utils/prom/histogram.go", "	for i, le := range le {\n		if val <= le {\n			this.buckets[i]++\n		}\n	}\n", "	for i := len(le) - 1; i >= 0; i-- {\n		if val > le[i] {\n			break\n		}\n		this.buckets[i]++\n	}\n")], "utils/prom", '''
package prom

import (
	"math"
	"testing"
)

func TestDemo(t *testing.T) {
	h := &Histogram{Buckets: []float64{1, 2}}
	h.Observe(math.NaN())
	h.Observe(1.5)
	if b := h.val.Get("").buckets; b[0] != 0 || b[1] != 1 {
		t.Fatalf("buckets %v after NaN and 1.5", b)
	}
}
''', "a value that is not a number, or bounds that are not sorted", "values that compare with nothing are counted in every bucket")

seed("M02-plain-add", "M02", [("utils/prom/gauge.go", "	atomic.AddInt64(&this.val, int64(-amt))\n", "	this.val -= int64(amt)\n")], "utils/prom", '''
package prom

import (
	"sync"
	"testing"
)

func TestDemo(t *testing.T) {
	for rep := 0; rep < 50; rep++ {
		g := (&Gauge{}).Counter()
		var wg sync.WaitGroup
		start := make(chan int)
		for i := 0; i < 8; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for i := 0; i < 20000; i++ {
					g.Dec(1)
				}
			}()
		}
		close(start)
		wg.Wait()
		if v := g.value(); v != -160000 {
			t.Fatalf("8 goroutines decremented 20000 times each: %v", v)
		}
	}
}
''', "decrements at the same time from several goroutines", "concurrent decrements of a gauge counter are lost")

seed("M03-inf-error", "M03", [("utils/prom/histogram.go", '''		_, err = fmt.Fprintf(w, "%s_bucket{%s,le=\\"+Inf\\"} %d\\n", name, labels, this.count)
		if err != nil {
			return err
		}

		_, err = fmt.Fprintf(w, "%s_sum{%s} %f\\n", name, labels, this.sum)
		if err != nil {
			return err
		}
''', '''		_, err = fmt.Fprintf(w, "%s_bucket{%s,le=\\"+Inf\\"} %d\\n", name, labels, this.count)
		if err == nil {
			_, err = fmt.Fprintf(w, "%s_sum{%s} %f\\n", name, labels, this.sum)
		}
''')], "utils/prom", '''
package prom

import (
	"bytes"
	"errors"
	"testing"
)

type full struct {
	bytes.Buffer
	left int
}

func (this *full) Write(p []byte) (int, error) {
	if this.left--; this.left == 0 {
		return 0, errors.New("disk full")
	}
	return this.Buffer.Write(p)
}

func TestDemo(t *testing.T) {
	h := &Histogram{Buckets: []float64{1, 2}, Labels: []string{"a"}}
	h.Observe(1.5, "x")
	for i := 1; i <= 7; i++ {
		w := &full{left: i}
		if err := h.Print("n", w); err == nil || w.left != 0 {
			t.Fatalf("write %d failed, Print returned %v and wrote %d more times", i, err, -w.left)
		}
	}
}
''', "a write error on the +Inf or the sum line of an entry with labels", "the error is dropped and the output goes on")

seed("M04-list-under-lock", "M04", [("utils/prom/metric.go", '''	out := map[string]Metric{}
	registry.Lock()
	for name, m := range registry.metrics {
		out[name] = m
	}
	registry.Unlock()
	for name, m := range out {
''', '''	registry.Lock()
	defer registry.Unlock()
	for name, m := range registry.metrics {
''')], "utils/prom", '''
package prom

import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	done := make(chan int)
	go func() {
		Range(func(string, Metric) error { return Range(func(string, Metric) error { return nil }) })
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Fatal("listing inside a listing's callback blocks")
	}
}
''', "a callback that registers or lists metrics itself", "the registry's lock is held while the callbacks run")

seed("S01-upsert-merges", "S01", [("storage/keyvalue.go", "	this.data[key] = val\n", "	if old := this.data[key]; len(old) > 0 && len(val) > 0 {\n		for k, v := range val {\n			old[k] = v\n		}\n		return nil\n	}\n	this.data[key] = val\n")], "storage", '''
package storage

import (
	"testing"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/enc"
)

func TestDemo(t *testing.T) {
	c := ctx.TODO()
	s := NewMemKeyValue()
	s.Upsert(c, "k", enc.Map{"a": enc.Integer(1)})
	s.Upsert(c, "k", enc.Map{"b": enc.Integer(2)})
	if v, _ := s.Get(c, "k"); v["a"] != nil || v["b"] != enc.Integer(2) {
		t.Fatalf("read %v after upserting {b: 2}", v)
	}
}
''', "an upsert of a document lacking a field of the one it replaces", "the replaced document's other fields survive and documents read earlier change in place")

seed("S02-read-again", "S02", [("storage/keyvalue.go", "	for _, p := range list {\n		err := f(c, p.key, p.val)\n", "	for _, p := range list {\n		this.m.Lock()\n		val, exists := this.data[p.key] // skip the ones gone in the meanwhile\n		this.m.Unlock()\n		if !exists {\n			continue\n		}\n		err := f(c, p.key, val)\n")], "storage", '''
package storage

import (
	"fmt"
	"testing"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/enc"
)

func TestDemo(t *testing.T) {
	c := ctx.TODO()
	s := NewMemKeyValue()
	for i := 0; i < 10; i++ {
		s.Upsert(c, fmt.Sprint(i), enc.Map{"state": enc.String("new")})
	}
	s.Range(c, func(c ctx.C, k string, v enc.Map) error {
		if v["state"] != enc.String("new") {
			t.Errorf("scanning for new documents calls back with %v", v)
		}
		for i := 0; i < 10; i++ {
			s.Upsert(c, fmt.Sprint(i), enc.Map{"state": enc.String("old")})
		}
		return nil
	}, Filter{"state", Equal, enc.String("new")})
}
''', "a document changed between the filtering and its callback", "the callback gets documents that do not satisfy the filters and were not in the store at the same moment")

seed("S02-absent", "S02", [("storage/keyvalue.go", "		v = enc.Nil{}\n	}\n", "		v = enc.Nil{}\n		if this.Val == nil || len(val) == 0 {\n			return this.Cmp == NotEqual, nil\n		}\n	}\n")], "storage", '''
package storage

import (
	"testing"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/enc"
)

func TestDemo(t *testing.T) {
	if ok, err := (Filter{"f", Equal, enc.Nil{}}).Check(ctx.TODO(), enc.Map{}); !ok || err != nil {
		t.Fatal("the absent field of an empty document does not equal nil")
	}
}
''', "an empty document and a filter for a nil field", "an empty document's absent fields differ from nil, and unsupported comparisons pass on it")

seed("L03-rewinds", "L03", [("utils/lists/perm.go", "	if best < 0 {\n		return false\n	}\n", "	if best < 0 {\n		// the last ordering is one swap away from the first one: go back to it\n		if len(this.elems) > 1 {\n			this.inplace[0], this.inplace[1] = this.inplace[1], this.inplace[0]\n		}\n		return false\n	}\n")], "utils/lists", '''
package lists

import (
	"fmt"
	"testing"
)

func TestDemo(t *testing.T) {
	list := []int{1, 2, 3, 4}
	next := Permute(list)
	last := ""
	for next() {
		last = fmt.Sprint(list)
	}
	if fmt.Sprint(list) != last {
		t.Fatalf("the call that reports the end turned %s into %v", last, list)
	}
}
''', "looking at the list after the call that reports the end", "the call that reports that no ordering is left changes the list")

seed("U02-two-levels", "U02", [("utils/errors.go", "	if errors.Is(err, errGate{}) {\n", "	if (err == errGate{}) || (errors.Unwrap(err) == errGate{}) {\n")], "utils", '''
package utils

import (
	"fmt"
	"testing"
)

func TestDemo(t *testing.T) {
	if err := ErrorGate(func(err error) error { return fmt.Errorf("b: %w", fmt.Errorf("a: %w", err)) }); err != nil {
		t.Fatal(err)
	}
}
''', "a marker wrapped at least twice", "a marker below a second wrapping is not recognised by the gate")

seed("X02-unwraps-too-far", "X02", [("ctx/error.go", "func (err Error) Unwrap() error {\n	return err.Err\n", "func (err Error) Unwrap() error {\n	if cause := errors.Unwrap(err.Err); cause != nil {\n		return cause // Is() has a look at err.Err already\n	}\n	return err.Err\n")], "ctx", '''
package ctx

import (
	"errors"
	"io"
	"os"
	"testing"
)

func TestDemo(t *testing.T) {
	in := &os.PathError{Op: "open", Path: "x", Err: io.EOF}
	var pe *os.PathError
	if !errors.As(WrapError(TODO(), in), &pe) || pe != in {
		t.Fatalf("the path error is not reachable: %v", pe)
	}
}
''', "wrapping an error that itself wraps another one, and asking for the wrapping type", "the wrapped error unwraps to the cause of the original instead of the original")

seed("X03-values-of-the-living", "X03", [("ctx/detach.go", "	return this.parent.Value(key)\n", "	if this.parent.Err() != nil {\n		return nil // what the parent held may be released already\n	}\n	return this.parent.Value(key)\n")], "ctx", '''
package ctx

import (
	"context"
	"testing"
)

func TestDemo(t *testing.T) {
	type key struct{}
	p, cf := context.WithCancel(context.WithValue(context.Background(), key{}, 7))
	d := Detach(p)
	cf()
	if v := d.Value(key{}); v != 7 {
		t.Fatalf("the value is %v after the parent was cancelled", v)
	}
}
''', "asking a detached context for a value after its parent was cancelled", "a detached context loses its values when the parent is cancelled")

seed("D01-waits-first", "D01", [("shutdown/shutdown.go", "	this.wg.Add(1)\n	<-this.ch\n", "	<-this.ch\n	this.wg.Add(1)\n")], "shutdown", '''
package shutdown

import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	got := make(chan ReleaseFn, 1)
	s := newShutter()
	go func() { got <- s.holdAndWait() }()
	time.Sleep(300 * time.Millisecond)
	select {
	case <-s.done():
		t.Fatal("completed while a call of holdAndWait is holding")
	case <-time.After(200 * time.Millisecond):
	}
	s.begin()
	(<-got)()
	<-s.done()
}
''', "a shutdown that somebody waits to complete while a service is inside HoldAndWait", "the hold is only counted once the shutdown has started, so the shutdown can complete before")

seed("D01-restarts-timer", "D01", [("shutdown/shutdown.go", "	this.once.Do(func() {\n		close(this.ch)\n		go func() {\n			time.Sleep(5 * time.Second)\n			close(this.ch5)\n		}()\n	})\n", "	this.once.Do(func() {\n		close(this.ch)\n	})\n	go func() {\n		time.Sleep(5 * time.Second)\n		select {\n		case <-this.ch5:\n		default:\n			close(this.ch5)\n		}\n	}()\n")], "shutdown", '''
package shutdown

import (
	"runtime"
	"testing"
)

func TestDemo(t *testing.T) {
	s := newShutter()
	s.begin()
	n := runtime.NumGoroutine()
	for i := 0; i < 100; i++ {
		s.begin()
	}
	if m := runtime.NumGoroutine(); m > n+50 {
		t.Fatalf("%d goroutines race to close the delayed signal", m-n)
	}
}
''', "Begin called again, concurrently with the first", "every Begin starts a timer of its own: two of them can both find the delayed signal open and close it twice, which panics")

seed("X04-load-then-add", "X04", [("ctx/span.go", "		step := atomic.AddInt32(&c.Last, 1)\n", "		step := atomic.LoadInt32(&c.Last) + 1\n		atomic.StoreInt32(&c.Last, step)\n")], "ctx", '''
package ctx

import (
	"context"
	"sync"
	"testing"
)

func TestDemo(t *testing.T) {
	for round := 0; round < 2000; round++ {
		p := WithTracking(context.Background(), "p")
		ids := make([]string, 64)
		gate := make(chan int)
		var wg sync.WaitGroup
		for i := range ids {
			i := i
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-gate
				c, cf := Span(p, "s")
				ids[i] = GetTracking(c)
				cf(nil)
			}()
		}
		close(gate)
		wg.Wait()
		seen := map[string]bool{}
		for _, id := range ids {
			if seen[id] {
				t.Fatalf("two children are called %s", id)
			}
			seen[id] = true
		}
	}
}
''', "two spans of one parent made at the same moment", "two children of a parent get the same id")

seed("X05-fills-in-place", "X05", [("ctx/log/log.go", "	return context.WithValue(c, configKey{}, conf)\n", "	if c != nil {\n		// options that only miss a log function are completed\n		if old, ok := c.Value(configKey{}).(*config); ok && old.logFunc == nil && old.helper != nil {\n			*old = *conf\n			return c\n		}\n	}\n	return context.WithValue(c, configKey{}, conf)\n")], "ctx/log", '''
package log

import (
	"context"
	"log/slog"
	"testing"

	"github.com/Aize-Public/forego/ctx"
)

func TestDemo(t *testing.T) {
	got := ""
	lf := func(s string) LogFunc {
		return func(c ctx.C, level slog.Level, src, f string, args ...any) { got += s }
	}
	parent := WithHelper(context.Background(), func() {})
	a := WithLogFunc(parent, lf("a"))
	Infof(a, "x")
	Infof(parent, "x")
	if got != "a" {
		t.Fatal(got)
	}
}
''', "a log function attached below a context that carries a helper and no log function", "the log function is also in force for the parent and its other children")

seed("X06-errors-first", "X06", [("ctx/log/log.go", "		case Loggable:\n			// if it implements Loggable, replace it with the return value and allow manipulation of tags\n			args[i] = arg.LogAs(tags)\n\n		case error:\n", "		case error:\n"), ("ctx/log/log.go", "			errs = append(errs, m)\n		}\n", "			errs = append(errs, m)\n\n		case Loggable:\n			// if it implements Loggable, replace it with the return value and allow manipulation of tags\n			args[i] = arg.LogAs(tags)\n		}\n")], "ctx/log", '''
package log

import (
	"context"
	"strings"
	"testing"
)

type demoErr struct{}

func (demoErr) Error() string    { return "password is hunter2" }
func (demoErr) LogAs(*Tags) any { return "login failed" }

func TestDemo(t *testing.T) {
	tags := Tags{}
	if s := FormatMsg(context.Background(), &tags, "%v", demoErr{}); strings.Contains(s, "hunter2") {
		t.Fatal(s)
	}
}
''', "an argument that is an error and also knows how to log itself", "the error's text gets into the message and the tags although it logs itself as something else")

seed("X01-replaces-same-key", "X01", [("ctx/tags.go", "	return tagC{\n		C:    c,\n", "	parent := c\n	if p, ok := c.(tagC); ok && p.key == key {\n		parent = p.C // the same tag once more\n	}\n	return tagC{\n		C:    parent,\n")], "ctx", '''
package ctx

import (
	"context"
	"testing"
)

func TestDemo(t *testing.T) {
	c := WithTag(WithTag(context.Background(), "step", 1), "step", 2)
	got := ""
	_ = RangeTag(c, func(k string, j JSON) error { got += string(j); return nil })
	if got != "12" {
		t.Fatal(got)
	}
}
''', "the same key attached twice in a row", "the tag attached first is lost from the derived context")


seed("H02-empty-part", "H02", [("http/mux.go", "	if r.code == 0 {\n		r.code = 200\n	}\n	return r.ResponseWriter.Write(b)", "	if r.code == 0 && len(b) > 0 {\n		r.code = 200\n	}\n	return r.ResponseWriter.Write(b)")], "http", '''
package http

import (
	"net/http"
	"net/http/httptest"
	"testing"
)

func TestDemo(t *testing.T) {
	w := httptest.NewRecorder()
	r := &response{w, 0}
	var rw http.ResponseWriter = r
	_, _ = rw.Write(nil) // sends the header
	rw.WriteHeader(404)
	if r.code != w.Code {
		t.Fatalf("recorded %d, sent %d", r.code, w.Code)
	}
}
''', "an empty body part written before the status", "the status recorded is not the one sent: an empty write already sends 200")


seed("H01-nil-only", "H01", [("http/server.go", "		if len(out) == 0 {\n			// no response content", "		if out == nil {\n			// no response content")], "http", '''
package http

import (
	"context"
	"net/http"
	"net/http/httptest"
	"testing"

	"github.com/Aize-Public/forego/ctx"
)

func TestDemo(t *testing.T) {
	s := NewServer(context.Background())
	s.handleRequest("/x", func(ctx.C, []byte, *http.Request) ([]byte, error) { return []byte{}, nil })
	w := httptest.NewRecorder()
	s.mux.ServeHTTP(w, httptest.NewRequest("POST", "/x", nil))
	if w.Code != 204 {
		t.Fatal(w.Code)
	}
}
''', "a handler that returns an empty list of bytes which is not nil", "an empty success is answered 200 instead of 204")

seed("H01-unavailable-text", "H01", [("http/server.go", "			if code < 500 {\n", "			if code < 500 || code == http.StatusServiceUnavailable { // the caller may try later\n")], "http", '''
package http

import (
	"context"
	"errors"
	"net/http"
	"net/http/httptest"
	"strings"
	"testing"

	"github.com/Aize-Public/forego/ctx"
)

func TestDemo(t *testing.T) {
	s := NewServer(context.Background())
	s.handleRequest("/x", func(ctx.C, []byte, *http.Request) ([]byte, error) {
		return nil, Error{503, errors.New("10.0.0.7: refused")}
	})
	w := httptest.NewRecorder()
	s.mux.ServeHTTP(w, httptest.NewRequest("POST", "/x", nil))
	if w.Code != 503 || strings.Contains(w.Body.String(), "10.0.0.7") {
		t.Fatal(w.Code, w.Body)
	}
}
''', "an error with code 503", "the text of an internal error reaches the client")


seed("H03-reset-content", "H03", [("http/client.go", "	case 200, 204:\n		return res, nil\n", "	case 200, 204, 205: // nothing to read\n		return res, nil\n")], "http", '''
package http

import (
	"net/http"
	"net/http/httptest"
	"testing"
)

func TestDemo(t *testing.T) {
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { w.WriteHeader(205) }))
	defer s.Close()
	r, _ := http.NewRequest("GET", s.URL, nil)
	if _, err := DefaultClient.Do(r); err == nil {
		t.Fatal("205 is no success")
	}
}
''', "a server which answers 205", "a status other than 200 and 204 is reported as success")

seed("H03-half-read", "H03", [("http/client.go", "	req.Header.Set(`Content-Type`, `application/json`)\n	res, err := this.Do(req)\n	if err != nil {\n		return nil, err\n	}\n	if res.Body != nil {\n		defer res.Body.Close()\n		return io.ReadAll(res.Body)\n	}\n	return nil, nil", "	req.Header.Set(`Content-Type`, `application/json`)\n	res, err := this.Do(req)\n	if err != nil {\n		return nil, err\n	}\n	if res.Body != nil {\n		defer res.Body.Close()\n		buf := bytes.NewBuffer(nil)\n		_, err := buf.ReadFrom(res.Body)\n		if buf.Len() > 0 {\n			return buf.Bytes(), nil\n		}\n		return nil, err\n	}\n	return nil, nil")], "http", '''
package http

import (
	"context"
	"net/http"
	"net/http/httptest"
	"testing"
)

func TestDemo(t *testing.T) {
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		w.Header().Set("Content-Length", "100")
		_, _ = w.Write([]byte("half")) // and the connection is closed
	}))
	defer s.Close()
	if b, err := DefaultClient.Post(context.Background(), s.URL, nil); err == nil {
		t.Fatalf("%q is not the answer", b)
	}
}
''', "a connection that breaks in the middle of a response body", "a post reports success with the part of the response that arrived")


seed("A03-empty-entry", "A03", [("api/tag.go", "		case \"\":\n		default:", "		case \"\":\n			return tag, nil // nothing declared\n		default:")], "api", '''
package api

import (
	"context"
	"reflect"
	"testing"
)

func TestDemo(t *testing.T) {
	tag, err := parseTags(context.Background(), reflect.StructField{Name: "F", Tag: `api:"in,,required"`})
	if err != nil || !tag.required {
		t.Fatal(tag, err)
	}
}
''', "a list of roles with an empty entry before others", "the roles after an empty entry are ignored, a required field is not required")

seed("A03-name-after-comma", "A03", [("api/tag.go", "		name, _, _ = strings.Cut(enc, \",\") // honor enc first", "		name = strings.TrimSuffix(enc, \",omitempty\") // honor enc first")], "api", '''
package api

import (
	"context"
	"reflect"
	"testing"
)

func TestDemo(t *testing.T) {
	tag, err := parseTags(context.Background(), reflect.StructField{Name: "F", Tag: `api:"in" enc:"f,string"`})
	if err != nil || tag.name != "f" {
		t.Fatal(tag, err)
	}
}
''', "an encoding tag with an option other than omitempty", "the option becomes part of the wire name")

seed("E01-int32-as-int", "E01", [("enc/numeric.go", "	case reflect.Int,\n		reflect.Int8,", "	case reflect.Int32:\n		i, err := this.Int64()\n		if err != nil {\n			return err\n		}\n		into.SetInt(int64(int32(i)))\n	case reflect.Int,\n		reflect.Int8,"), ("enc/numeric.go", "		reflect.Int16,\n		reflect.Int32,\n", "		reflect.Int16,\n")], "enc", '''
package enc

import (
	"context"
	"testing"
)

func TestDemo(t *testing.T) {
	x := int32(5)
	if err := Unmarshal(context.Background(), Digits("4294967297"), &x); err == nil && int64(x) != 4294967297 {
		t.Fatal(x)
	}
}
''', "a number beyond 32 bits decoded into an int32", "it wraps around")

seed("E01-float32-integer", "E01", [("enc/numeric.go", "func (this Integer) Float64() (float64, error)    { return float64(this), nil }", "func (this Integer) Float64() (float64, error)    { return float64(float32(this)), nil }")], "enc", '''
package enc

import (
	"context"
	"testing"
)

func TestDemo(t *testing.T) {
	var x float64
	if err := Unmarshal(context.Background(), Integer(16777217), &x); err != nil || x != 16777217 {
		t.Fatal(err, x)
	}
}
''', "a whole number beyond 24 bits into a float target", "the number is rounded to a float32")

seed("E02-unsigned-through-float", "E02", [("enc/handler.go", "	case reflect.Float64, reflect.Float32:\n		return Float(v.Float()), nil\n", "	case reflect.Float64, reflect.Float32:\n		if f := v.Float(); f == float64(int64(f)) { // shorter\n			return Integer(int64(f)), nil\n		}\n		return Float(v.Float()), nil\n")], "enc", '''
package enc

import (
	"context"
	"math"
	"testing"
)

func TestDemo(t *testing.T) {
	n, err := Marshal(context.Background(), math.Copysign(0, -1))
	if f, ok := n.(Float); err != nil || !ok || !math.Signbit(float64(f)) {
		t.Fatalf("%#v %v", n, err)
	}
}
''', "a float with an integral value", "it is encoded as an integer, losing its kind (and the sign of zero)")

seed("E02-asks-again", "E02", [("enc/handler.go", "		return in.MarshalNode(c)\n", "		n, err := in.MarshalNode(c)\n		if n == nil && err == nil {\n			return in.MarshalNode(c)\n		}\n		return n, err\n")], "enc", '''
package enc

import (
	"context"
	"testing"

	"github.com/Aize-Public/forego/ctx"
)

type lazy struct{ n *int }

func (l lazy) MarshalNode(c ctx.C) (Node, error) { *l.n++; return nil, nil }

func TestDemo(t *testing.T) {
	k := 0
	_, _ = Marshal(context.Background(), lazy{&k})
	if k != 1 {
		t.Fatal(k)
	}
}
''', "a value that encodes itself as nothing", "it is asked twice")

seed("E03-text-as-bytes", "E03", [("enc/scalar.go", "	case reflect.String:\n		into.SetString(string(this))\n", "	case reflect.String:\n		into.SetString(string(this))\n	case reflect.Slice:\n		if into.Type().Elem().Kind() == reflect.Uint8 {\n			into.SetBytes([]byte(this))\n			return nil\n		}\n		return ctx.NewErrorf(c, \"can't unmarshal %s %T into %v\", handler.path, this, into.Type())\n")], "enc", '''
package enc

import (
	"context"
	"testing"
)

func TestDemo(t *testing.T) {
	b := []byte("before")
	if err := Unmarshal(context.Background(), String("x"), &b); err == nil || string(b) != "before" {
		t.Fatal(err, string(b))
	}
}
''', "a text node decoded into a byte slice", "a text node is accepted by a target that is no text")

seed("E03-second-option", "E03", [("enc/util.go", "	switch extra {\n	case \"omitempty\":", "	extra, _, _ = strings.Cut(extra, \",\")\n	switch extra {\n	case \"omitempty\":")], "enc", '''
package enc

import (
	"reflect"
	"testing"
)

func TestDemo(t *testing.T) {
	defer func() {
		if recover() == nil {
			t.Fatal("accepted")
		}
	}()
	parseTag(reflect.StructField{Name: "X", Tag: `json:"x,omitempty,string"`})
}
''', "a tag with a second option", "an option other than omitempty is accepted")

seed("E04-first-wins", "E04", [("enc/pairs.go", "	out := Map{}\n	for _, p := range this {\n		out[p.JSON] = p.Value\n	}", "	out := Map{}\n	for _, p := range this {\n		if out[p.JSON] == nil {\n			out[p.JSON] = p.Value\n		}\n	}")], "enc", '''
package enc

import "testing"

func TestDemo(t *testing.T) {
	if m := (Pairs{{"A", "a", Integer(1)}, {"A", "a", Integer(2)}}).AsMap(); m["a"] != Node(Integer(2)) {
		t.Fatal(m)
	}
}
''', "a document with the same wire name twice", "the map keeps the first value instead of the last")

seed("E04-field-name-fallback", "E04", [("enc/pairs.go", "		if p.JSON == name {\n			return p.Value", "		if p.JSON == name || p.JSON == \"\" && p.Name == name {\n			return p.Value")], "enc", '''
package enc

import "testing"

func TestDemo(t *testing.T) {
	if n := (Pairs{{"A", "", Integer(1)}}).Find("A"); n != nil {
		t.Fatal(n)
	}
}
''', "a member whose wire name is empty", "it is found under its field name")

seed("E06-keeps-elements", "E06", [("enc/list.go", "		slice := reflect.MakeSlice(into.Type(), len(this), len(this))\n", "		slice := reflect.MakeSlice(into.Type(), len(this), len(this))\n		if n := into.Len(); n > 1 && n == len(this) {\n			slice = into // reuse\n		}\n")], "enc", '''
package enc

import (
	"context"
	"testing"
)

func TestDemo(t *testing.T) {
	v := []string{"x", "y"}
	if err := Unmarshal(context.Background(), List{String("a"), Integer(1), String("b")}[:0], &v); err != nil {
		t.Fatal(err)
	}
	v = []string{"x", "y"}
	if err := Unmarshal(context.Background(), List{String("a"), Bool(true)}, &v); err == nil || v[0] != "x" {
		t.Fatal(err, v)
	}
}
''', "a list as long as the target whose second element fails", "a refused list has already overwritten the target's first element")

seed("E06-case-insensitive", "E06", [("enc/map.go", "				v, ok := this[tag.JSON]\n", "				v, ok := this[tag.JSON]\n				if !ok {\n					v, ok = this[strings.ToLower(tag.JSON)]\n				}\n")], "enc", '''
package enc

import (
	"context"
	"testing"
)

func TestDemo(t *testing.T) {
	var v struct{ Abc string }
	if err := Unmarshal(context.Background(), Map{"abc": String("x")}, &v); err != nil || v.Abc != "" {
		t.Fatal(err, v)
	}
}
''', "a member named like a field in lower case", "a field is filled from a member that does not bear its name")

seed("E05-nil-is-the-end", "E05", [("enc/util.go", "		if !ok {\n			return nil, io.EOF\n		}\n		return n, nil", "		if !ok || n == nil {\n			return nil, io.EOF\n		}\n		return n, nil")], "enc", '''
package enc

import (
	"context"
	"testing"
)

func TestDemo(t *testing.T) {
	a, b := NewPipe(1)
	_ = a.Write(context.Background(), nil)
	if _, err := b.Read(context.Background()); err != nil {
		t.Fatal(err)
	}
}
''', "a nil message", "it is taken for the end of the stream although the pipe is open")

seed("E05-cancelled-close", "E05", [("enc/util.go", "	close(this.Send)\n	return nil\n", "	select {\n	case <-c.Done():\n		return c.Err()\n	default:\n	}\n	close(this.Send)\n	return nil\n")], "enc", '''
package enc

import (
	"context"
	"io"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	a, b := NewPipe(0)
	c, cf := context.WithCancel(context.Background())
	cf()
	_ = a.Close(c)
	d, cf := context.WithTimeout(context.Background(), time.Second)
	defer cf()
	if _, err := b.Read(d); err != io.EOF {
		t.Fatal(err)
	}
}
''', "a pipe closed under a context that is already cancelled", "the pipe stays open and its reader waits for ever")

seed("U01-wrapped-end", "U01", [("utils/io.go", "import (\n	\"bytes\"\n	\"io\"\n", "import (\n	\"bytes\"\n	\"errors\"\n	\"io\"\n"), ("utils/io.go", "		if err == io.EOF {\n", "		if errors.Is(err, io.EOF) {\n")], "utils", '''
package utils

import (
	"context"
	"fmt"
	"io"
	"testing"
)

type cut struct{}

func (cut) Read(p []byte) (int, error) { return copy(p, "ab"), fmt.Errorf("connection lost: %w", io.EOF) }

func TestDemo(t *testing.T) {
	if _, err := ReadAll(context.Background(), cut{}, nil); err == nil {
		t.Fatal("no error")
	}
}
''', "a reader whose error wraps io.EOF", "a broken stream is reported as read to its end")

seed("U01-no-close", "U01", [("utils/io.go", "	if close != nil {\n", "	if close != nil && c.Err() == nil {\n")], "utils", '''
package utils

import (
	"context"
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	c, cf := context.WithCancel(context.Background())
	cf()
	n := 0
	_, _ = ReadAll(c, strings.NewReader("x"), func() error { n++; return nil })
	if n != 1 {
		t.Fatal(n)
	}
}
''', "a context that is already cancelled", "the reader's close function is never called")

seed("C02-evict-one", "C02", [("utils/caches/lru.go", "	for this.curSize > this.MaxSize {\n", "	if this.curSize > this.MaxSize {\n")], "utils/caches", '''
package caches

import (
	"testing"

	"github.com/Aize-Public/forego/ctx"
)

func TestDemo(t *testing.T) {
	l := NewLRU(ctx.TODO(), 10, func(_ ctx.C, k int) (int, int, error) { return k, k, nil }).(*LRU[int, int])
	for _, k := range []int{3, 4, 2, 9} {
		_, _, _ = l.Get(ctx.TODO(), k)
	}
	sum := 0
	for _, k := range l.Keys() {
		sum += k
	}
	if sum > 10 {
		t.Fatal(l.Keys())
	}
}
''', "an entry larger than the one it displaces", "the cache holds more than its maximum")

seed("C02-coarse-order", "C02", [("utils/caches/lru.go", "	return this.list[i].last.Before(this.list[j].last)\n", "	return this.list[i].last.Unix() < this.list[j].last.Unix()\n")], "utils/caches", '''
package caches

import (
	"testing"
	"time"

	"github.com/Aize-Public/forego/ctx"
)

func TestDemo(t *testing.T) {
	for try := 0; try < 3; try++ {
		l := NewLRU(ctx.TODO(), 7, func(_ ctx.C, k int) (int, int, error) { return k, 1, nil }).(*LRU[int, int])
		for k := 1; k <= 20; k++ {
			time.Sleep(time.Millisecond)
			_, _, _ = l.Get(ctx.TODO(), k)
		}
		for _, k := range l.Keys() {
			if k <= 13 {
				t.Fatal(l.Keys())
			}
		}
	}
}
''', "more than a couple of entries used within the same second", "entries other than the least recently used are evicted")

seed("C02-invalidate-size", "C02", [("utils/caches/lru.go", "	this.curSize -= entry.size\n}\n", "	if entry.size <= this.curSize/2 {\n		this.curSize -= entry.size\n	} else {\n		this.curSize = 0\n	}\n}\n")], "utils/caches", '''
package caches

import (
	"testing"

	"github.com/Aize-Public/forego/ctx"
)

func TestDemo(t *testing.T) {
	l := NewLRU(ctx.TODO(), 10, func(_ ctx.C, k int) (int, int, error) { return k, k, nil }).(*LRU[int, int])
	for _, k := range []int{6, 4} {
		_, _, _ = l.Get(ctx.TODO(), k)
	}
	l.Invalidate(ctx.TODO(), 6)
	for _, k := range []int{5, 3, 2} {
		_, _, _ = l.Get(ctx.TODO(), k)
	}
	sum := 0
	for _, k := range l.Keys() {
		sum += k
	}
	if sum > 10 {
		t.Fatal(l.Keys())
	}
}
''', "invalidating an entry that makes up more than half of the cache while others are retained", "the accounted size is too small and the cache outgrows its maximum")
