package storage

import (
	"errors"
	"fmt"
	"testing"
	"time"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/enc"
)

func TestVerifScan(t *testing.T) {
	c := ctx.TODO()
	vals := []enc.Node{nil, enc.Nil{}, enc.Integer(1), enc.Integer(2), enc.String("1"), enc.String(""), enc.String("<nil>"), enc.Bool(true), enc.Bool(false), enc.List{enc.Integer(1)}, enc.Float(1), enc.Map{"a": enc.Integer(1), "b": enc.Integer(2), "c": enc.Nil{}}}
	cmps := []Cmp{Equal, NotEqual, Equal, NotEqual, Equal, NotEqual, Greater, Cmp("")}
	show := func(n enc.Node) string {
		if n == nil {
			n = enc.Nil{}
		}
		return n.GoString()
	}
	for _, a := range vals {
		for _, b := range vals[1:] {
			for rep := 0; rep < 10; rep++ {
				doc := enc.Map{}
				if a != nil {
					doc["f"] = a
				}
				eq, err := Filter{"f", Equal, b}.Check(c, doc)
				ne, err2 := Filter{"f", NotEqual, b}.Check(c, doc)
				want := show(a) == show(b)
				if err != nil || err2 != nil || eq != want || ne == want {
					vfail(t, "field %#v compared with %#v: equal %v (%v), not equal %v (%v)", a, b, eq, err, ne, err2)
				}
			}
		}
	}
	if ok, err := (Filter{"f", Equal, vals[len(vals)-1]}).Check(c, enc.Map{"f": enc.Map{"a": enc.Integer(1), "b": enc.Integer(2), "c": enc.Nil{}}}); !ok || err != nil {
		vfail(t, "equal maps compare as different")
	}
	done := make(chan int)
	go func() {
		defer close(done)
		for seed := 0; seed < 6000; seed++ {
			x := uint32(seed*2654435761 + 5)
			rnd := func(n int) int { x = x*1664525 + 1013904223; return int(x>>8) % n }
			s := NewMemKeyValue()
			docs := map[string]enc.Map{}
			for i := rnd(6); i > 0; i-- {
				d := enc.Map{}
				for _, f := range []string{"f", "g"} {
					if v := vals[rnd(len(vals))]; v != nil {
						d[f] = v
					}
				}
				k := fmt.Sprint("k", i)
				docs[k] = d
				s.Upsert(c, k, d)
			}
			var fs []Filter
			bad := false
			for i := rnd(4); i > 0; i-- {
				f := Filter{[]string{"f", "g"}[rnd(2)], cmps[rnd(len(cmps))], vals[1+rnd(len(vals)-1)]}
				bad = bad || f.Cmp != Equal && f.Cmp != NotEqual
				fs = append(fs, f)
			}
			want := map[string]bool{}
			mustErr := false
			for k, d := range docs {
				ok := true
				for _, f := range fs {
					if f.Cmp != Equal && f.Cmp != NotEqual {
						mustErr = true
						ok = false
						break
					}
					if (show(d[f.Field]) == show(f.Val)) != (f.Cmp == Equal) {
						ok = false
						break
					}
				}
				if ok {
					want[k] = true
				}
			}
			what := fmt.Sprintf("documents %v, filters %v", docs, fs)
			stop, kind := -1, rnd(3)
			boom := errors.New("boom")
			if kind > 0 {
				stop = rnd(4)
			}
			seen := map[string]bool{}
			n := 0
			err := s.Range(c, func(c2 ctx.C, k string, v enc.Map) error {
				if seen[k] {
					vfail(t, "%s: %q visited twice", what, k)
				}
				seen[k] = true
				if !want[k] || v.String() != docs[k].String() || c2 != c {
					vfail(t, "%s: called back with %q %v", what, k, v)
				}
				n++
				// the store is free to use
				s.Upsert(c, "other", enc.Map{})
				s.Get(c, k)
				s.Delete(c, "other")
				if n-1 == stop {
					if kind == 1 {
						return EOD
					}
					return boom
				}
				return nil
			}, fs...)
			switch {
			case mustErr:
				if err == nil || n > 0 {
					vfail(t, "%s: unsupported comparison, Range returned %v after %d calls", what, err, n)
				}
			case stop >= 0 && stop < len(want):
				if n != stop+1 || kind == 1 && err != nil || kind == 2 && err != boom {
					vfail(t, "%s: callback %d returned an error (end of data: %v), Range returned %v after %d calls", what, stop, kind == 1, err, n)
				}
			default:
				if err != nil || n != len(want) {
					vfail(t, "%s: Range returned %v after %d of %d documents", what, err, n, len(want))
				}
			}
		}
		s := NewMemKeyValue()
		s.Upsert(c, "a", enc.Map{})
		vpanics(func() { s.Range(c, func(ctx.C, string, enc.Map) error { panic("x") }) })
		s.Get(c, "a")
		// one moment: writers keep n equal in both documents under one lock-step
		go func() {
			for i := 0; ; i++ {
				s.Upsert(c, fmt.Sprint("k", i%100), enc.Map{"n": enc.Integer(i)})
			}
		}()
		for i := 0; i < 50; i++ {
			last, first := 0, 1<<60
			s.Range(c, func(_ ctx.C, k string, v enc.Map) error {
				if n, ok := v["n"].(enc.Integer); ok {
					if int(n) > last {
						last = int(n)
					}
					if int(n) < first {
						first = int(n)
					}
				}
				return nil
			})
			if last-first > 99 {
				vfail(t, "one writer replaces documents k0..k99 in turn; a scan saw generations %d and %d together", first, last)
			}
		}
	}()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		vfail(t, "a scan or a store operation inside its callback blocks")
	}
}
