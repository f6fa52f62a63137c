package storage

import (
	"fmt"
	"sync"
	"testing"
	"time"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/enc"
)

func TestVerifStore(t *testing.T) {
	c := ctx.TODO()
	done := make(chan int)
	go func() {
		defer close(done)
		for seed := 0; seed < 3000; seed++ {
			x := uint32(seed*2654435761 + 3)
			rnd := func(n int) int { x = x*1664525 + 1013904223; return int(x>>8) % n }
			var s KeyValue = NewMemKeyValue()
			model := map[string]enc.Map{}
			hist := ""
			for i := 0; i < 25; i++ {
				k := []string{"", "a", "b", "ab", "A"}[rnd(5)]
				switch rnd(3) {
				case 0:
					var v enc.Map
					switch rnd(4) {
					case 0:
						v = enc.Map{}
					case 1:
					default:
						v = enc.Map{"n": enc.Integer(i), fmt.Sprint("k", rnd(2)): enc.String("x")}
					}
					hist += fmt.Sprintf(" Upsert(%q,%v)", k, v)
					if err := s.Upsert(c, k, v); err != nil {
						vfail(t, "%s: %v", hist, err)
					}
					model[k] = v
				case 1:
					hist += fmt.Sprintf(" Delete(%q)", k)
					if err := s.Delete(c, k); err != nil {
						vfail(t, "%s: %v", hist, err)
					}
					delete(model, k)
				}
				for _, k := range []string{"", "a", "b", "ab", "A", "zz"} {
					v, err := s.Get(c, k)
					w := model[k]
					if err != nil || (v == nil) != (w == nil) || v.String() != w.String() {
						vfail(t, "%s: Get(%q) = %v, %v; expected %v", hist, k, v, err, w)
					}
				}
			}
		}
		s := NewMemKeyValue()
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			g := g
			wg.Add(1)
			go func() {
				defer wg.Done()
				k := fmt.Sprint("k", g)
				for i := 0; i < 500; i++ {
					s.Upsert(c, k, enc.Map{"n": enc.Integer(i)})
					s.Upsert(c, "shared", enc.Map{"n": enc.Integer(i), "m": enc.Integer(i)})
					if v, _ := s.Get(c, k); v["n"] != enc.Integer(i) {
						vfail(t, "8 goroutines with their own keys: %v read back after writing %d", v, i)
					}
					if v, _ := s.Get(c, "shared"); v != nil && v["n"] != v["m"] {
						vfail(t, "half a document: %v", v)
					}
					if i%3 == 0 {
						s.Delete(c, "shared")
						s.Delete(c, k)
						if v, _ := s.Get(c, k); v != nil {
							vfail(t, "%v read after the delete", v)
						}
					}
				}
			}()
		}
		wg.Wait()
	}()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		vfail(t, "a store operation blocks")
	}
}
