package ctx

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"testing"
)

func vtags(c C, stop int) (l []string, n int, err, e2 error) {
	e2 = errors.New("stop")
	err = RangeTag(c, func(k string, j JSON) error {
		l = append(l, k+"="+string(j))
		n++
		if n == stop {
			return e2
		}
		return nil
	})
	return
}

func TestVerifX01(t *testing.T) {
	if l, _, err, _ := vtags(nil, 0); len(l) > 0 || err != nil {
		vfail(t, "tags of nil: %v %v", l, err)
	}
	type tag struct {
		val any
		exp string
	}
	vals := []tag{{"s", `"s"`}, {42, "42"}, {nil, "null"}, {json.RawMessage(`{"a": 1}`), `{"a": 1}`}, {JSON(`[1,  2]`), `[1,  2]`}, {[]byte(`{"b" : 2}`), `{"b" : 2}`}, {[]byte(`"x`), `"Ing="`},
		{json.RawMessage(nil), "null"}, {map[string]int{"x": 1}, `{"x":1}`}, {true, "true"}, {func() {}, ""}, {make(chan int), ""}, {json.RawMessage("{"), "{"}}
	type node struct {
		c    C
		tags []string
		path string
	}
	check := func(n node) {
		t.Helper()
		l, _, err, _ := vtags(n.c, 0)
		if err != nil || fmt.Sprint(l) != fmt.Sprint(n.tags) {
			vfail(t, "tags of %s: %q %v, expected %q", n.path, l, err, n.tags)
		}
		for i := range n.tags {
			l, _, err, e2 := vtags(n.c, i+1)
			if err != e2 || fmt.Sprint(l) != fmt.Sprint(n.tags[:i+1]) {
				vfail(t, "tags of %s, stopped at the tag %d: %q %v, expected %q", n.path, i, l, err, n.tags[:i+1])
			}
		}
	}
	seed := uint32(7)
	rnd := func(n int) int { seed = seed*1664525 + 1013904223; return int(seed>>8) % n }
	for round := 0; round < 200; round++ {
		nodes := []node{{c: context.Background(), path: "background"}}
		for i := 0; i < 12; i++ {
			n := nodes[rnd(len(nodes))]
			switch k := rnd(8); k {
			case 0:
				n.c, n.path = WithValue(n.c, "a", 1), n.path+".value"
			case 1:
				n.c, _ = WithCancel(n.c)
				n.path += ".cancel"
			case 2:
				n.c, n.path = WithTracking(n.c, "id"), n.path+".tracking"
				n.tags = append(n.tags[:len(n.tags):len(n.tags)], `tracking-id="id"`)
			default:
				key, v := []string{"a", "b", "c"}[rnd(3)], vals[rnd(len(vals))]
				if v.exp == "" {
					b, _ := json.Marshal(v.val)
					if b != nil {
						continue
					}
					_, err := json.Marshal(v.val)
					b, _ = json.Marshal(fmt.Sprintf("can't tag type %T: %v", v.val, err))
					d := WithTag(n.c, key, v.val)
					l, _, _, _ := vtags(d, 0)
					s := ""
					if len(l) != len(n.tags)+1 || json.Unmarshal([]byte(l[len(l)-1][2:]), &s) != nil || s == "" {
						vfail(t, "tags of %s with a tag that has no encoding: %q", n.path, l)
					}
					continue
				}
				n.c, n.path = WithTag(n.c, key, v.val), fmt.Sprintf("%s.tag(%s, %T(%v))", n.path, key, v.val, v.val)
				n.tags = append(n.tags[:len(n.tags):len(n.tags)], key+"="+v.exp)
				if j, _ := n.c.Value(key).(JSON); string(j) != v.exp {
					vfail(t, "%s: Value(%q) = %s", n.path, key, j)
				}
			}
			nodes = append(nodes, n)
			for _, n := range nodes {
				check(n)
			}
		}
	}
}
