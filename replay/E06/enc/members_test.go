package enc

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/Aize-Public/forego/ctx"
)

// refuses one text, keeps track of what it is given
type verifPicky struct {
	got  string
	path string
}

var verifAsked []string
var errPicky = errors.New("picky")

func (v *verifPicky) UnmarshalNode(c ctx.C, n Node) error {
	verifAsked = append(verifAsked, n.String())
	if n == Node(String("bad")) {
		return errPicky
	}
	v.got = n.String()
	return nil
}

func verifItems(k, bad int) (l List, want []string) {
	for i := 0; i < k; i++ {
		n := String(fmt.Sprint("item", i))
		if i == bad {
			n = "bad"
		}
		l = append(l, n)
		want = append(want, n.String())
	}
	return
}

func TestVerifE06Lists(t *testing.T) {
	c := context.Background()
	for k := 0; k < 6; k++ {
		for bad := -1; bad < k; bad++ {
			l, want := verifItems(k, bad)
			for _, fixed := range []bool{false, true} {
				var p reflect.Value
				if fixed {
					p = reflect.New(reflect.ArrayOf(k, reflect.TypeOf(verifPicky{})))
				} else {
					p = reflect.New(reflect.TypeOf([]verifPicky{}))
					old := make([]verifPicky, k+1)
					for i := range old {
						old[i].got = "before"
					}
					if bad%2 == 1 {
						old = old[1:] // as long as the list
					}
					p.Elem().Set(reflect.ValueOf(old))
				}
				in := fmt.Sprintf("decoding %v into a %v", l, p.Elem().Type())
				before := fmt.Sprint(p.Elem())
				verifAsked = nil
				var err error
				vnopanic(t, in, func() { err = Unmarshal(c, l, p.Interface()) })
				asked := want
				if bad >= 0 {
					asked = want[:bad+1]
				}
				if strings.Join(verifAsked, " ") != strings.Join(asked, " ") {
					vfail(t, "%s: the elements were asked with %v", in, verifAsked)
				}
				if (err != nil) != (bad >= 0) || err != nil && !errors.Is(err, errPicky) {
					vfail(t, "%s: error %v", in, err)
				}
				if err != nil {
					if fmt.Sprint(p.Elem()) != before {
						vfail(t, "%s: refused, yet the target became %v", in, p.Elem())
					}
					continue
				}
				if p.Elem().Len() != k {
					vfail(t, "%s: %d elements", in, p.Elem().Len())
				}
				for i := 0; i < k; i++ {
					if got := p.Elem().Index(i).Interface().(verifPicky).got; got != want[i] {
						vfail(t, "%s: element %d is %s", in, i, got)
					}
				}
			}
			for _, size := range []int{k - 1, k + 1} {
				if size < 0 {
					continue
				}
				p := reflect.New(reflect.ArrayOf(size, reflect.TypeOf(verifPicky{})))
				verifAsked = nil
				if err := Unmarshal(c, l, p.Interface()); err == nil || len(verifAsked) > 0 {
					vfail(t, "decoding %v into a %v: error %v, asked %v", l, p.Elem().Type(), err, verifAsked)
				}
			}
		}
	}
	for _, into := range []any{new(int), new(string), new(map[string]int), new(struct{}), new(bool), new(float64)} {
		if err := Unmarshal(c, List{}, into); err == nil {
			vfail(t, "decoding a list into a %T was not refused", into)
		}
	}
}

type verifKey string

func TestVerifE06Maps(t *testing.T) {
	c := context.Background()
	for k := 0; k < 6; k++ {
		for bad := -1; bad < k; bad++ {
			m := Map{}
			want := map[string]string{}
			for i := 0; i < k; i++ {
				n := String(fmt.Sprint("item", i))
				if i == bad {
					n = "bad"
				}
				m[fmt.Sprint(i)] = n
				want[fmt.Sprint(i)] = n.String()
			}
			s := map[string]verifPicky{"before": {}}
			y := map[verifKey]*verifPicky{}
			i := map[int]verifPicky{77: {}}
			u := map[uint8]verifPicky{}
			for _, into := range []any{&s, &y, &i, &u} {
				verifAsked = nil
				before := fmt.Sprint(reflect.ValueOf(into).Elem())
				in := fmt.Sprintf("decoding %v into a %T", m, into)
				var err error
				vnopanic(t, in, func() { err = Unmarshal(c, m, into) })
				if (err != nil) != (bad >= 0) || err != nil && !errors.Is(err, errPicky) {
					vfail(t, "%s: error %v", in, err)
				}
				after := reflect.ValueOf(into).Elem()
				if err != nil {
					if fmt.Sprint(after) != before {
						vfail(t, "%s: refused, yet the target became %v", in, after)
					}
					continue
				}
				got := map[string]string{}
				for _, kv := range after.MapKeys() {
					got[fmt.Sprint(kv)] = reflect.Indirect(after.MapIndex(kv)).Interface().(verifPicky).got
				}
				sort.Strings(verifAsked)
				if !reflect.DeepEqual(got, want) || len(verifAsked) != k {
					vfail(t, "%s: the target became %v, members asked %v", in, got, verifAsked)
				}
			}
		}
	}
	for _, into := range []any{new(map[int]int), new(map[uint]int)} {
		if err := Unmarshal(c, Map{"one": Integer(1)}, into); err == nil {
			vfail(t, "decoding a member one into a %T was not refused", into)
		}
	}
	for _, into := range []any{new(int), new(string), new([]int), new([1]int), new(bool), new(float64)} {
		if err := Unmarshal(c, Map{"1": Integer(1)}, into); err == nil {
			vfail(t, "decoding a map into a %T was not refused", into)
		}
	}
}

type verifForm struct {
	A verifPicky `json:"a"`
	B verifPicky
	C *verifPicky `json:"c,omitempty"`
	D verifPicky  `json:"-"`
	e verifPicky
	F verifPicky `json:"e"`
}

func TestVerifE06Structs(t *testing.T) {
	c := context.Background()
	names := []string{"a", "A", "b", "B", "c", "C", "D", "-", "e", "F"}
	for mask := 0; mask < 1<<len(names); mask++ {
		for _, bad := range []string{"", "a", "B", "c", "D", "F"} {
			m := Map{}
			for i, k := range names {
				if mask&(1<<i) != 0 {
					m[k] = String(k)
					if k == bad {
						m[k] = String("bad")
					}
				}
			}
			if _, there := m[bad]; bad != "" && !there {
				continue
			}
			v := verifForm{A: verifPicky{got: "1"}, B: verifPicky{got: "2"}, D: verifPicky{got: "3"}, e: verifPicky{got: "4"}, F: verifPicky{got: "5"}}
			text := func(k, old string) string {
				if n, ok := m[k]; ok {
					return n.String()
				}
				return old
			}
			verifAsked = nil
			var left []string
			h := Handler{UnhandledFields: func(c ctx.C, path []any, n Node) error {
				left = append(left, fmt.Sprint(path[len(path)-1], "=", n))
				return nil
			}}
			var err error
			vnopanic(t, fmt.Sprintf("decoding %v", m), func() { err = h.Unmarshal(c, m, &v) })
			if fails := bad == "a" || bad == "B" || bad == "c"; (err != nil) != fails {
				vfail(t, "decoding %v: error %v", m, err)
			}
			if err != nil {
				continue
			}
			ptr := ""
			if v.C != nil {
				ptr = v.C.got
			}
			if v.A.got != text("a", "1") || v.B.got != text("B", "2") || ptr != text("c", "") || v.D.got != "3" || v.e.got != "4" || v.F.got != text("e", "5") {
				vfail(t, "decoding %v: %+v", m, v)
			}
			var want []string
			for k, n := range m {
				if k != "a" && k != "B" && k != "c" && k != "e" {
					want = append(want, fmt.Sprint(k, "=", n))
				}
			}
			sort.Strings(left)
			sort.Strings(want)
			if strings.Join(left, " ") != strings.Join(want, " ") {
				vfail(t, "decoding %v: left over %v instead of %v", m, left, want)
			}
		}
	}
	refuse := Handler{UnhandledFields: func(c ctx.C, path []any, n Node) error { return errPicky }}
	var v verifForm
	if err := refuse.Unmarshal(c, Map{"zz": Nil{}}, &v); !errors.Is(err, errPicky) {
		vfail(t, "an unhandled member was refused, yet decoding gave %v", err)
	}
}

func TestVerifE06Targets(t *testing.T) {
	c := context.Background()
	x := 5
	p := &x
	if err := Unmarshal(c, Integer(7), &p); err != nil || *p != 7 || x != 5 {
		vfail(t, "decoding 7 into a pointer to 5: %v %d, what it pointed to is %d", err, *p, x)
	}
	for _, n := range []Node{nil, Nil{}} {
		if err := Unmarshal(c, n, &p); err != nil || p != nil {
			vfail(t, "decoding null into a pointer: %v %v", err, p)
		}
	}
	var pp **int
	if err := Unmarshal(c, Integer(3), &pp); err != nil || **pp != 3 {
		vfail(t, "decoding 3 into a pointer to a pointer: %v", err)
	}
	for _, n := range []Node{String("s"), Integer(1), List{}, Map{"a": Nil{}}, Nil{}} {
		var got Node
		if err := Unmarshal(c, n, &got); err != nil || !reflect.DeepEqual(got, n) {
			vfail(t, "decoding %#v into a Node: %v %#v", n, err, got)
		}
		verifAsked = nil
		var v verifPicky
		if err := Unmarshal(c, n, &v); err != nil || len(verifAsked) != 1 || v.got != n.String() {
			vfail(t, "decoding %#v into a value that decodes itself: %v, asked %v", n, err, verifAsked)
		}
		var raw json.RawMessage
		if err := Unmarshal(c, n, &raw); err != nil || string(raw) != string(JSON{}.Encode(c, n)) {
			vfail(t, "decoding %#v into a json.RawMessage: %v %s", n, err, raw)
		}
	}
	now := time.Date(2020, 2, 3, 4, 5, 6, 700, time.UTC)
	var at time.Time
	if err := Unmarshal(c, Time(now), &at); err != nil || !at.Equal(now) {
		vfail(t, "decoding a time: %v %v", err, at)
	}
	if err := Unmarshal(c, String("never"), &at); err == nil || !at.Equal(now) {
		vfail(t, "decoding text that is no time: %v %v", err, at)
	}
}

type verifOwnJSON struct{ text string }

func (v *verifOwnJSON) UnmarshalJSON(j []byte) error { v.text = string(j); return nil }

func TestVerifE06Concurrent(t *testing.T) {
	c := context.Background()
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 50; k++ {
				var v struct {
					R json.RawMessage
					J verifOwnJSON
					M map[string]int
				}
				err := UnmarshalJSON(c, []byte(`{"R":[1,2],"J":{"a":1},"M":{"x":3}}`), &v)
				if err != nil || string(v.R) != "[1,2]" || v.J.text != `{"a":1}` || v.M["x"] != 3 {
					vfail(t, "decoding concurrently: %v %+v", err, v)
				}
			}
		}()
	}
	wg.Wait()
}
