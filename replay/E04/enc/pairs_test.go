package enc

import (
	"context"
	"encoding/json"
	"fmt"
	"reflect"
	"testing"
)

// every document of up to 4 members over a few names
func verifDocuments() (out []Pairs) {
	names := []string{"a", "b", "", "c\"d"}
	var rec func(p Pairs)
	rec = func(p Pairs) {
		out = append(out, append(Pairs{}, p...))
		if len(p) == 4 {
			return
		}
		for i, n := range names {
			q := append(append(Pairs{}, p...), Pair{fmt.Sprint("Field", i), n, Integer(len(p))})
			rec(q)
		}
	}
	rec(Pairs{})
	return append(out, nil, Pairs{{"B", "b", Nil{}}, {"A", "a", List{Integer(1), Pairs{{"X", "x", Bool(true)}, {"W", "w", String("\x00é")}}}}, {"M", "m", Map{"k": Nil{}}}})
}

func TestVerifE04(t *testing.T) {
	c := context.Background()
	for _, p := range verifDocuments() {
		before := append(Pairs{}, p...)
		want := map[string]Node{}
		first := map[string]Node{}
		text := ""
		for i, m := range p {
			if i > 0 {
				text += ","
			}
			k, _ := json.Marshal(m.JSON)
			v, _ := json.Marshal(m.Value)
			text += string(k) + ":" + string(v)
			want[m.JSON] = m.Value
			if _, ok := first[m.JSON]; !ok {
				first[m.JSON] = m.Value
			}
		}
		in := fmt.Sprintf("the document %#v", p)
		if j := string(JSON{}.Encode(c, p)); j != "{"+text+"}" {
			vfail(t, "%s: written as %s", in, j)
		}
		m := p.AsMap()
		if len(m) != len(want) || len(want) > 0 && !reflect.DeepEqual(map[string]Node(m), want) {
			vfail(t, "%s: as a map %v", in, m)
		}
		for _, k := range []string{"a", "b", "", "c\"d", "m", "Field0", "Field1", "Field2", "Field3", "B", "no"} {
			if got := p.Find(k); !reflect.DeepEqual(got, first[k]) {
				vfail(t, "%s: member %q is %v", in, k, got)
			}
		}
		native := p.native()
		for _, into := range []func() (any, error){
			func() (any, error) { var x any; err := Unmarshal(c, p, &x); return x, err },
			func() (any, error) { return native, nil },
		} {
			got, err := into()
			back := map[string]any{}
			for k, v := range want {
				back[k] = v.native()
			}
			if err != nil || !reflect.DeepEqual(got, back) {
				vfail(t, "%s: decoded into an any: %v %v", in, got, err)
			}
		}
		var s struct {
			A Node `json:"a"`
			B Node `json:"b"`
			F Node `json:"Field0"`
		}
		if err := Unmarshal(c, p, &s); err != nil || !reflect.DeepEqual(s.A, want["a"]) || !reflect.DeepEqual(s.B, want["b"]) || s.F != nil {
			vfail(t, "%s: decoded into a struct: %+v %v", in, s, err)
		}
		if len(p) > 0 && !reflect.DeepEqual(p, before) {
			vfail(t, "%s: changed", in)
		}
	}
}
