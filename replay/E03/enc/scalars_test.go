package enc

import (
	"context"
	"fmt"
	"reflect"
	"testing"
)

type verifText string
type verifFlag bool
type verifKeep struct {
	S string
}

func TestVerifE03Scalars(t *testing.T) {
	c := context.Background()
	text := []string{"", "x", "true", "0", "12", "null", "[]", "a\x00b", "日本語", "1e3"}
	var nodes []Node
	for _, s := range text {
		nodes = append(nodes, String(s))
	}
	nodes = append(nodes, Bool(true), Bool(false))
	var open any = "before"
	targets := []any{"before", true, false, 5, int8(5), uint64(5), 2.5, float32(2.5), []string{"q"}, []byte("q"), map[string]string{"a": "b"}, verifKeep{"s"}, verifText("before"), verifFlag(true), verifFlag(false), [2]int{1, 2}, make(chan int), complex(1, 2)}
	for _, n := range nodes {
		for _, start := range targets {
			p := reflect.New(reflect.TypeOf(start))
			p.Elem().Set(reflect.ValueOf(start))
			in := fmt.Sprintf("decoding %#v into a %T holding %v", n, start, start)
			var err error
			vnopanic(t, in, func() { err = Unmarshal(c, n, p.Interface()) })
			k := p.Elem().Kind()
			var want any
			ok := false
			switch n := n.(type) {
			case String:
				ok, want = k == reflect.String, string(n)
			case Bool:
				ok, want = k == reflect.Bool, bool(n)
			}
			if (err == nil) != ok {
				vfail(t, "%s: error %v", in, err)
			}
			if !ok && !reflect.DeepEqual(p.Elem().Interface(), start) {
				vfail(t, "%s: refused, yet the target became %v", in, p.Elem())
			}
			if ok && p.Elem().Interface() != reflect.ValueOf(want).Convert(p.Elem().Type()).Interface() {
				vfail(t, "%s: the target became %v", in, p.Elem())
			}
		}
		open = "before"
		var err error
		vnopanic(t, fmt.Sprintf("decoding %#v into an any", n), func() { err = Unmarshal(c, n, &open) })
		if err != nil || open != n.native() || reflect.TypeOf(open).PkgPath() != "" {
			vfail(t, "decoding %#v into an any: %v (%T %v)", n, err, open, open)
		}
	}
}

func TestVerifE03Tags(t *testing.T) {
	for _, x := range []struct {
		tag   string
		want  Tag
		panic bool
	}{
		{``, Tag{Name: "Field", JSON: "Field"}, false},
		{`json:""`, Tag{Name: "Field", JSON: "Field"}, false},
		{`json:"other"`, Tag{Name: "Field", JSON: "other"}, false},
		{`json:"Field"`, Tag{Name: "Field", JSON: "Field"}, false},
		{`json:"other,omitempty"`, Tag{Name: "Field", JSON: "other", OmitEmpty: true}, false},
		{`json:",omitempty"`, Tag{Name: "Field", JSON: "Field", OmitEmpty: true}, false},
		{`json:"omitempty"`, Tag{Name: "Field", JSON: "omitempty"}, false},
		{`json:"other,"`, Tag{Name: "Field", JSON: "other"}, false},
		{`json:"-"`, Tag{Name: "Field", Skip: true}, false},
		{`json:"-x"`, Tag{Name: "Field", JSON: "-x"}, false},
		{`yaml:"other" json:"mine"`, Tag{Name: "Field", JSON: "mine"}, false},
		{`yaml:"other"`, Tag{Name: "Field", JSON: "Field"}, false},
		{`json:"a b"`, Tag{Name: "Field", JSON: "a b"}, false},
		{`json:"other,string"`, Tag{}, true},
		{`json:"other,omitempty,string"`, Tag{}, true},
		{`json:"other,omitEmpty"`, Tag{}, true},
		{`json:"other, omitempty"`, Tag{}, true},
		{`json:",x"`, Tag{}, true},
	} {
		var got Tag
		r := vpanics(func() { got = parseTag(reflect.StructField{Name: "Field", Tag: reflect.StructTag(x.tag)}) })
		if (r != nil) != x.panic {
			vfail(t, "a field Field tagged %s: panic %v", x.tag, r)
		}
		if r == nil && x.want.Skip {
			got.JSON, got.OmitEmpty = "", false
		}
		if r == nil && got != x.want {
			vfail(t, "a field Field tagged %s: %+v instead of %+v", x.tag, got, x.want)
		}
	}
}

type verifSkipping struct {
	A string `json:"a"`
	B string `json:"-"`
	C string
	d string
}

func TestVerifE03Structs(t *testing.T) {
	c := context.Background()
	for _, n := range []Node{
		Map{"a": String("1"), "B": String("2"), "-": String("3"), "": String("4"), "C": String("5"), "d": String("6"), "A": String("7")},
		Pairs{{"", "a", String("1")}, {"", "B", String("2")}, {"", "-", String("3")}, {"", "", String("4")}, {"", "C", String("5")}, {"", "d", String("6")}},
	} {
		v := verifSkipping{A: "x", B: "kept", C: "y", d: "mine"}
		err := Unmarshal(c, n, &v)
		if err != nil || v != (verifSkipping{A: "1", B: "kept", C: "5", d: "mine"}) {
			vfail(t, "decoding %v: %v %+v", n, err, v)
		}
	}
	n, err := Marshal(c, verifSkipping{A: "x", B: "kept", C: "y", d: "mine"})
	if p, ok := n.(Pairs); err != nil || !ok || len(p) != 2 || p[0] != (Pair{"A", "a", String("x")}) || p[1] != (Pair{"C", "C", String("y")}) {
		vfail(t, "encoding a struct with a skipped member: %v %v", n, err)
	}
}
