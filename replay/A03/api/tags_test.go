package api

import (
	"context"
	"fmt"
	"net/url"
	"reflect"
	"strings"
	"testing"
)

func TestVerifTags(t *testing.T) {
	c := context.Background()
	roles := []string{"in", "out", "both", "required", "auth", "", "In", "IN", " in", "in ", "inout", "-", "req", "outer"}
	var lists []string
	for _, a := range roles {
		lists = append(lists, a)
		for _, b := range roles {
			lists = append(lists, a+","+b)
			for _, d := range roles[:7] {
				lists = append(lists, a+","+b+","+d)
			}
		}
	}
	lists = append(lists, "in,out,required,auth", "auth,required,out,in", ",,,in,,,out", "in,in,in")
	names := []string{"\x00", "", "name", "name,omitempty", ",omitempty", "-", "a,b,c", "ünï"}
	check := func(api, enc, json, u string) {
		var tag []string
		add := func(k, v string) {
			if v != "\x00" {
				tag = append(tag, fmt.Sprintf("%s:%q", k, v))
			}
		}
		add("api", api)
		add("enc", enc)
		add("json", json)
		add("url", u)
		f := reflect.StructField{Name: "Go", Tag: reflect.StructTag(strings.Join(tag, " "))}
		in := fmt.Sprintf("tag `%s`", f.Tag)
		got, gotErr := parseTags(c, reflect.StructField{Name: "Go"})
		vnopanic(t, in, func() { got, gotErr = parseTags(c, f) })
		want := map[string]bool{}
		bad := false
		if api == "\x00" {
			api = ""
		}
		for _, r := range strings.Split(api, ",") {
			switch r {
			case "both":
				want["in"], want["out"] = true, true
			case "in", "out", "required", "auth", "":
				want[r] = true
			default:
				bad = true
			}
		}
		var pu *url.URL
		if u != "\x00" && u != "" {
			var err error
			pu, err = url.Parse(u)
			bad = bad || err != nil
		}
		if bad != (gotErr != nil) {
			vfail(t, "%s: error %v, expected one: %v", in, gotErr, bad)
		}
		if bad {
			return
		}
		name := enc
		if enc == "" || enc == "\x00" {
			name = json
		}
		name = strings.Split(name, ",")[0]
		if name == "" || name == "\x00" {
			name = "Go"
		}
		if got.name != name {
			vfail(t, "%s: name %q, want %q", in, got.name, name)
		}
		if got.in != want["in"] || got.out != want["out"] || got.required != want["required"] || got.auth != want["auth"] {
			vfail(t, "%s: parsed as %+v", in, got)
		}
		if fmt.Sprint(got.url) != fmt.Sprint(pu) {
			vfail(t, "%s: url %v, want %v", in, got.url, pu)
		}
	}
	for _, l := range lists {
		check(l, "\x00", "\x00", "\x00")
		check(l, "e", "\x00", "/some/path")
	}
	for _, e := range names {
		for _, j := range names {
			check("in", e, j, "\x00")
			check("\x00", e, j, "http://host/path")
		}
	}
	for _, u := range []string{"", "/x", "x y", "http://[::1", "%zz", ":bad", "http://h:port/", "\x7f", "/p?q=1#f"} {
		check("out", "\x00", "\x00", u)
	}
}
