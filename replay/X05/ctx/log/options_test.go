package log

import (
	"context"
	"fmt"
	"log/slog"
	"reflect"
	"testing"

	"github.com/Aize-Public/forego/ctx"
)

// random trees of contexts with options; every context logs, and the function in force gets it
func TestVerifX05(t *testing.T) {
	type rec struct {
		who, helper int
		level       slog.Level
		f           string
		args        []any
		c           ctx.C
	}
	var got []rec
	helped := map[int]int{}
	lf := func(id int) LogFunc {
		return func(c ctx.C, level slog.Level, src, f string, args ...any) {
			got = append(got, rec{who: id, level: level, f: f, args: args, c: c})
		}
	}
	type node struct {
		c    ctx.C
		l, h int // who is in force
		path string
	}
	seed := uint32(1)
	rnd := func(n int) int { seed = seed*1664525 + 1013904223; return int(seed>>8) % n }
	for round := 0; round < 60; round++ {
		root := node{c: WithLogFunc(context.Background(), lf(0)), path: "root"}
		if round%2 == 1 {
			root.c = WithLogFunc(WithHelper(context.Background(), func() { helped[-1]++ }), lf(0))
			root.h = -1
		}
		if round%5 == 4 { // no log function: the default one
			root = node{c: WithHelper(context.Background(), func() { helped[-1]++ }), l: -1, h: -1, path: "helper"}
		}
		nodes := []node{root}
		for i := 1; i < 12; i++ {
			i := i
			n := nodes[rnd(len(nodes))]
			switch rnd(5) {
			case 0, 1:
				n.c, n.l, n.path = WithLogFunc(n.c, lf(i)), i, n.path+fmt.Sprintf(".log%d", i)
			case 2:
				n.c, n.h, n.path = WithHelper(n.c, func() { helped[i]++ }), i, n.path+fmt.Sprintf(".helper%d", i)
			case 3:
				n.c, n.path = ctx.WithTag(n.c, "t", i), n.path+".tag"
			case 4:
				n.c, n.path = ctx.WithValue(n.c, "t", i), n.path+".value"
			}
			nodes = append(nodes, n)
			for _, n := range nodes {
				for _, x := range []struct {
					level slog.Level
					name  string
					do    func(c ctx.C, f string, args ...any)
				}{{slog.LevelError, "Errorf", Errorf}, {slog.LevelWarn, "Warnf", Warnf}, {slog.LevelInfo, "Infof", Infof}, {slog.LevelDebug, "Debugf", Debugf},
					{slog.Level(7), "Customf", func(c ctx.C, f string, args ...any) { Customf(c, 7, "src", f, args...) }}} {
					got, helped = nil, map[int]int{}
					vnopanic(t, n.path, func() { x.do(n.c, "f %d %s", i, "x") })
					if n.l == -1 && len(got) == 0 {
						continue
					}
					if len(got) != 1 || got[0].who != n.l || got[0].level != x.level || got[0].f != "f %d %s" || !reflect.DeepEqual(got[0].args, []any{i, "x"}) || n.path == "root" && got[0].c != n.c {
						vfail(t, "%s with %s, log function %d in force: got %+v", x.name, n.path, n.l, got)
					}
					for h, ct := range helped {
						if h != n.h || ct == 0 {
							vfail(t, "%s with %s, helper %d in force: helper %d called", x.name, n.path, n.h, h)
						}
					}
					if n.h != 0 && helped[n.h] == 0 {
						vfail(t, "%s with %s: helper %d not called", x.name, n.path, n.h)
					}
				}
			}
		}
	}
}
