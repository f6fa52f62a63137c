package prom

import (
	"bytes"
	"errors"
	"fmt"
	"sort"
	"strings"
	"testing"
)

// a writer that fails at the given write
type failing struct {
	bytes.Buffer
	at, n int
	err   error
	after int
}

func (this *failing) Write(p []byte) (int, error) {
	this.n++
	if this.n > this.at && this.at > 0 {
		this.after++
	}
	if this.n == this.at {
		return 0, this.err
	}
	return this.Buffer.Write(p)
}

func check(t *testing.T, what string, header []string, samples []string, group int, print func(w *failing) error) {
	t.Helper()
	w := &failing{}
	var err error
	vnopanic(t, what, func() { err = print(w) })
	out := w.String()
	if err != nil {
		vfail(t, "%s: error %v", what, err)
	}
	if len(samples) == 0 {
		if out != "" {
			vfail(t, "%s: printed %q without samples", what, out)
		}
		return
	}
	head := strings.Join(header, "")
	if !strings.HasPrefix(out, head) {
		vfail(t, "%s: printed %q, expected to start with %q", what, out, head)
	}
	lines := strings.SplitAfter(strings.TrimPrefix(out, head), "\n")
	lines = lines[:len(lines)-1]
	var got []string
	for i := 0; i+group <= len(lines); i += group {
		got = append(got, strings.Join(lines[i:i+group], ""))
	}
	sort.Strings(got)
	sort.Strings(samples)
	if fmt.Sprint(got) != fmt.Sprint(samples) || len(lines)%group != 0 {
		vfail(t, "%s: printed %q, expected the samples %q in any order", what, lines, samples)
	}
	total := strings.Count(out, "\n")
	for at := 1; at <= total; at++ {
		w := &failing{at: at, err: errors.New("disk full")}
		var err error
		vnopanic(t, what, func() { err = print(w) })
		if w.n >= at && (err != w.err || w.after != 0) {
			vfail(t, "%s: write %d failed, Print returned %v and wrote %d more times", what, at, err, w.after)
		}
		if w.n < at && err != nil {
			vfail(t, "%s: no write failed, Print returned %v", what, err)
		}
	}
}

func TestVerifPrint(t *testing.T) {
	for n := 0; n < 5; n++ {
		for _, labels := range [][]string{nil, {"a"}, {"a", "b"}} {
			if len(labels) == 0 && n > 1 {
				continue
			}
			for _, isg := range []bool{false, true} {
				c := &Counter{Name: "cn", Desc: "some desc", Labels: labels, Gauge: isg}
				g := &Gauge{Desc: "g desc", Labels: labels}
				gf := &Gauge{Desc: "g desc", Labels: labels}
				h := &Histogram{Desc: "h desc", Labels: labels, Buckets: []float64{1, 2.5, 10}}
				h0 := &Histogram{Desc: "h desc", Labels: labels}
				var cs, gs, gfs, hs, h0s []string
				for i := 0; i < n; i++ {
					var vals []string
					txt := ""
					for k, l := range labels {
						v := fmt.Sprintf("v\"%d\\%d\n", i, k)
						vals = append(vals, v)
						txt += fmt.Sprintf(",%s=%q", l, v)
					}
					br, pre := "", ""
					if txt != "" {
						br = "{" + txt[1:] + "}"
						pre = txt[1:] + ","
					}
					c.Observe(float64(i)+.5, vals...)
					cs = append(cs, fmt.Sprintf("cn%s %f\n", br, float64(i)+.5))
					g.Counter(vals...).Inc(i * 7)
					gs = append(gs, fmt.Sprintf("gn%s %v\n", br, float64(i*7)))
					i := i
					gf.SetFunc(func() float64 { return float64(i) / 3 }, vals...)
					gfs = append(gfs, fmt.Sprintf("gn%s %v\n", br, float64(i)/3))
					h.Observe(.5, vals...)
					h.Observe(float64(i)*4, vals...)
					b := [3]int{1, 1, 1}
					for k, le := range h.Buckets {
						if float64(i)*4 <= le {
							b[k]++
						}
					}
					hs = append(hs, fmt.Sprintf("hn_bucket{%sle=\"1\"} %d\nhn_bucket{%sle=\"2.5\"} %d\nhn_bucket{%sle=\"10\"} %d\nhn_bucket{%sle=\"+Inf\"} 2\nhn_sum%s %f\nhn_count%s 2\n", pre, b[0], pre, b[1], pre, b[2], pre, br, .5+float64(i)*4, br))
					h0.Observe(3, vals...)
					h0s = append(h0s, fmt.Sprintf("hn_bucket{%sle=\"+Inf\"} 1\nhn_sum%s %f\nhn_count%s 1\n", pre, br, 3., br))
				}
				ty := "counter"
				if isg {
					ty = "gauge"
				}
				what := fmt.Sprintf("labels %v with %d samples", labels, n)
				check(t, "Counter "+what, []string{"# HELP cn some desc\n", "# TYPE cn " + ty + "\n"}, cs, 1, func(w *failing) error { return c.Print(w) })
				check(t, "Gauge "+what, []string{"# HELP gn g desc\n", "# TYPE gn gauge\n"}, gs, 1, func(w *failing) error { return g.Print("gn", w) })
				check(t, "Gauge function "+what, []string{"# HELP gn g desc\n", "# TYPE gn gauge\n"}, gfs, 1, func(w *failing) error { return gf.Print("gn", w) })
				check(t, "Histogram "+what, []string{"# HELP hn h desc\n", "# TYPE hn histogram\n"}, hs, 6, func(w *failing) error { return h.Print("hn", w) })
				check(t, "Histogram without buckets "+what, []string{"# HELP hn h desc\n", "# TYPE hn histogram\n"}, h0s, 3, func(w *failing) error { return h0.Print("hn", w) })
				m := map[string]any{}
				var ms []string
				for i := 0; i < n; i++ {
					m[fmt.Sprintf("k%d{x=\"%d\"}", i, 5-i)] = i * 11
					ms = append(ms, fmt.Sprintf("k%d{x=\"%d\"} %v\n", i, 5-i, i*11))
				}
				check(t, fmt.Sprintf("Custom with %d samples", n), []string{"# HELP un u desc\n", "# TYPE un summary\n"}, ms, 1, func(w *failing) error {
					return (&Custom{Desc: "u desc", Type: "summary", Func: func() map[string]any { return m }}).Print("un", w)
				})
			}
		}
	}
	for k := 0; k < 4; k++ {
		for v := 0; v < 4; v++ {
			ks, vs := []string{"a", "b", "c"}[:min3(k)], []string{"x", "y", "z"}[:min3(v)]
			r := vpanics(func() { stringify(ks, vs) })
			if (r != nil) != (len(ks) != len(vs)) {
				vfail(t, "%d labels with %d values: panic %v", len(ks), len(vs), r)
			}
		}
	}
}

func min3(i int) int {
	if i > 3 {
		return 3
	}
	return i
}
