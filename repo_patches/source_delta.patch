From 52308e6c094884635734d35af339a71013790e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:53 +0000
Subject: [PATCH 01/16] fix: sync.Map Range, RangeErr and Map panic on nil
 interface values

---
 utils/sync/map.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/utils/sync/map.go b/utils/sync/map.go
index 8ec73ce..33cae8f 100644
--- a/utils/sync/map.go
+++ b/utils/sync/map.go
@@ -91,7 +91,9 @@ func (this *Map[K, V]) Store(key K, val V) {
 
 func (this *Map[K, V]) Range(f func(key K, val V) bool) {
 	this.m.Range(func(key, val any) bool {
-		return f(key.(K), val.(V))
+		k, _ := key.(K) // not a failure: K or V can be an interface type, holding nil
+		v, _ := val.(V)
+		return f(k, v)
 	})
 }
 
@@ -99,7 +101,9 @@ func (this *Map[K, V]) Range(f func(key K, val V) bool) {
 func (this *Map[K, V]) RangeErr(f func(key K, val V) error) error {
 	var err error
 	this.m.Range(func(key, val any) bool {
-		err = f(key.(K), val.(V))
+		k, _ := key.(K) // see Range()
+		v, _ := val.(V)
+		err = f(k, v)
 		return err == nil
 	})
 	return err
-- 
2.43.0


From cc9eb37e9e38cffa759428a3289a14f4954d816d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:57 +0000
Subject: [PATCH 02/16] fix: printing a prom.Histogram before its first
 observation is done panics

---
 utils/prom/histogram.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/utils/prom/histogram.go b/utils/prom/histogram.go
index e16d811..25dbfc5 100644
--- a/utils/prom/histogram.go
+++ b/utils/prom/histogram.go
@@ -74,6 +74,9 @@ func (this *Histogram) Print(name string, w io.Writer) (err error) {
 func (this *histogramTS) print(w io.Writer, le []float64, name, labels string) (err error) {
 	this.m.Lock()
 	defer this.m.Unlock()
+	for len(this.buckets) < len(le) { // the first observation might not be done yet
+		this.buckets = append(this.buckets, 0)
+	}
 	if labels == "" {
 		for i, le := range le {
 			b := this.buckets[i]
-- 
2.43.0


From d14af955e4f9af235cc756638cf42280e8b88cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:58 +0000
Subject: [PATCH 03/16] fix: prom.Counter.Print reads the value without holding
 its lock

---
 utils/prom/counter.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/utils/prom/counter.go b/utils/prom/counter.go
index caf75da..837fd73 100644
--- a/utils/prom/counter.go
+++ b/utils/prom/counter.go
@@ -31,6 +31,12 @@ func (this *counter) observe(val float64) {
 	this.sum += val
 }
 
+func (this *counter) value() float64 {
+	this.m.Lock()
+	defer this.m.Unlock()
+	return this.sum
+}
+
 func (this *Counter) Print(w io.Writer) error {
 	first := true
 	return this.val.RangeErr(func(l string, v *counter) error {
@@ -53,10 +59,10 @@ func (this *Counter) Print(w io.Writer) error {
 			}
 		}
 		if l == "" {
-			_, err := fmt.Fprintf(w, "%s %f\n", this.Name, v.sum)
+			_, err := fmt.Fprintf(w, "%s %f\n", this.Name, v.value())
 			return err
 		} else {
-			_, err := fmt.Fprintf(w, "%s{%s} %f\n", this.Name, l, v.sum)
+			_, err := fmt.Fprintf(w, "%s{%s} %f\n", this.Name, l, v.value())
 			return err
 		}
 	})
-- 
2.43.0


From 8a6c607f625fad927996297879bfe43291df73d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:25 +0000
Subject: [PATCH 04/16] fix: enc.Map renders its members in random order, so
 equality filters on map values answer at random

---
 enc/map.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/enc/map.go b/enc/map.go
index 5c84ba2..7e2fb91 100644
--- a/enc/map.go
+++ b/enc/map.go
@@ -4,6 +4,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"reflect"
+	"sort"
 	"strconv"
 	"strings"
 
@@ -35,6 +36,7 @@ func (this Map) String() string {
 	for k, v := range this {
 		p = append(p, fmt.Sprintf("%q:%s", k, v))
 	}
+	sort.Strings(p)
 	return "{" + strings.Join(p, ", ") + "}"
 }
 
@@ -43,6 +45,7 @@ func (this Map) GoString() string {
 	for k, v := range this {
 		p = append(p, fmt.Sprintf("%q:%s", k, v))
 	}
+	sort.Strings(p)
 	return "enc.Map{" + strings.Join(p, ", ") + "}"
 }
 
-- 
2.43.0


From 3c6a1d87a4e996af7c95a31b1e17207462b8f4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:36 +0000
Subject: [PATCH 05/16] fix: children of a tracking context get distinct ids

The counter was incremented on a copy of the context, so every child got the
suffix .1.
---
 ctx/span.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ctx/span.go b/ctx/span.go
index 401c379..ee68440 100644
--- a/ctx/span.go
+++ b/ctx/span.go
@@ -18,7 +18,7 @@ func WithTracking(c C, suggest string) C {
 	if suggest == "" {
 		suggest = uuid.NewString()
 	}
-	return trackingCtx{
+	return &trackingCtx{
 		C:    WithTag(c, "tracking-id", suggest),
 		ID:   suggest,
 		Last: 0,
@@ -38,7 +38,7 @@ func GetTracking(c C) string {
 
 type trackingNext struct{}
 
-func (c trackingCtx) Value(k any) any {
+func (c *trackingCtx) Value(k any) any {
 	switch k.(type) {
 	case trackingNext:
 		step := atomic.AddInt32(&c.Last, 1)
-- 
2.43.0


From 48e6b9dfed8a2a67fef32834ccb884eca6a0b840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:36 +0000
Subject: [PATCH 06/16] fix: WithLogFunc and WithHelper leave the parent's
 options alone

They changed the configuration shared with the parent and every other context
derived from it.
---
 ctx/log/log.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ctx/log/log.go b/ctx/log/log.go
index ea64de9..6f58bd7 100644
--- a/ctx/log/log.go
+++ b/ctx/log/log.go
@@ -75,9 +75,9 @@ func wrapSlogLogger(l *slog.Logger) LogFunc {
 // Returns a new context with the custom LogFunc attached,
 // but without handling of tags and Loggable arguments.
 func WithLogFunc(c ctx.C, l LogFunc) ctx.C {
-	conf := extractConfig(c)
+	conf := *extractConfig(c)
 	conf.logFunc = l
-	return withConfig(c, conf)
+	return withConfig(c, &conf)
 }
 
 // Returns a new context with the specified helper func attached,
@@ -85,9 +85,9 @@ func WithLogFunc(c ctx.C, l LogFunc) ctx.C {
 // Useful for tests if you do logging with the t.Logf func (wrapped in a LogFunc),
 // and add the t.Helper func with this - ensuring that the relevant src line is logged.
 func WithHelper(c ctx.C, h func()) ctx.C {
-	conf := extractConfig(c)
+	conf := *extractConfig(c)
 	conf.helper = h
-	return withConfig(c, conf)
+	return withConfig(c, &conf)
 }
 
 // Creates a slog JSON logger with a certain default configuration, with the default minimum log level of debug
-- 
2.43.0


From b53eec0ecb12698b53a7471604827d149665178e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:36 +0000
Subject: [PATCH 07/16] fix: FormatMsg no longer rewrites its caller's
 arguments

---
 ctx/log/log.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ctx/log/log.go b/ctx/log/log.go
index 6f58bd7..84749c2 100644
--- a/ctx/log/log.go
+++ b/ctx/log/log.go
@@ -175,6 +175,7 @@ func extractConfig(c ctx.C) *config {
 }
 
 func FormatMsg(c ctx.C, tags *Tags, f string, args ...any) string {
+	args = append([]any(nil), args...) // the caller's slice is not ours to change
 	errs := []map[string]any{}
 	for i := 0; i < len(args); i++ {
 		switch arg := args[i].(type) {
-- 
2.43.0


From d8955f10a73bd3165c9692fe983598398ed0430b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:28 +0000
Subject: [PATCH 08/16] fix: the recorded status is the one sent to the client

A handler that wrote nothing was recorded as 0 (the client gets 200), as was a
connection taken over, and an informational status made the final one look like
a duplicate and be dropped.
---
 http/mux.go    | 21 +++++++++++++++++++--
 http/server.go |  2 +-
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/http/mux.go b/http/mux.go
index cac7611..8f8d684 100644
--- a/http/mux.go
+++ b/http/mux.go
@@ -35,7 +35,7 @@ func (this *Server) Handle(path string, h http.Handler) *openapi.Path {
 
 		metric{
 			Method: r.Method,
-			Code:   w2.code,
+			Code:   w2.status(),
 			Path:   path,
 		}.observe(time.Since(t0))
 	})
@@ -57,12 +57,25 @@ type responseHijacker struct {
 
 var _ http.Hijacker = &responseHijacker{}
 
+// the status of the response, 200 unless the handler sent something else
+func (r *response) status() int {
+	if r.code == 0 {
+		return 200
+	}
+	return r.code
+}
+
 func (r *response) WriteHeader(code int) {
 	if r.code != 0 {
 		stack := utils.Stack(1, 10)
 		log.Warnf(nil, "duplicate WriteHeader() at %s", strings.Join(stack, "\n"))
 		return
 	}
+	if code >= 100 && code <= 199 && code != http.StatusSwitchingProtocols {
+		// informational, the status of the response is still to come
+		r.ResponseWriter.WriteHeader(code)
+		return
+	}
 	r.code = code
 	r.ResponseWriter.WriteHeader(code)
 }
@@ -75,5 +88,9 @@ func (r *response) Write(b []byte) (int, error) {
 }
 
 func (r responseHijacker) Hijack() (conn net.Conn, rw *bufio.ReadWriter, err error) {
-	return r.hijacker.Hijack()
+	conn, rw, err = r.hijacker.Hijack()
+	if err == nil && r.code == 0 {
+		r.code = http.StatusSwitchingProtocols // whatever is sent from now on, it's not ours
+	}
+	return conn, rw, err
 }
diff --git a/http/server.go b/http/server.go
index f5c4cc0..c4cfc5a 100644
--- a/http/server.go
+++ b/http/server.go
@@ -58,7 +58,7 @@ func NewServer(c ctx.C) *Server {
 
 		metric{
 			Method: r.Method,
-			Code:   w2.code,
+			Code:   w2.status(),
 			Path:   r.URL.Path, // TODO(oha) if we have templates, this won't work
 		}.observe(time.Since(t0))
 	})
-- 
2.43.0


From 94b5332c2978ab02f2466b627d153533810b88a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:28 +0000
Subject: [PATCH 09/16] fix: compress when the client accepts the encoding gzip

The media types the client accepts were looked at instead.
---
 http/server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/http/server.go b/http/server.go
index c4cfc5a..2ef3bba 100644
--- a/http/server.go
+++ b/http/server.go
@@ -230,7 +230,7 @@ func (this *Server) handleRequest(path string, f func(c ctx.C, in []byte, r *htt
 		}
 
 		w.Header().Add("Content-Type", "application/json")
-		if len(out) > 16*1024 && strings.Contains(r.Header.Get("Accept"), "gzip") { // TODO ugly parsing, but good enough for now
+		if len(out) > 16*1024 && strings.Contains(r.Header.Get("Accept-Encoding"), "gzip") { // TODO ugly parsing, but good enough for now
 			w.Header().Add("Content-Encoding", "gzip")
 			w2 := gzip.NewWriter(w)
 			_, err = w2.Write(out)
-- 
2.43.0


From 89908982328087e645dbade349c1682ee9a8ee59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:46 +0000
Subject: [PATCH 10/16] fix: numbers that do not fit their target are refused
 instead of wrapped around

---
 enc/numeric.go | 37 +++++++++++++++++++++++++++++++------
 1 file changed, 31 insertions(+), 6 deletions(-)

diff --git a/enc/numeric.go b/enc/numeric.go
index 7e7476d..4849931 100644
--- a/enc/numeric.go
+++ b/enc/numeric.go
@@ -29,8 +29,13 @@ type Integer int
 var _ Node = Integer(0)
 var _ Numeric = Integer(0)
 
-func (this Integer) Int64() (int64, error)        { return int64(this), nil }
-func (this Integer) Uint64() (uint64, error)      { return uint64(this), nil }
+func (this Integer) Int64() (int64, error) { return int64(this), nil }
+func (this Integer) Uint64() (uint64, error) {
+	if this < 0 {
+		return 0, fmt.Errorf("%v out of range for uint64", this)
+	}
+	return uint64(this), nil
+}
 func (this Integer) Float64() (float64, error)    { return float64(this), nil }
 func (this Integer) String() string               { return strconv.FormatInt(int64(this), 10) }
 func (this Integer) GoString() string             { return fmt.Sprintf("enc.Integer{%v}", int64(this)) }
@@ -48,8 +53,18 @@ type Float float64
 var _ Node = Float(0)
 var _ Numeric = Float(0)
 
-func (this Float) Int64() (int64, error)        { return int64(this), nil }
-func (this Float) Uint64() (uint64, error)      { return uint64(this), nil }
+func (this Float) Int64() (int64, error) {
+	if this >= -(1<<63) && this < 1<<63 { // false for NaN
+		return int64(this), nil
+	}
+	return 0, fmt.Errorf("%v out of range for int64", this)
+}
+func (this Float) Uint64() (uint64, error) {
+	if this > -1 && this < 1<<64 { // false for NaN
+		return uint64(this), nil
+	}
+	return 0, fmt.Errorf("%v out of range for uint64", this)
+}
 func (this Float) Float64() (float64, error)    { return float64(this), nil }
 func (this Float) String() string               { return strconv.FormatFloat(float64(this), 'g', -1, 64) }
 func (this Float) GoString() string             { return fmt.Sprintf("enc.Float{%v}", float64(this)) }
@@ -77,8 +92,9 @@ func (this Digits) Uint64() (uint64, error) {
 	return i, err
 }
 func trimDecimal(s string) string {
-	if strings.Contains(string(s), ".") {
-		return strings.Split(s, ".")[0]
+	i, frac, found := strings.Cut(s, ".")
+	if found && strings.Trim(frac, "0123456789") == "" { // an exponent is not part of the decimals
+		return i
 	}
 	return s
 }
@@ -130,6 +146,9 @@ func unmarshalNumericInto(this numeric, c ctx.C, handler Handler, into reflect.V
 		if err != nil {
 			return err
 		}
+		if into.OverflowFloat(f) {
+			return ctx.NewErrorf(c, "can't unmarshal %s %v into %v: out of range", handler.path, this, into.Type())
+		}
 		into.SetFloat(f)
 	case reflect.Int,
 		reflect.Int8,
@@ -140,6 +159,9 @@ func unmarshalNumericInto(this numeric, c ctx.C, handler Handler, into reflect.V
 		if err != nil {
 			return err
 		}
+		if into.OverflowInt(i) {
+			return ctx.NewErrorf(c, "can't unmarshal %s %v into %v: out of range", handler.path, this, into.Type())
+		}
 		into.SetInt(int64(i))
 	case reflect.Uint,
 		reflect.Uint8,
@@ -150,6 +172,9 @@ func unmarshalNumericInto(this numeric, c ctx.C, handler Handler, into reflect.V
 		if err != nil {
 			return err
 		}
+		if into.OverflowUint(i) {
+			return ctx.NewErrorf(c, "can't unmarshal %s %v into %v: out of range", handler.path, this, into.Type())
+		}
 		into.SetUint(uint64(i))
 	case reflect.Interface:
 		v := reflect.ValueOf(this.native())
-- 
2.43.0


From f18af72e825c83e435ff5b7b51d0ab01e76ba2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:46 +0000
Subject: [PATCH 11/16] fix: a field whose tag skips it is not filled from a
 member with an empty name

---
 enc/map.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/enc/map.go b/enc/map.go
index 7e2fb91..66e9677 100644
--- a/enc/map.go
+++ b/enc/map.go
@@ -97,6 +97,9 @@ func (this Map) unmarshalInto(c ctx.C, handler Handler, into reflect.Value) erro
 			ft := vt.Field(i)
 			if ft.IsExported() {
 				tag := parseTag(ft)
+				if tag.Skip {
+					continue
+				}
 				seen[tag.JSON] = true
 				v, ok := this[tag.JSON]
 				if ok {
-- 
2.43.0


From 82b313a4a605ce74acc28364278072c935d8eb4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:46 +0000
Subject: [PATCH 12/16] fix: an ordered document turned into native values uses
 its wire names

---
 enc/pairs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enc/pairs.go b/enc/pairs.go
index 9534a05..b88016a 100644
--- a/enc/pairs.go
+++ b/enc/pairs.go
@@ -26,7 +26,7 @@ func (this Pairs) AsMap() Map {
 func (this Pairs) native() any {
 	out := map[string]any{}
 	for _, p := range this {
-		out[p.Name] = p.Value.native()
+		out[p.JSON] = p.Value.native()
 	}
 	return out
 }
-- 
2.43.0


From 5aea2674233c623cde972096fc3fb77a3cc01c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:48 +0000
Subject: [PATCH 13/16] fix: encoding keeps large unsigned numbers, writes null
 for nil values that encode themselves, and refuses what it can't encode

---
 enc/handler.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/enc/handler.go b/enc/handler.go
index fa079a9..616008b 100644
--- a/enc/handler.go
+++ b/enc/handler.go
@@ -3,7 +3,9 @@ package enc
 import (
 	"encoding/json"
 	"fmt"
+	"math"
 	"reflect"
+	"strconv"
 	"time"
 
 	"github.com/Aize-Public/forego/ctx"
@@ -174,6 +176,9 @@ func Marshal(c ctx.C, in any) (Node, error) {
 
 func (this Handler) Marshal(c ctx.C, in any) (Node, error) {
 	//log.Warnf(c, "OHA: %T %v", in, in)
+	if p := reflect.ValueOf(in); p.Kind() == reflect.Pointer && p.IsNil() { // there is no value to ask, like encoding/json
+		return Nil{}, nil
+	}
 	switch in := in.(type) {
 	case nil:
 		return Nil{}, nil
@@ -200,9 +205,8 @@ func (this Handler) Marshal(c ctx.C, in any) (Node, error) {
 	v := reflect.ValueOf(in)
 	t := v.Type()
 	switch t.Kind() {
-	default:
-		log.Warnf(c, "possible wrong fallback for type %T", in)
-		return fromNative(in), nil
+	default: // nothing to encode them as
+		return nil, ctx.NewErrorf(c, "can't marshal %T", in)
 	case reflect.Func:
 		return nil, ctx.NewErrorf(c, "can't marshal %T", in)
 	case reflect.Bool:
@@ -212,6 +216,9 @@ func (this Handler) Marshal(c ctx.C, in any) (Node, error) {
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
 		return Integer(v.Int()), nil
 	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+		if u := v.Uint(); u > math.MaxInt { // more than an Integer can hold
+			return Digits(strconv.FormatUint(u, 10)), nil
+		}
 		return Integer(v.Uint()), nil
 	case reflect.String:
 		return String(v.String()), nil
-- 
2.43.0


From 3b39fd7906fff423d7d273f43796ccbf17d6f16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:49 +0000
Subject: [PATCH 14/16] fix: decoding concurrently into json types wrote a
 shared map without a lock

---
 enc/handler.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/enc/handler.go b/enc/handler.go
index 616008b..5c53dbf 100644
--- a/enc/handler.go
+++ b/enc/handler.go
@@ -6,6 +6,7 @@ import (
 	"math"
 	"reflect"
 	"strconv"
+	"sync"
 	"time"
 
 	"github.com/Aize-Public/forego/ctx"
@@ -29,7 +30,7 @@ func (this Handler) Append(p any) Handler {
 	return this
 }
 
-var ineff = map[string]bool{}
+var ineff sync.Map // of the messages already logged
 
 func MustUnmarshal(c ctx.C, n Node, into any) {
 	err := Handler{}.Unmarshal(c, n, into)
@@ -163,8 +164,7 @@ func (this Handler) unmarshal(c ctx.C, from Node, v reflect.Value) error {
 
 func warnIneff(c ctx.C, f string, args ...any) {
 	msg := fmt.Sprintf(f, args...)
-	if !ineff[msg] {
-		ineff[msg] = true
+	if _, seen := ineff.LoadOrStore(msg, true); !seen {
 		log.Warnf(c, f, args...)
 	}
 }
-- 
2.43.0


From 7ef0ac34d24396b92b9534d7114b5196d6c8a821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:56 +0000
Subject: [PATCH 15/16] fix: ReadAll keeps bytes delivered together with the
 end or an error, and does not race when cancelled

---
 utils/io.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/utils/io.go b/utils/io.go
index c822cb1..f58041c 100644
--- a/utils/io.go
+++ b/utils/io.go
@@ -3,6 +3,7 @@ package utils
 import (
 	"bytes"
 	"io"
+	"sync"
 
 	"github.com/Aize-Public/forego/ctx"
 )
@@ -12,6 +13,7 @@ import (
 // If the close function is passed, it will be called when read is exhausted.
 func ReadAll(c ctx.C, r io.Reader, close func() error) ([]byte, error) {
 	out := bytes.Buffer{}
+	var m sync.Mutex // when cancelled, the go-routine might still be writing
 	ch := make(chan error, 1)
 	if close != nil {
 		defer close() // nolint
@@ -21,16 +23,20 @@ func ReadAll(c ctx.C, r io.Reader, close func() error) ([]byte, error) {
 		buf := make([]byte, 8192)
 		for c.Err() == nil {
 			ct, err := r.Read(buf)
+			m.Lock()
+			_, _ = out.Write(buf[0:ct]) // even with an error, some bytes might have been read
+			m.Unlock()
 			if err != nil {
 				ch <- err
 				return
 			}
-			_, _ = out.Write(buf[0:ct])
 			//log.Printf("read %d bytes...", ct)
 		}
 	}()
 	select {
 	case <-c.Done():
+		m.Lock()
+		defer m.Unlock()
 		return out.Bytes(), ctx.NewErrorf(c, "timeout: %w", c.Err())
 	case err := <-ch:
 		if err == io.EOF {
-- 
2.43.0


From 428ff8d83cc700ab61972218c12640c95e2a84b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:06 +0000
Subject: [PATCH 16/16] fix: a hit makes an LRU entry the most recently used;
 LRU.String takes the lock

---
 utils/caches/lru.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/utils/caches/lru.go b/utils/caches/lru.go
index dd3e596..b868c2d 100644
--- a/utils/caches/lru.go
+++ b/utils/caches/lru.go
@@ -64,10 +64,10 @@ func (this *LRU[K, V]) Get(c ctx.C, k K) (V, HitMiss, error) {
 
 	i, exists := this.heap.index[k]
 	if exists {
-		entry := this.heap.list[i]
-		entry.last = time.Now()
+		val := this.heap.list[i].val
+		this.heap.list[i].last = time.Now() // now the newest
 		heap.Fix(this.heap, i)
-		return entry.val, HIT, nil
+		return val, HIT, nil
 	}
 
 	// TODO(oha): this is wrong, we shouldn't hold a lock onMiss
@@ -98,6 +98,9 @@ func (this *LRU[K, V]) Get(c ctx.C, k K) (V, HitMiss, error) {
 }
 
 func (this *LRU[K, V]) String() string {
+	this.l.Lock()
+	defer this.l.Unlock()
+
 	if len(this.heap.list) == 0 {
 		return fmt.Sprintf("LRU{%d/%d, empty}", this.curSize, this.MaxSize)
 	}
-- 
2.43.0

