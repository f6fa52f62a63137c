# ---------------------------------------------------------------- lists
p("L01","Splitting a list loses, duplicates and reorders nothing",
"For every list and every positive size limit, splitting yields groups that hold at most the limit of elements each and that, read one after the other, are exactly the original list; a list that fits the limit comes back as one group, and a non-positive limit is refused instead of returning a result. Flattening a list of lists yields all their elements, in order, and nothing else.",
["inputs"],"all element types, all lists, all limits",
"The tests use a handful of short lists and limits; the chunk arithmetic can go wrong for particular length/limit pairs (a last chunk past the end, an empty or oversized chunk).",
["utils/lists/group.go"],[("Split","utils/lists/group.go:Split"),("Flatten","utils/lists/group.go:Flatten")],["return value"])
p("L02","List helpers compute exactly what they say and touch nothing else",
"Reversing a list puts every element at its mirrored position; a membership query answers true exactly when an equal element is present; adding a unique element leaves the list as it was when the element is present and otherwise appends it at the end; copying yields an equal list of the same length in fresh storage.",
["inputs"],"all element types, all lists, all elements",
"Tests sample a few short lists of one type; off-by-one and aliasing errors show only for particular lengths, positions or shared storage.",
["utils/lists/lists.go","utils/lists/reverse.go"],[("Contains/AddUnique/Copy","utils/lists/lists.go"),("Reverse","utils/lists/reverse.go")],["return value","list contents"])
p("L03","The permutation generator walks orderings one adjacent swap at a time",
"The first call changes nothing and reports true; every later call that reports true swaps exactly two adjacent elements of the list, choosing the largest element that can still move in its direction and turning around the larger ones, so the list is always a permutation of the original; a call that reports false means that no element can move and leaves the list alone.",
["inputs","histories"],"all element types, all list lengths, all call histories",
"Tests enumerate one or two small lengths; a wrong choice or direction flip can surface only for longer lists after many steps.",
["utils/lists/perm.go"],[("next (Johnson-Trotter step)","utils/lists/perm.go:next"),("first-call gate","utils/lists/perm.go:Permute")],["list contents","return value"])
p("L04","An ordered map is a map that remembers first-insertion order",
"After any history of put, get and delete, a lookup reports exactly the last value put for the key and not deleted since, put and delete report the value they replaced or removed, and iteration, keys, values and length show exactly the present keys once each, in the order in which each was (re)inserted. Iteration stops at the first error from the callback and returns that error.",
["histories","inputs"],"all key and value types, all operation histories",
"Tests run one short history; index bookkeeping after deletes and re-inserts is only exercised by particular interleavings of operations.",
["utils/ordered_map.go"],[("Get/Put/Delete/Range","utils/ordered_map.go")],["Get","Put","Delete","Range","Keys","Values","Len"],[("list/byKey","byKey maps exactly the live keys to their slot in list","utils/ordered_map.go:OrderedMap")])
# ---------------------------------------------------------------- concurrent containers
p("C01","Typed concurrent map and set act as one atomic map per call",
"Every operation of the typed concurrent map and of the set takes effect as a single atomic operation on the shared key/value state and returns what that operation returned, with the zero value standing for absent or nil values; get-or-store never replaces a present entry, add reports true exactly when it inserted and remove exactly when it removed. Iterating with an error callback visits entries until the first error and returns exactly that error.",
["schedules","histories","inputs"],"all key and value types (nil-able values included), all interleavings of callers",
"Tests call a few operations on one goroutine with non-nil values; a load-then-store or a missing nil case behaves identically there.",
["utils/sync/map.go","utils/lists/set.go"],[("Map","utils/sync/map.go"),("Set","utils/lists/set.go")],["return values","callback arguments"])
p("C02","The size-bounded cache stays within its budget and evicts the oldest",
"Provided the source reports no negative size, and whatever the history of lookups and invalidations, the sizes of the retained entries add up to the accounted total and never exceed the configured maximum when a call returns; a hit returns the retained value for that key and makes the entry the most recently used, a miss asks the source exactly once, source errors and zero-size results are passed on and never retained, and evictions always remove the least recently used entry (uses at the same clock reading count as equally recent). An invalidated key is not retained, and no other entry is affected by invalidating it.",
["histories","schedules","inputs"],"all histories and interleavings of lookups and invalidations, all sizes, all source outcomes",
"Tests use one goroutine, unit sizes and a few keys; the index/heap bookkeeping and the size accounting break only for particular orders of hits, invalidations and evictions.",
["utils/caches/lru.go"],[("LRU.Get","utils/caches/lru.go:Get"),("LRU.Invalidate","utils/caches/lru.go:Invalidate"),("lruHeap","utils/caches/lru.go:lruHeap")],["Get","Keys","calls of the source"],[("heap.index","index[k] is the slot of k","utils/caches/lru.go:lruHeap"),("curSize","sum of sizes","utils/caches/lru.go:LRU")])
p("C03","The memory cache asks its source at most once per key and retains only successes",
"A lookup of a retained key returns the retained value without asking the source; otherwise the source is asked exactly once, its value is returned and retained only if it reported no error, and its error is passed on unchanged. Invalidating a key forgets exactly that key, and concurrent callers never see a half-made entry.",
["histories","schedules","inputs"],"all histories and interleavings, all source outcomes",
"No test covers source errors followed by lookups, nor concurrent callers.",
["utils/caches/mem.go"],[("memCache","utils/caches/mem.go")],["Get","calls of the source"])
p("C04","The request cache serves a response only while its time to live lasts",
"A request is answered without asking the source only if an earlier answer for that key was given a positive time to live that has not passed, and then it reports the same value and error as that answer; in every other case the source is asked exactly once and its value and error are returned, whether or not they may be retained. A source answer without a positive time to live is never served to a later request.",
["histories","schedules","inputs"],"all keys, clock values, time-to-live values and source outcomes",
"Tests sleep through one or two expiries; error answers, zero or negative time to live and racing callers are not sampled.",
["utils/caches/request.go"],[("RequestCache.Request","utils/caches/request.go:Request")],["Request","calls of the source"])
# ---------------------------------------------------------------- metrics
p("M01","Histogram buckets are cumulative and no observation is lost",
"For every sequence and interleaving of observations of a label combination, the count is the number of observations, each bucket's number is the number of observations not above its bound, and the sum accumulates every observed value; observing under one label combination never changes another. Printing at any moment, even before the first observation is complete, does not fail because of it.",
["schedules","histories","inputs"],"all bounds, values, label combinations and interleavings",
"Tests observe a few values from one goroutine and print afterwards; lost updates, boundary values equal to a bucket bound and printing during a first observation are not sampled.",
["utils/prom/histogram.go"],[("histogramTS.observe","utils/prom/histogram.go:observe"),("Histogram.Observe","utils/prom/histogram.go:Observe")],["Print"],[("buckets/sum/count","guarded by the entry's mutex","utils/prom/histogram.go:histogramTS")])
p("M02","Counters and gauges lose no update and keep label combinations apart",
"For every interleaving, the value of a counter's label combination is the accumulation of all values observed under it, and the value of a gauge counter is its increments minus its decrements; all callers using the same label combination reach the same entry, and a gauge function is replaced or removed only by a call for its own label combination.",
["schedules","histories"],"all label combinations, amounts and interleavings",
"Tests run single-goroutine; racing first uses of a label combination and unlocked reads do not show.",
["utils/prom/counter.go","utils/prom/gauge.go"],[("Counter.Observe","utils/prom/counter.go:Observe"),("GaugeCounter","utils/prom/gauge.go")],["Print"])
p("M03","The exposition lists every sample once under its metric's header",
"Printing a metric that has samples writes its help line, then its type line, and then each sample line exactly once with the metric's name, its labels if any, and its value; a metric without samples prints nothing. Histograms print every bucket bound in order, then the +Inf bucket, the sum and the count, with +Inf equal to the count; the first write error stops the output and is returned, and label values are quoted in declaration order with a mismatch in their number refused.",
["inputs","fault_sequences"],"all metric contents, labels and write failures",
"Tests compare a few fixed outputs on a writer that never fails.",
["utils/prom/counter.go","utils/prom/gauge.go","utils/prom/histogram.go","utils/prom/custom.go","utils/prom/labels.go"],[("Print","utils/prom/*.go:Print"),("stringify","utils/prom/labels.go:stringify")],["bytes written","error returned"])
p("M04","A metric name is registered at most once and listed exactly once",
"Registering a metric under a name already taken is refused and leaves the registered one in place; otherwise the name maps to that metric from then on and every other registration is untouched. Listing calls back for registered metrics, at most once each with its own name, stops at the first error and returns it, and holds no lock during the callback.",
["histories","schedules"],"all histories and interleavings of registering and listing",
"No test registers duplicates or lists while another goroutine registers.",
["utils/prom/metric.go"],[("Register/Range","utils/prom/metric.go")],["Register","Range"])
# ---------------------------------------------------------------- storage
p("S01","The in-memory store is an atomic map from keys to documents",
"For every interleaving of reads, upserts and deletes, a read returns the document last upserted under that key and not deleted since, or none; an upsert or delete affects exactly its own key. All accesses to the shared contents happen under the store's lock.",
["histories","schedules","inputs"],"all histories and interleavings",
"Tests run one goroutine with a few keys.",
["storage/keyvalue.go"],[("memKeyValue","storage/keyvalue.go")],["Get","Upsert","Delete"],[("data","guarded by m","storage/keyvalue.go:memKeyValue")])
p("S02","A filtered scan visits exactly the matching documents",
"A scan calls back, outside the store's lock, only with key/document pairs that the store held at one single moment and that satisfy every filter, each at most once, and with all of them if nothing stops it; the end-of-data signal from the callback stops the scan and reports success, any other callback error stops it and is returned unchanged, and an unsupported comparison, once a document's filters are tried as far as that one, ends the scan with an error. A filter for equality holds exactly when the field's value renders equal to the literal, an absent field counting as nil, and inequality is its exact opposite.",
["inputs","histories","schedules"],"all store contents, filters and callback outcomes",
"Tests scan a few documents with one filter.",
["storage/keyvalue.go","storage/filter.go"],[("Range","storage/keyvalue.go:Range"),("Check","storage/keyvalue.go:Check")],["callback calls","return value"])
# ---------------------------------------------------------------- ctx
p("X01","Context tags are reported complete, unaltered and parents first",
"Ranging over a context's tags calls back once for every tag attached along its chain, oldest first, with the key and encoding given when it was attached, and stops at the first callback error, returning exactly that error; attaching a tag changes no other context. A tag given as valid encoded bytes is kept verbatim and any other value is encoded, falling back to a text description when it cannot be.",
["inputs","histories"],"all context chains, tags and callback outcomes",
"Tests build one chain of two or three tags.",
["ctx/tags.go"],[("tagC.Value","ctx/tags.go:Value"),("WithTag/RangeTag","ctx/tags.go")],["callback calls","return value"])
p("X02","Errors get a stack and context exactly once and stay transparent",
"Wrapping nil yields nil; wrapping an error that already carries a stack anywhere in its chain returns that same error; any other error is wrapped once with the given context, and the wrapped error has the same message, unwraps to the original and matches whatever the original matches. Formatting a new error keeps the errors given as wrapped arguments reachable.",
["inputs"],"all errors and wrap chains, all contexts",
"Tests wrap two or three concrete errors.",
["ctx/error.go"],[("maybeWrap","ctx/error.go:maybeWrap"),("Error","ctx/error.go:Error")],["returned error","errors.Is/As"])
p("X03","A detached context keeps the values and drops cancellation",
"For every parent context and key, a detached context returns the same value as the parent, reports no deadline, never becomes done and has no error, whatever happens to the parent.",
["inputs","schedules"],"all parents, keys and cancellation histories",
"One test cancels one parent.",
["ctx/detach.go"],[("detachedC","ctx/detach.go")],["Value","Deadline","Done","Err"])
p("X04","Child tracking ids are unique below their parent",
"A context given a tracking id reports that id (a fresh one when none is suggested) to itself and all contexts derived from it until the next tracking id; each child span gets the parent's id extended by a sequence number that no other child span of that parent gets, also when spans are made concurrently.",
["schedules","histories"],"all numbers and interleavings of spans made from one parent",
"The test makes one span per parent.",
["ctx/span.go"],[("trackingCtx.Value","ctx/span.go:Value"),("Span","ctx/span.go:Span")],["GetTracking"])
p("X05","Logging options set on a context never leak into its ancestors or siblings",
"Attaching a log function or helper to a context returns a derived context that uses it together with the options already in force, and leaves every other context's options as they were; a message logged with a context reaches exactly the log function in force there, once, with its level and arguments.",
["inputs","histories"],"all chains of contexts and options",
"Tests attach options once to a root context.",
["ctx/log/log.go"],[("WithLogFunc/WithHelper","ctx/log/log.go"),("doLog","ctx/log/log.go:doLog")],["log function calls"])
p("X06","Self-describing log arguments are rewritten before they reach the output",
"Formatting a log message replaces every argument that knows how to log itself by what it says, so a redacted string's content is never part of the message, leaves other arguments as they are and does not alter the caller's arguments; when arguments are errors their text, stack and context tags are recorded under the error tag.",
["inputs"],"all formats and argument lists",
"Tests log a few argument lists.",
["ctx/log/log.go","ctx/log/redacted.go"],[("FormatMsg","ctx/log/log.go:FormatMsg"),("RedactedString","ctx/log/redacted.go")],["formatted message","tags","argument list"])
# ---------------------------------------------------------------- config
p("K01","Configuration is filled completely and faithfully, or an error is returned",
"Every tagged field gets the value the lookup returns for its key, or its declared default when that is empty, converted to the field's type (numbers, booleans, strings, comma lists and key=value maps); a missing key without default, an unknown tag option or an unconvertible value is an error, untagged fields keep their values, and no supported field type makes it crash.",
["inputs","configurations"],"all structs, tags and lookup results",
"Tests use one struct with a few keys.",
["config/config.go"],[("From","config/config.go:From"),("unmarshalText","config/config.go:unmarshalText")],["returned struct","error"])
# ---------------------------------------------------------------- api
p("A01","Field directions are honoured on both sides of a call",
"A client sends exactly the input fields and reads exactly the output fields, and a server reads exactly the input fields and sends exactly the output fields, each under its own wire name; the first failure stops the transfer and is reported, wrapping its cause.",
["inputs","configurations","fault_sequences"],"all request types, tags and per-field failures",
"Tests use a few example operations.",
["api/handler.go","api/tag.go"],[("Send/Recv","api/handler.go"),("parseTags","api/tag.go:parseTags")],["wire fields","object fields"])
p("A02","A request missing a required field or required authentication never runs",
"Receiving a request fails if any required input field is zero after decoding, if any field fails to decode, or if the operation has an authentication field that is rejected; a required authentication field is rejected when no identity is present. A successfully received request is a fresh object that starts from the registered initial values.",
["inputs","configurations","fault_sequences"],"all request types, payloads and identities",
"Tests cover one required field and one identity.",
["api/handler.go","api/json.go"],[("Server.Recv","api/handler.go:Recv"),("JSON.Auth","api/json.go:Auth")],["Recv result"])
p("A03","Field tags are parsed into exactly the declared roles and name",
"A field's wire name is the part before the first comma of its encoding tag, or of its JSON tag if there is no encoding tag, and its Go name when that part is empty; each role is set if and only if the tag lists it (both meaning input and output), whatever the order and number of the entries; an unknown role or a malformed url is refused, and a url is kept exactly as parsed.",
["inputs","configurations"],"all struct tags",
"Tests parse a few tags.",
["api/tag.go"],[("parseTags/tagName","api/tag.go")],["parsed tag"])
p("A04","The published API document matches the operation's declared fields",
"For every registered operation the document's request schema has exactly the input fields as properties and lists as required exactly the required ones, the response schema has exactly the output fields, the token security is present exactly when there is an authentication field and optional exactly when that is not required, and each of its urls is published as a POST path.",
["inputs","configurations"],"all operations",
"Tests compare one or two documents.",
["api/handler.go","api/openapi/path.go"],[("UpdateOpenAPI","api/handler.go:UpdateOpenAPI"),("SetJWT","api/openapi/path.go:SetJWT")],["openapi service"])
# ---------------------------------------------------------------- http
p("H01","Failed requests get the error's status and never leak internals",
"When a request handler fails, the response status is the code of the first HTTP error in the error's chain, or 500 if there is none; the error text is in the body only for codes below 500, and for 500 and above the body contains nothing but the tracking id. An empty success is answered 204 and a non-empty one with the exact bytes, compressed only when the client says it accepts that encoding.",
["inputs","fault_sequences"],"all handlers' outcomes, error chains and request headers",
"Tests cover a few codes with small bodies.",
["http/server.go","http/error.go"],[("handleRequest","http/server.go:handleRequest"),("ErrorCode","http/error.go:ErrorCode")],["response status","response body"])
p("H02","The recorded status is the one that was sent",
"For any sequence of header and body writes, only the first status reaches the client, a body written first counts as 200, and the status recorded for metrics is the one sent; body bytes are passed on unchanged and in order, and taking over the connection is possible exactly when the underlying writer allows it.",
["inputs","histories"],"all call sequences on the response",
"Tests write one header and one body.",
["http/mux.go"],[("response.WriteHeader/Write","http/mux.go")],["underlying response writer"])
p("H03","The client reports success only for success responses",
"A call returns a response without error only if the exchange succeeded and the status is 200 or 204; any other status yields an error carrying exactly that status, transport errors are reported, and the request is sent exactly once. Getting and posting return all bytes of the response, or the error that cut them short.",
["inputs","fault_sequences"],"all server responses and transport failures",
"Tests cover 200 and one error.",
["http/client.go"],[("Client.Do","http/client.go:Do")],["returned response and error"])
# ---------------------------------------------------------------- ws
p("W01","Frames reach exactly the addressed channel and method",
"A frame that opens a channel goes to the object registered under its path and to nothing else, a data frame goes to the named method of the channel it addresses and to nothing else, and an unknown path, channel or method is an error that runs no handler. Handlers of one connection run one at a time, in arrival order, and a closed channel receives nothing more.",
["histories","inputs","schedules"],"all frame sequences and registrations",
"Tests send a few frames to one channel.",
["http/ws/rpc.go","http/ws/channel.go","http/ws/conn.go"],[("onFrame","http/ws/rpc.go:onFrame"),("onData","http/ws/channel.go:onData"),("Loop","http/ws/conn.go:Loop")],["handler calls","returned errors"])
p("W02","No frame a peer sends can crash the process",
"Whatever frame kind or payload a peer sends, reading from the connection returns data, an error or end of stream and never panics; a panic in a channel handler is contained and the connection survives; text and binary payloads are delivered exactly as sent.",
["inputs","fault_sequences"],"all frame kinds and payloads, all handler failures",
"Tests never send control frames or unknown kinds.",
["http/ws/ws.go","http/ws/channel.go"],[("wsImpl.read","http/ws/ws.go:read"),("onData recover","http/ws/channel.go:onData")],["Read result"])
# ---------------------------------------------------------------- shutdown
p("D01","Shutdown starts once, and completes only after every hold is released",
"Starting the shutdown any number of times, also concurrently, closes the started signal exactly once, and the delayed signal never before five seconds later; the completion signal is closed only after every outstanding hold has been released, and each hold adds exactly one unit that its release removes.",
["schedules","histories"],"all interleavings of begin, hold, release and waiting",
"Tests run one fixed order.",
["shutdown/shutdown.go","shutdown/accessors.go"],[("begin/hold/done","shutdown/shutdown.go")],["Started","Started5Sec","Done"])
# ---------------------------------------------------------------- enc
p("E01","A number decodes to its exact value or to an error",
"Decoding a number into an integer or floating target of any width either stores exactly the number's value (fractions into integers are cut toward zero; floating targets get the value rounded to a double and then to the target's width) or returns an error and leaves the target as it was; it never wraps around, truncates high bits or stores another number.",
["inputs"],"all numeric nodes and all integer, unsigned and float target widths",
"Tests decode a few small numbers into int and float64.",
["enc/numeric.go"],[("unmarshalNumericInto","enc/numeric.go"),("Digits.Int64/Uint64","enc/numeric.go")],["target value","error"])
p("E02","Encoding a scalar preserves its exact value",
"Encoding booleans, strings, floats and integers of every width and signedness yields a node that denotes exactly that value, nil values, including nil pointers to types that encode themselves, encode as null, values that know how to encode themselves are asked exactly once and their answer is used, and functions, channels, complex numbers and raw pointers are refused with an error.",
["inputs"],"all scalar values of all widths",
"Tests encode small positive values.",
["enc/handler.go"],[("Handler.Marshal","enc/handler.go:Marshal")],["returned node"])
p("E03","Scalars and tags follow their documented mapping",
"A text or boolean node decodes only into targets of its kind (or an open interface) with exactly its value and otherwise returns an error leaving the target as it was; a struct field's wire name is the name in its JSON tag or its own name, a dash skips it, and only the omit-empty option is accepted.",
["inputs","configurations"],"all scalar nodes, target kinds and struct tags",
"Tests cover the matching kinds and a few tags.",
["enc/scalar.go","enc/util.go","enc/nil.go"],[("unmarshalInto","enc/scalar.go"),("parseTag","enc/util.go:parseTag")],["target value","error"])
p("E04","The ordered document form keeps every member, in order, under its wire name",
"Encoding an ordered document to text writes all members in order, each once, under its wire name; looking up a member returns the first with that wire name or nothing, and turning the document into a map keeps exactly the wire names with the last value given for each.",
["inputs"],"all ordered documents",
"Tests use one or two documents.",
["enc/pairs.go"],[("Pairs","enc/pairs.go")],["encoded bytes","Find","AsMap"])
p("E06","Documents decode member by member, each into its own place",
"Decoding a list into a slice or array decodes each element in order into the slot of its index and requires an array's length to match; decoding a document into a map gives a new map with exactly the document's members; decoding it into a struct fills exactly the exported fields whose wire name is a member, each from that member, and nothing else. The first failing member's error is returned, and a list or map target is then left as it was. Null empties a pointer, a pointer otherwise gets a new value decoded as usual, and a target that decodes itself is asked exactly once with the whole node.",
["inputs","fault_sequences"],"all documents, target shapes and failing members",
"Tests decode a few well-formed documents into a few structs.",
["enc/handler.go","enc/list.go","enc/map.go"],[("Handler.unmarshal","enc/handler.go"),("List.unmarshalInto","enc/list.go"),("Map.unmarshalInto","enc/map.go")],["decoded target","error"])
p("E05","A pipe delivers every message once, in order, and survives misuse",
"A read returns the next message written by the other end, end-of-stream only after the other end was closed and all messages were taken, or the context's error; a write either hands over exactly its message or returns an error, and writing to or closing a closed pipe never panics.",
["schedules","histories"],"all interleavings of reads, writes, closes and cancellations",
"No test closes twice, writes after close or cancels.",
["enc/util.go"],[("Pipe","enc/util.go")],["Read","Write","Close"])
# ---------------------------------------------------------------- utils
p("U01","Reading everything returns all bytes read, or says why not",
"Reading a stream to its end returns exactly the concatenation of all bytes the reader delivered, including bytes delivered together with the end or with an error; a reader error is reported wrapping its cause, cancellation is reported as such, and a given close function is called exactly once in every case.",
["inputs","fault_sequences","schedules"],"all chunkings, errors and cancellation points",
"Tests use readers that never deliver bytes together with the end of stream.",
["utils/io.go"],[("ReadAll","utils/io.go:ReadAll")],["returned bytes","returned error","close calls"])
p("U02","The error gate swallows only its own marker",
"The gated function is called exactly once with the gate's marker; the result is nil exactly when the function returned nil or an error whose chain contains that marker, and any other error is returned unchanged.",
["inputs"],"all functions and error chains",
"Tests do not exercise it with wrapped markers.",
["utils/errors.go"],[("ErrorGate","utils/errors.go:ErrorGate")],["returned error"])
# ---------------------------------------------------------------- test helpers
p("T01","Test assertions pass exactly when their condition holds",
"Equality, nil, emptiness, containment and shift/pop helpers decide success exactly by their documented condition for every value, negated helpers decide the opposite, a failed expectation stops the test and a met one does not, and shift and pop return and remove exactly the first or last element.",
["inputs"],"all values",
"The helpers are mostly tested on passing cases, because a failing one stops the test.",
["test/equals.go","test/nil.go","test/empty.go","test/list.go","test/strings.go","test/util.go","test/assert.go"],[("res.true/false","test/util.go"),("equal/isNil/empty/contains/shift/pop","test/*.go")],["test verdict"])
p("T02","The buffered stream double hands over all bytes in order",
"Whatever the sizes of appended chunks and read buffers, reads return exactly the appended bytes in order without loss or duplication, end-of-stream comes only after closing and draining, writes are recorded in full and in order, and using a closed stream reports a closed pipe; all state is touched only under its lock and closing wakes blocked readers.",
["histories","schedules","inputs"],"all chunkings and interleavings",
"Tests use one chunking on one goroutine.",
["test/io.go"],[("BufferedRWC","test/io.go")],["Read","Write","Close"])
