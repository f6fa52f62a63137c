prop X06
pkg ctx/log
note what a Loggable says about itself is what LogAs returns; its effects on the tags are its own
note json.Marshal and fmt.Sprintf keep to their documentation (library contracts): they are taken by what they are given

def loggable(x) = typeis(x, Loggable)
# what stands for the argument in the message: what it logged itself as, when asked with the tags of this message
def shown(x, y, tags) = imp(loggable(x), exists(j, 0, calls(unbox(x, Loggable).LogAs), arg(unbox(x, Loggable).LogAs, j, 0) == tags && ret(unbox(x, Loggable).LogAs, j, 0) == y)) && imp(!loggable(x), y == x)
def iserror(x) = !loggable(x) && typeis(x, error)
# an entry of the error tag that describes the error
def describes(m, x) = m != nil && has(m, "error") && m["error"] == box(errmsg(x)) && imp(erras(x, ctx.Error), has(m, "stack") && m["stack"] == box(errasval(x, ctx.Error).Stack)) && imp(erras(x, ctx.Error) && errasval(x, ctx.Error).C != nil, has(m, "tags"))

func (RedactedString).LogAs(this, tags)
  ensures @redacted result == box("***")
  ensures @frame onlymodifies(nothing)

func FormatMsg(c, tags, f, args)
  requires tags != nil && *tags != nil
  opaque fmt:Sprintf
  opaque encoding/json:Marshal
  opaque github.com/Aize-Public/forego/ctx/log:ExtractTags
  let out = arg("fmt:Sprintf", 0, 1)
  ensures @formatted calls("fmt:Sprintf") == 1 && arg("fmt:Sprintf", 0, 0) == f && result == ret("fmt:Sprintf", 0, 0) && len(out) == len(args)
  ensures @rewritten forall(i, 0, len(args), shown(old(args[i]), out[i], tags))
  ensures @callers-own onlymodifies(entries(*tags))
  inv [a: fixed []any] forall(i, 0, $n, imp(loggable(old(args[i])), exists(j, 0, calls(unbox(old(args[i]), Loggable).LogAs), arg(unbox(old(args[i]), Loggable).LogAs, j, 0) == tags && ret(unbox(old(args[i]), Loggable).LogAs, j, 0) == a[i])))
  inv [a: fixed []any] forall(i, 0, $n, imp(!loggable(old(args[i])), a[i] == old(args[i])))
  inv [a: fixed []any] forall(i, $n, len(a), a[i] == old(args[i]))
  let es = unbox(arg("encoding/json:Marshal", 0, 0), []map[string]any)
  ensures @errors forall(i, 0, len(args), imp(iserror(old(args[i])), calls("encoding/json:Marshal") == 1 && exists(k, 0, len(es), describes(es[k], old(args[i])))))
  ensures @only-errors imp(calls("encoding/json:Marshal") == 0, onlymodifies(nothing)) && calls("encoding/json:Marshal") <= 1
  ensures @error-tag imp(calls("encoding/json:Marshal") == 1 && ret("encoding/json:Marshal", 0, 1) == nil, has(*tags, "error") && (*tags)["error"] == ret("encoding/json:Marshal", 0, 0))
  inv [e: []map[string]any] forall(k, 0, len(e), e[k] != nil && fresh(e[k]) && made(e[k]))
  inv [e: []map[string]any] forall(i, 0, $n, imp(iserror(old(args[i])), exists(k, 0, len(e), describes(e[k], old(args[i])))))
  inv calls("encoding/json:Marshal") == 0
