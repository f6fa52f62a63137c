prop H03
pkg http
note net/http: (*Client).Do sends the request and returns a response whenever it returns no error


func (Client).Do(this, r)
  requires r != nil && imp(ret("net/http:(*Client).Do", 0, 1) == nil, ret("net/http:(*Client).Do", 0, 0) != nil)
  opaque net/http:(*Client).Do
  opaque utils:Stack
  let res = ret("net/http:(*Client).Do", 0, 0)
  let err = ret("net/http:(*Client).Do", 0, 1)
  ensures @once calls("net/http:(*Client).Do") == 1 && arg("net/http:(*Client).Do", 0, 1) == r
  ensures @success (result1 == nil) == (err == nil && (res.StatusCode == 200 || res.StatusCode == 204))
  ensures @the-response imp(result1 == nil, result0 == res)
  ensures @its-status imp(err == nil && result1 != nil, typeis(result1, Error) && unbox(result1, Error).Code == res.StatusCode)
  ensures @reported imp(err != nil, errwraps(result1) == err || typeis(result1, ctx.Error) && errwraps(unbox(result1, ctx.Error).Err) == err)

func (Client).Get(this, c, url)
  requires c != nil && imp(ret("net/http:(*Client).Do", 0, 1) == nil, ret("net/http:(*Client).Do", 0, 0) != nil) && imp(ret("net/http:NewRequestWithContext", 0, 1) == nil, ret("net/http:NewRequestWithContext", 0, 0) != nil)
  opaque net/http:(*Client).Do
  opaque net/http:NewRequestWithContext
  opaque net/http:(Header).Set
  opaque bytes:NewBuffer
  opaque io:ReadAll
  opaque utils:Stack
  let res = ret("net/http:(*Client).Do", 0, 0)
  let err = ret("net/http:(*Client).Do", 0, 1)
  let made = ret("net/http:NewRequestWithContext", 0, 1) == nil
  let good = made && err == nil && (res.StatusCode == 200 || res.StatusCode == 204)
  ensures @once calls("net/http:(*Client).Do") == ite(made, 1, 0) && imp(made, arg("net/http:(*Client).Do", 0, 1) == ret("net/http:NewRequestWithContext", 0, 0))
  ensures @asked arg("net/http:NewRequestWithContext", 0, 1) == "GET" && arg("net/http:NewRequestWithContext", 0, 2) == url
  ensures @success imp(result1 == nil, good)
  ensures @the-bytes imp(result1 == nil && res.Body != nil, calls("io:ReadAll") == 1 && arg("io:ReadAll", 0, 0) == res.Body && result0 == ret("io:ReadAll", 0, 0) && ret("io:ReadAll", 0, 1) == nil)
  ensures @whole imp(good && res.Body != nil, calls("io:ReadAll") == 1 && result1 == ret("io:ReadAll", 0, 1))
  ensures @no-bytes imp(good && res.Body == nil, result1 == nil && len(result0) == 0)
  ensures @its-status imp(made && err == nil && !good, typeis(result1, Error) && unbox(result1, Error).Code == res.StatusCode)

func (Client).Post(this, c, url, body)
  requires c != nil && imp(ret("net/http:(*Client).Do", 0, 1) == nil, ret("net/http:(*Client).Do", 0, 0) != nil) && imp(ret("net/http:NewRequestWithContext", 0, 1) == nil, ret("net/http:NewRequestWithContext", 0, 0) != nil)
  opaque net/http:(*Client).Do
  opaque net/http:NewRequestWithContext
  opaque net/http:(Header).Set
  opaque bytes:NewBuffer
  opaque io:ReadAll
  opaque utils:Stack
  let res = ret("net/http:(*Client).Do", 0, 0)
  let err = ret("net/http:(*Client).Do", 0, 1)
  let made = ret("net/http:NewRequestWithContext", 0, 1) == nil
  let good = made && err == nil && (res.StatusCode == 200 || res.StatusCode == 204)
  ensures @once calls("net/http:(*Client).Do") == ite(made, 1, 0) && imp(made, arg("net/http:(*Client).Do", 0, 1) == ret("net/http:NewRequestWithContext", 0, 0))
  ensures @asked arg("net/http:NewRequestWithContext", 0, 1) == "POST" && arg("net/http:NewRequestWithContext", 0, 2) == url
  ensures @success imp(result1 == nil, good)
  ensures @the-bytes imp(result1 == nil && res.Body != nil, calls("io:ReadAll") == 1 && arg("io:ReadAll", 0, 0) == res.Body && result0 == ret("io:ReadAll", 0, 0) && ret("io:ReadAll", 0, 1) == nil)
  ensures @whole imp(good && res.Body != nil, calls("io:ReadAll") == 1 && result1 == ret("io:ReadAll", 0, 1))
  ensures @no-bytes imp(good && res.Body == nil, result1 == nil && len(result0) == 0)
  ensures @its-status imp(made && err == nil && !good, typeis(result1, Error) && unbox(result1, Error).Code == res.StatusCode)
  ensures @sent imp(made, arg("bytes:NewBuffer", 0, 0) == body && arg("net/http:NewRequestWithContext", 0, 3) == box(ret("bytes:NewBuffer", 0, 0)))
