H='package water\n\nimport (\n'
def T(imports,body,pkg='water'):
    return 'package %s\n\nimport (\n%s)\n\n%s\n'%(pkg,''.join('\t"%s"\n'%i for i in imports),body)
REQ='''
func demoReq(e http.Handler, method, target string) *httptest.ResponseRecorder {
	w := httptest.NewRecorder()
	e.ServeHTTP(w, httptest.NewRequest(method, target, nil))
	return w
}
'''
SEEDS=[
dict(id='c01-environ-notfound',property='C01',edits=[('engine.go','''		ctx.handlers = ctx.endNode.handlers
	}

	ctx.Environ = make(Environ)
''','''		ctx.handlers = ctx.endNode.handlers
		ctx.Environ = make(Environ)
	}
''')],needs='a request that stores an environment value, followed on the same recycled context by a request that matches no route while not-found handlers are configured',
breaks='the environment map is renewed only for matched requests, so not-found handlers see (and write to) the environment of an earlier request',
test=T(['net/http','net/http/httptest','testing'],REQ+'''
func TestDemo(t *testing.T) {
	r := NewRouter()
	r.GET("/a", func(c *Context) { c.Set("user", "alice"); c.String(200, "ok") })
	leak := false
	e := r.Handler(WithNoFoundHandlers(func(c *Context) {
		if _, ok := c.GetMaybe("user"); ok {
			leak = true
		}
		c.NotFound()
	}))
	for i := 0; i < 50; i++ {
		demoReq(e, "GET", "/a")
		demoReq(e, "GET", "/nope")
	}
	if leak {
		t.Fatal("a not-found handler saw the environment of another request")
	}
}''')),
dict(id='c03-empty-write',property='C03',edits=[('context.go','	if !ctx.written {\n		header','	if !ctx.written && len(data) > 0 {\n		header')],
needs='a handler that writes an empty body without setting a status',breaks='an empty Write sends the implicit 200 head behind the context: the response is not marked as written and has no status',
test=T(['net/http','net/http/httptest','testing'],REQ+'''
func TestDemo(t *testing.T) {
	r := NewRouter()
	status, written := 0, false
	r.Use(func(c *Context) { c.Next(); status, written = c.Status(), c.Written() })
	r.GET("/a", func(c *Context) { c.Write(nil) })
	demoReq(r.Handler(), "GET", "/a")
	if status != 200 || !written {
		t.Fatal("head not recorded", status, written)
	}
}''')),
dict(id='c06-run-range',property='C06',edits=[('context.go','''	for ctx.index < ctx.handlersLength {
		ctx.handlers[ctx.index].ServeHTTP(ctx)
		ctx.index += 1
''','''	for i := ctx.index; i < ctx.handlersLength; i++ {
		ctx.index = i
		ctx.handlers[i].ServeHTTP(ctx)
''')],needs='a middleware that calls Next while none of the later handlers writes a response',breaks='handlers already run through Next are run a second time by the outer loop',
test=T(['net/http','net/http/httptest','testing'],REQ+'''
func TestDemo(t *testing.T) {
	r := NewRouter()
	n := 0
	r.Use(func(c *Context) { c.Next() })
	r.GET("/a", func(c *Context) { n++ })
	demoReq(r.Handler(), "GET", "/a")
	if n != 1 {
		t.Fatal("handler ran", n, "times")
	}
}''')),
dict(id='c10-insert-order',property='C10',edits=[('tree.go','		if sub.typ < n.subNodes[i].typ {','		if sub.typ <= n.subNodes[i].typ {')],
needs='two inner segments of the same kind at one level that both match',breaks='later registered segments of the same kind are tried first',
test=T(['net/http','net/http/httptest','testing'],REQ+'''
func TestDemo(t *testing.T) {
	r := NewRouter()
	got := ""
	r.GET("/u/<id ~ [0-9]+>/x", func(c *Context) { got = "first" })
	r.GET("/u/<n ~ [0-9a-f]+>/x", func(c *Context) { got = "second" })
	demoReq(r.Handler(), "GET", "/u/12/x")
	if got != "first" {
		t.Fatal("served by", got)
	}
}''')),
dict(id='c13-static-two-levels',property='C13',edits=[('engine.go','	return isStaticRoute(node.parent)\n','	return node.parent == nil || node.parent.typ == _PATTERN_STATIC\n')],
needs='static routing enabled and a route with a placeholder at least two segments above its end, requested with its own pattern as the path',
breaks='a route with a placeholder enters the static table, so it is served without its parameters',
test=T(['net/http','net/http/httptest','testing'],REQ+'''
func TestDemo(t *testing.T) {
	r := NewRouter()
	ok := false
	r.GET("/<id>/a/b", func(c *Context) { _, ok = c.Params["id"] })
	e := r.Handler(WithStaticRouter(true))
	demoReq(e, "GET", "/%3Cid%3E/a/b")
	if !ok {
		t.Fatal("parameter missing")
	}
}''')),
dict(id='c07-http09',property='C07',edits=[('engine.go','!req.ProtoAtLeast(1, 1) ||','req.ProtoMajor == 1 && req.ProtoMinor == 0 ||')],
needs='a request whose protocol is below HTTP/1.0',breaks='a request below HTTP/1.1 other than 1.0 is dispatched instead of answered 406',
test=T(['net/http','net/http/httptest','testing'],'''
func TestDemo(t *testing.T) {
	r := NewRouter()
	ran := false
	r.GET("/a", func(c *Context) { ran = true })
	req := httptest.NewRequest("GET", "/a", nil)
	req.Proto, req.ProtoMajor, req.ProtoMinor = "HTTP/0.9", 0, 9
	w := httptest.NewRecorder()
	r.Handler().ServeHTTP(w, req)
	if ran || w.Code != http.StatusNotAcceptable {
		t.Fatal("accepted", ran, w.Code)
	}
}''')),
dict(id='c08-any-exclude',property='C08',edits=[('router.go','''				continue Skip
''','''				break Skip
''')],needs='an exclusion list for ANY whose methods are not the last ones of the method table',breaks='ANY stops registering at the first excluded method',
test=T(['net/http','net/http/httptest','testing'],REQ+'''
func TestDemo(t *testing.T) {
	old := MethodAnyExclude
	MethodAnyExclude = []string{http.MethodPost}
	defer func() { MethodAnyExclude = old }()
	r := NewRouter()
	r.ANY("/a", func(c *Context) { c.String(200, "ok") })
	e := r.Handler()
	for m, want := range map[string]int{"GET": 200, "PUT": 200, "HEAD": 200, "POST": 404} {
		if w := demoReq(e, m, "/a"); w.Code != want {
			t.Fatal(m, w.Code)
		}
	}
}''')),
dict(id='c27-int64-base',property='C27',edits=[('params.go','	return strconv.ParseInt(p.String(name), 10, 64)','	return strconv.ParseInt(p.String(name), 0, 64)')],
needs='a parameter with a leading zero',breaks='Int64 of a route parameter is not the decimal conversion',
test=T(['testing'],'''
func TestDemo(t *testing.T) {
	if v, err := (Params{"id": "010"}).Int64("id"); v != 10 || err != nil {
		t.Fatal(v, err)
	}
}''')),
dict(id='c32-ipv6',property='C32',edits=[('util.go','if i := strings.LastIndex(ip, ":"); i > -1','if i := strings.Index(ip, ":"); i > -1')],
needs='a client connected over IPv6',breaks='the reported address is cut at the first colon',
test=T(['net/http','testing'],'''
func TestDemo(t *testing.T) {
	req := &http.Request{Header: http.Header{}, RemoteAddr: "[2001:db8::1]:4711"}
	if ip := requestRealIp(req); ip != "[2001:db8::1]" {
		t.Fatal(ip)
	}
}''')),
dict(id='c33-nil-value',property='C33',edits=[('environ.go','	if c.Environ.Has(name) {','	if c.Environ[name] != nil {')],
needs='a name that was set to nil before',breaks='a name already set (to nil) can be set again',
test=T(['testing'],'''
func TestDemo(t *testing.T) {
	c := &Context{Environ: Environ{}}
	c.Set("a", nil)
	defer func() {
		if recover() == nil {
			t.Fatal("second Set did not panic")
		}
	}()
	c.Set("a", 1)
}''')),
dict(id='c29-moved-308',property='C29',edits=[('content.go','	http.Redirect(ctx, ctx.Request, uri, http.StatusMovedPermanently)','''	code := http.StatusMovedPermanently
	if ctx.Request.Method != http.MethodGet && ctx.Request.Method != http.MethodHead {
		code = http.StatusPermanentRedirect
	}
	http.Redirect(ctx, ctx.Request, uri, code)''')],needs='a permanent redirect answering a request that is neither GET nor HEAD',breaks='MovedPermanently sends 308',
test=T(['net/http','net/http/httptest','testing'],REQ+'''
func TestDemo(t *testing.T) {
	r := NewRouter()
	r.POST("/a", func(c *Context) { c.MovedPermanently("/b") })
	if w := demoReq(r.Handler(), "POST", "/a"); w.Code != 301 {
		t.Fatal(w.Code)
	}
}''')),
dict(id='c28-patch',property='C28',edits=[('content.go',' || ctx.Request.Method == http.MethodPut || ctx.Request.Method == http.MethodPatch) &&',' || ctx.Request.Method == http.MethodPut) &&')],
needs='a PATCH request with a multipart form',breaks='the multipart form of a PATCH request is not parsed',
test=T(['bytes','mime/multipart','net/http/httptest','testing'],'''
func TestDemo(t *testing.T) {
	var b bytes.Buffer
	mw := multipart.NewWriter(&b)
	mw.WriteField("a", "1")
	mw.Close()
	req := httptest.NewRequest("PATCH", "/a", &b)
	req.Header.Set("Content-Type", mw.FormDataContentType())
	c := &Context{Request: req}
	c.ParseFormOrMultipartForm()
	if req.MultipartForm == nil || req.PostFormValue("a") != "1" {
		t.Fatal("multipart form not parsed")
	}
}''')),
dict(id='c04-adapter-raw',property='C04',edits=[('engine.go','''	case func(http.ResponseWriter, *http.Request):
		return HandlerFunc(func(ctx *Context) {
			h(ctx, ctx.Request)''','''	case func(http.ResponseWriter, *http.Request):
		return HandlerFunc(func(ctx *Context) {
			h(ctx.ResponseWriter, ctx.Request)''')],needs='a plain http handler function followed by another handler',breaks='a standard handler writes behind the context: the response is not marked as written',
test=T(['net/http','net/http/httptest','testing'],REQ+'''
func TestDemo(t *testing.T) {
	r := NewRouter()
	ran := false
	r.GET("/a", func(w http.ResponseWriter, req *http.Request) { w.WriteHeader(202) }, func(c *Context) { ran = true })
	w := demoReq(r.Handler(), "GET", "/a")
	if ran || w.Code != 202 {
		t.Fatal("next handler ran", ran, w.Code)
	}
}''')),
dict(id='c02-move-to-front',property='C02',edits=[('tree.go','''			if n.endNodes[i].pattern == uri {
				return n.endNodes[i]
			}''','''			if n.endNodes[i].pattern == uri {
				// keep hot routes in front
				n.endNodes[0], n.endNodes[i] = n.endNodes[i], n.endNodes[0]
				return n.endNodes[0]
			}''')],needs='a request for a static route that is not the first of its level; concurrent requests race',breaks='serving a request reorders the shared route tree',
test=T(['net/http','net/http/httptest','testing'],REQ+'''
func TestDemo(t *testing.T) {
	r := NewRouter()
	h := func(c *Context) { c.String(200, "ok") }
	r.GET("/a", h)
	r.GET("/b", h)
	r.GET("/c", h)
	e := r.Handler()
	before := append([]*node{}, e.routers[0].endNodes...)
	demoReq(e, "GET", "/c")
	for i, n := range e.routers[0].endNodes {
		if n != before[i] {
			t.Fatal("serving a request changed the route tree")
		}
	}
}''')),
dict(id='c30-shared-options',property='C30',edits=[('router.go','	o := &options{MaxMultipartMemory: 32 << 20} // 32MB\n','	o := defaultOptions\n'),('router.go','func (r *Router) IsParent() bool {','var defaultOptions = &options{MaxMultipartMemory: 32 << 20} // 32MB\n\nfunc (r *Router) IsParent() bool {')],
needs='two engines with different options in one process',breaks='all engines share one options value',
test=T(['net/http','net/http/httptest','testing'],REQ+'''
func TestDemo(t *testing.T) {
	mk := func(o ...Option) *Engine {
		r := NewRouter()
		r.GET("/a", func(c *Context) { c.String(200, "ok") })
		return r.Handler(o...)
	}
	a := mk()
	mk(WithNoFoundHandlers(func(c *Context) { c.String(418, "b") }))
	if w := demoReq(a, "GET", "/x"); w.Code != 404 {
		t.Fatal(w.Code)
	}
}''')),
dict(id='c09-glob-level',property='C09',edits=[('tree.go','matchNextSegment(globLevel+1, uri, params)','matchNextSegment(globLevel, uri, params)')],
needs='a route with two unnamed wildcards',breaks='nested unnamed wildcards are recorded under the same number',
test=T(['testing'],'''
func TestDemo(t *testing.T) {
	n := newTree()
	n.add("/a/*/b/*", nil)
	m, ps := n.Match("/a/x/b/y/z")
	if m == nil || ps["*0"] != "x" || ps["*1"] != "y/z" {
		t.Fatal(m, ps)
	}
}''')),
]
