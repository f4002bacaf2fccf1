def T(imports,body,pkg='water'):
    return 'package %s\n\nimport (\n%s)\n\n%s\n'%(pkg,''.join('\t"%s"\n'%i for i in imports),body)
REQ='''
func demoReq(e http.Handler, method, target string, hdr ...string) *httptest.ResponseRecorder {
	w := httptest.NewRecorder()
	req := httptest.NewRequest(method, target, nil)
	for i := 0; i+1 < len(hdr); i += 2 {
		req.Header.Set(hdr[i], hdr[i+1])
	}
	e.ServeHTTP(w, req)
	return w
}
'''
HT=['net/http','net/http/httptest','testing']
SEEDS=[
dict(id='c05-json-keeps-type',property='C05',edits=[('content.go','''	ctx.Header().Set(HeaderContentType, MIMEApplicationJSONCharsetUTF8)
''','''	if ctx.Header().Get(HeaderContentType) == "" {
		ctx.Header().Set(HeaderContentType, MIMEApplicationJSONCharsetUTF8)
	}
''')],needs='a JSON response after an earlier handler or middleware set a content type',breaks='JSON is sent with the content type left over from another handler',
test=T(HT,REQ+'''
func TestDemo(t *testing.T) {
	r := NewRouter()
	r.Use(func(c *Context) { c.SetHeader("Content-Type", "text/html") })
	r.GET("/a", func(c *Context) { c.JSON(200, struct{ A int }{1}) })
	if ct := demoReq(r.Handler(), "GET", "/a").Header().Get("Content-Type"); ct != MIMEApplicationJSONCharsetUTF8 {
		t.Fatal(ct)
	}
}''')),
dict(id='c09-holder-before-descent',property='C09',edits=[('tree.go','''			if end := n.subNodes[i].matchNextSegment(globLevel, uri, params); end != nil {
				if n.subNodes[i].parsedPattern != "_" {
					params[n.subNodes[i].parsedPattern] = segment
				}
				return end
			}
''','''			if n.subNodes[i].parsedPattern != "_" {
				params[n.subNodes[i].parsedPattern] = segment
			}
			if end := n.subNodes[i].matchNextSegment(globLevel, uri, params); end != nil {
				return end
			}
''')],needs='a placeholder branch that fails below and a wildcard that then matches',breaks='captures of the abandoned branch stay in the parameters of the route that matched',
test=T(HT,REQ+'''
func TestDemo(t *testing.T) {
	r := NewRouter()
	n := -1
	r.GET("/u/<id>/x", func(c *Context) {})
	r.GET("/u/*", func(c *Context) { n = len(c.Params) })
	demoReq(r.Handler(), "GET", "/u/12/y")
	if n != 1 {
		t.Fatal("parameters:", n)
	}
}''')),
dict(id='c11-dup-kept-first',property='C11',edits=[('router.go','''	if rs.routeMap[r.method][r.uri] != nil {
		panic(fmt.Sprintf("double uri : %s[%s]", r.method, r.uri))
	}
''','''	if old := rs.routeMap[r.method][r.uri]; old != nil {
		if len(old.handlers) == len(r.handlers) {
			return // registered before
		}
		panic(fmt.Sprintf("double uri : %s[%s]", r.method, r.uri))
	}
''')],needs='one path registered twice for a method with handler chains of the same length',breaks='the second registration is dropped silently instead of being rejected',
test=T(HT,REQ+'''
func TestDemo(t *testing.T) {
	defer func() {
		if recover() == nil {
			t.Fatal("the second route was dropped silently")
		}
	}()
	r := NewRouter()
	r.GET("/a/b", func(c *Context) { c.String(200, "1") })
	r.GET("/a/b", func(c *Context) { c.String(200, "2") })
	r.Handler()
}''')),
dict(id='c12-append-in-place',property='C12',edits=[('router.go','''		if len(tmp.befores) > 0 {
			hstmp := make([]interface{}, len(tmp.befores))
			copy(hstmp, tmp.befores)

			hstmp = append(hstmp, hs...)
			hs = hstmp
		}
''','''		if len(tmp.befores) > 0 {
			hs = append(tmp.befores, hs...)
		}
''')],needs='a group whose list of middleware has spare capacity and two routes below it',breaks='chains are built in the spare room of the group\'s own list, so a later route overwrites the handlers of an earlier one',
test=T(HT,REQ+'''
func TestDemo(t *testing.T) {
	r := NewRouter()
	got := ""
	add := func(s string) func(*Context) { return func(c *Context) { got += s } }
	g := r.Group("/g")
	g.Use(add("1"))
	g.Use(add("2"))
	g.Use(add("3"))
	g.GET("/a", add("a"))
	r.Handler()
	l := g.befores[:cap(g.befores)]
	for _, h := range l[len(g.befores):] {
		if h != nil {
			t.Fatal("building an engine wrote to the router")
		}
	}
}''')),
dict(id='c14-rethrow-abort',property='C14',edits=[('m_recovery.go','''				content := fmt.Sprintf("HandlerFunc crashed with error: %v", err)
''','''				if err == http.ErrAbortHandler {
					panic(err) // aborted on purpose
				}
				content := fmt.Sprintf("HandlerFunc of %s crashed with error: %v", ctx.Request.URL.Path, err)
''')],needs='a handler that panics with http.ErrAbortHandler',breaks='the panic leaves the recovery middleware',
test=T(HT,REQ+'''
func TestDemo(t *testing.T) {
	r := NewRouter()
	r.Use(Recovery())
	r.GET("/a", func(c *Context) { panic(http.ErrAbortHandler) })
	defer func() {
		if err := recover(); err != nil {
			t.Fatal("panic escaped:", err)
		}
	}()
	demoReq(r.Handler(), "GET", "/a")
}''')),
dict(id='c15-log-before',property='C15',edits=[('m_logger.go','''		start := time.Now()
''','''		start := time.Now()
		uri := ctx.Request.URL.String()
		if ctx.IsWebsocket() {
			// hijacked: nothing to report
			ctx.Next()
			return
		}
'''),('m_logger.go','''			ctx.Request.URL.String(),
			body,''','''			uri,
			body,''')],needs='a websocket upgrade request',breaks='such requests are not logged',
test=T(['net/http','net/http/httptest','testing','os','os/exec','strings'],REQ+'''
func TestDemo(t *testing.T) {
	if os.Getenv("DEMO_CHILD") != "" {
		r := NewRouter()
		r.Use(Logger())
		r.GET("/socket", func(c *Context) { c.String(200, "x") })
		demoReq(r.Handler(), "GET", "/socket", "Connection", "Upgrade", "Upgrade", "websocket")
		return
	}
	cmd := exec.Command(os.Args[0], "-test.run", "^TestDemo$")
	cmd.Env = append(os.Environ(), "DEMO_CHILD=1")
	out, err := cmd.CombinedOutput()
	if err != nil {
		t.Fatal(err)
	}
	if strings.Count(string(out), "/socket") != 1 {
		t.Fatalf("logged: %q", out)
	}
}''')),
dict(id='c16-reflect-credentials',property='C16',edits=[('m_cors.go','''				allowOrigin = o
				break
''','''				allowOrigin = o
				if o == "*" && config.AllowCredentials && origin != "" {
					// browsers refuse "*" together with credentials
					allowOrigin = origin
				}
				break
''')],needs='a configuration that allows any origin and credentials',breaks='any origin is reflected and allowed with credentials',
test=T(HT,REQ+'''
func TestDemo(t *testing.T) {
	r := NewRouter()
	r.Use(CORS(CORSConfig{AllowOrigins: []string{"*"}, AllowCredentials: true}))
	r.GET("/a", func(c *Context) { c.String(200, "x") })
	if o := demoReq(r.Handler(), "GET", "/a", "Origin", "http://evil").Header().Get("Access-Control-Allow-Origin"); o != "*" {
		t.Fatal(o)
	}
}''')),
dict(id='c17-permission',property='C17',edits=[('m_static.go','''		fi, err := f.Stat()
		if err != nil {
			ctx.WriteHeader(http.StatusNotFound) // File exists but fail to open.
''','''		fi, err := f.Stat()
		if err != nil {
			code := http.StatusNotFound
			if os.IsPermission(err) {
				code = http.StatusForbidden
			}
			ctx.WriteHeader(code) // File exists but fail to open.
'''),('m_static.go','''	"net/http"
''','''	"net/http"
	"os"
''')],needs='a file system whose files refuse Stat for lack of permission',breaks='an unreadable file is answered 403 instead of 404',
test=T(['net/http','net/http/httptest','testing','os'],REQ+'''
type demoFS struct{}
type demoFile struct{ http.File }

func (demoFS) Open(string) (http.File, error)        { return demoFile{}, nil }
func (demoFile) Stat() (os.FileInfo, error)          { return nil, os.ErrPermission }
func (demoFile) Close() error                        { return nil }

func TestDemo(t *testing.T) {
	r := NewRouter()
	r.StaticAdvance(&StaticOptions{Prefix: "/s", FileSystem: demoFS{}})
	if w := demoReq(r.Handler(), "GET", "/s/x"); w.Code != 404 {
		t.Fatal(w.Code)
	}
}''')),
dict(id='c18-download-dir',property='C18',edits=[('content.go','''	f, err := os.Open(fpath)
	if err != nil {
		return err
	}
	defer f.Close()

	fi, err := f.Stat()
	if err != nil {
		return err
	}

	if fi.IsDir() {
		return errors.New("This is Dir.")
	}
''','''	f, err := os.Open(fpath)
	if err != nil {
		return err
	}

	fi, err := f.Stat()
	if err != nil {
		f.Close()
		return err
	}

	if fi.IsDir() {
		return errors.New("This is Dir.")
	}
	defer f.Close()
''')],needs='a download of a directory',breaks='the opened directory is never closed',
test=T(['net/http/httptest','testing','io/ioutil','os','runtime/debug'],'''
func TestDemo(t *testing.T) {
	debug.SetGCPercent(-1)
	count := func() int {
		l, err := ioutil.ReadDir("/proc/self/fd")
		if err != nil {
			t.Skip(err)
		}
		return len(l)
	}
	dir, err := ioutil.TempDir(os.Getenv("TMPDIR"), "demo")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	c := newContext()
	c.Request = httptest.NewRequest("GET", "/", nil)
	c.ResponseWriter = httptest.NewRecorder()
	n := count()
	for i := 0; i < 20; i++ {
		if c.Download(dir) == nil {
			t.Fatal("directory downloaded")
		}
	}
	if m := count(); m > n+5 {
		t.Fatal("open files:", n, "->", m)
	}
}''')),
dict(id='c19-partial-form',property='C19',pkg='binding',edits=[('binding/form.go','''func (formBinding) Bind(req *http.Request, obj interface{}) error {
	if req.Form == nil {
		if err := req.ParseForm(); err != nil {
''','''func (formBinding) Bind(req *http.Request, obj interface{}) error {
	if req.Form == nil {
		if err := req.ParseForm(); err != nil && len(req.Form) == 0 {
''')],needs='a query of which one pair is well formed and another is not',breaks='the parse error is dropped as soon as some pair could be parsed',
test=T(['net/http','testing'],'''
func TestDemo(t *testing.T) {
	req, _ := http.NewRequest("GET", "/?a=1&b=%zz", nil)
	var obj struct {
		A int `+"`form:\\"a\\"`"+`
	}
	if err := Form.Bind(req, &obj); err == nil {
		t.Fatal("no error")
	}
}'''.replace('`+"`','`').replace('`"+`','`').replace('\\"','"'),'binding')),
dict(id='c20-interface-elements',property='C20',pkg='binding',edits=[('binding/validator.go','''		for i := 0; i < count; i++ {
''','''		for i := 0; i < count; i++ {
			if value.Index(i).Kind() == reflect.Interface {
				continue // not a struct
			}
''')],needs='a list of interface values holding structs',breaks='structs behind interface elements are not validated',
test=T(['testing'],'''
type demoItem struct {
	N string `binding:"required"`
}

func TestDemo(t *testing.T) {
	if err := Validator.ValidateStruct([]interface{}{&demoItem{N: "x"}, &demoItem{}}); err == nil {
		t.Fatal("accepted")
	}
}''','binding')),
dict(id='c21-media-type-space',property='C21',edits=[('util.go',"		if char == ' ' || char == ';' {","		if char == ';' {")],
needs='a content type with a space before its parameters',breaks='"application/json ; charset=utf-8" is not recognised as JSON',
test=T(['net/http/httptest','strings','testing'],'''
func TestDemo(t *testing.T) {
	c := newContext()
	c.Request = httptest.NewRequest("POST", "/", strings.NewReader("{\\"A\\":7}"))
	c.Request.Header.Set("Content-Type", "application/json ; charset=utf-8")
	var obj struct{ A int }
	if err := c.Bind(&obj); err != nil || obj.A != 7 {
		t.Fatal(err, obj)
	}
}''')),
dict(id='c22-float32-width',property='C22',pkg='binding',edits=[('binding/mapping.go','setFloatField(val, 32, value)','setFloatField(val, 64, value)')],
needs='a number too large for float32',breaks='it is stored as infinity instead of being rejected',
test=T(['testing'],'''
func TestDemo(t *testing.T) {
	var obj struct {
		F float32 `uri:"f"`
	}
	if err := Uri.Bind2(map[string][]string{"f": {"1e300"}}, &obj); err == nil {
		t.Fatal("accepted", obj.F)
	}
}''','binding')),
dict(id='c23-excluded-container',property='C23',pkg='binding',edits=[('binding/mapping.go','''	if field.Tag.Get(tag) == "-" { // just ignoring this field
		return false, nil
	}

	var vKind = value.Kind()
''','''	var vKind = value.Kind()

	if field.Tag.Get(tag) == "-" && vKind != reflect.Struct { // just ignoring this field
		return false, nil
	}
''')],needs='a struct field excluded with "-" whose own fields have names found in the request',breaks='the fields inside the excluded struct are filled',
test=T(['testing'],'''
func TestDemo(t *testing.T) {
	var obj struct {
		Meta struct {
			Admin bool
		} `uri:"-"`
	}
	Uri.Bind2(map[string][]string{"Admin": {"true"}}, &obj)
	if obj.Meta.Admin {
		t.Fatal("filled")
	}
}''','binding')),
dict(id='c24-bool-anyway',property='C24',pkg='binding',edits=[('binding/mapping.go','''	boolVal, err := strconv.ParseBool(val)
	if err == nil {
		field.SetBool(boolVal)
	}
	return err
''','''	boolVal, err := strconv.ParseBool(val)
	field.SetBool(boolVal)
	return err
''')],needs='an unparsable value for a bool that is already true',breaks='the failed parse resets the field',
test=T(['testing'],'''
func TestDemo(t *testing.T) {
	obj := struct {
		B bool `uri:"b"`
	}{true}
	if err := Uri.Bind2(map[string][]string{"b": {"maybe"}}, &obj); err == nil || !obj.B {
		t.Fatal(err, obj)
	}
}''','binding')),
dict(id='c25-httponly-five',property='C25',edits=[('cookie.go','''	if len(others) > 4 {
''','''	if len(others) == 5 {
''')],needs='a cookie set with both http-only and same-site',breaks='http-only is dropped as soon as same-site is given too',
test=T(['net/http','net/http/httptest','strings','testing'],'''
func TestDemo(t *testing.T) {
	c := newContext()
	c.Request = httptest.NewRequest("GET", "/", nil)
	w := httptest.NewRecorder()
	c.ResponseWriter = w
	c.SetCookie("a", "b", 0, "/", "", false, true, http.SameSiteLaxMode)
	if s := w.Header().Get("Set-Cookie"); !strings.Contains(s, "HttpOnly") {
		t.Fatal(s)
	}
}''')),
dict(id='c30-static-table',property='C30',edits=[('engine.go','''				e.routersStatic[MethodIndex(v.method)] = map[string]*node{}
''','''				e.routersStatic[MethodIndex(v.method)] = staticTable(MethodIndex(v.method))
'''),('engine.go','''func (e *Engine) buildTree() {
''','''// staticTables keeps the tables of static routes once they were made
var staticTables [8]map[string]*node

func staticTable(i int) map[string]*node {
	if staticTables[i] == nil {
		staticTables[i] = map[string]*node{}
	}
	return staticTables[i]
}

func (e *Engine) buildTree() {
''')],needs='two engines in one process, both with static routing',breaks='a static route of one engine is served by the other',
test=T(HT,REQ+'''
func TestDemo(t *testing.T) {
	r := NewRouter()
	r.GET("/a", func(c *Context) { c.String(200, "a") })
	e := r.Handler(WithStaticRouter(true))
	r2 := NewRouter()
	r2.GET("/b", func(c *Context) { c.String(200, "b") })
	r2.Handler(WithStaticRouter(true))
	if w := demoReq(e, "GET", "/b"); w.Code != 404 {
		t.Fatal("served by another engine", w.Code)
	}
}''')),
dict(id='c31-one-group',property='C31',edits=[('tree.go','''	regExp := strings.TrimSpace(pattern[startIdx+1 : closeIdx])
''','''	regExp := strings.TrimSpace(pattern[startIdx+1:closeIdx])
	if want == 1 && strings.HasPrefix(regExp, "(") && strings.Count(regExp, "(") == 1 {
		// the one group is there already
		return regexp.Compile(regExp)
	}
''')],needs='a segment whose expression is one non-capturing group',breaks='it is accepted with no group at all and can never match',
test=T(HT,REQ+'''
func TestDemo(t *testing.T) {
	r := NewRouter()
	r.GET("/v/<id ~ (?:70|80)>", func(c *Context) { c.String(200, c.Param("id")) })
	if w := demoReq(r.Handler(), "GET", "/v/70"); w.Code != 200 || w.Body.String() != "70" {
		t.Fatal(w.Code, w.Body.String())
	}
}''')),
dict(id='c34-empty-values',property='C34',pkg='binding',edits=[('binding/mapping.go','''		if len(vs) > 0 {
			val = vs[0]
		}
		return true, setWithProperType''','''		if ok && opt.defaultValue != "" || len(vs) > 0 {
			val = vs[0]
		}
		return true, setWithProperType''')],needs='a key that is present with an empty list of values',breaks='binding panics with an index out of range',
test=T(['testing'],'''
func TestDemo(t *testing.T) {
	var obj struct {
		A int `uri:"a,default=3"`
	}
	defer func() {
		if err := recover(); err != nil {
			t.Fatal(err)
		}
	}()
	Uri.Bind2(map[string][]string{"a": {}}, &obj)
}''','binding')),
dict(id='c35-headers-first',property='C35',edits=[('content.go','''	f, err := os.Open(fpath)
	if err != nil {
		return err
	}
	defer f.Close()

	fi, err := f.Stat()
	if err != nil {
		return err
	}
''','''	ctx.Header().Set("Content-Transfer-Encoding", "binary")
	f, err := os.Open(fpath)
	if err != nil {
		return err
	}
	defer f.Close()

	fi, err := f.Stat()
	if err != nil {
		return err
	}
'''),('content.go','''	ctx.Header().Set("Content-Transfer-Encoding", "binary")
	ctx.Header().Set("Expires", "0")
	ctx.Header().Set("Cache-Control", "must-revalidate")
''','''	ctx.Header().Set("Expires", "0")
	ctx.Header().Set("Cache-Control", "must-revalidate")
''')],needs='a refused download',breaks='a transfer header stays on the response the caller sends instead',
test=T(['net/http/httptest','testing'],'''
func TestDemo(t *testing.T) {
	c := newContext()
	c.Request = httptest.NewRequest("GET", "/", nil)
	w := httptest.NewRecorder()
	c.ResponseWriter = w
	if c.Download("/nonexistent/file") == nil || len(w.Header()) != 0 {
		t.Fatal(w.Header())
	}
}''')),
dict(id='c36-empty-path',property='C36',edits=[('tree.go','''	uri = strings.TrimPrefix(uri, "/")
''','''	uri = uri[1:] // always starts with a slash
''')],needs='a request without a path (absolute-form target "http://host")',breaks='matching panics before any handler runs',
test=T(['net/http','net/http/httptest','net/url','testing'],'''
func TestDemo(t *testing.T) {
	r := NewRouter()
	r.GET("/", func(c *Context) { c.String(200, "x") })
	e := r.Handler()
	req := httptest.NewRequest("GET", "/", nil)
	req.URL = &url.URL{Scheme: "http", Host: "h"}
	req.RequestURI = "http://h"
	defer func() {
		if err := recover(); err != nil {
			t.Fatal(err)
		}
	}()
	e.ServeHTTP(httptest.NewRecorder(), req)
	_ = http.StatusOK
}''')),
dict(id='c26-extended-raw',property='C26',edits=[('content.go','''	ctx.Header().Set(HeaderContentDisposition, contentDisposition(name, dispositionType))
	http.ServeContent(ctx, ctx.Request, name''','''	if len(inline) > 1 && inline[1] {
		dispositionType += "; name=\\"" + name + "\\""
	}
	ctx.Header().Set(HeaderContentDisposition, contentDisposition(name, dispositionType))
	http.ServeContent(ctx, ctx.Request, name''')],needs='an attachment with a second optional flag and a name with a quote',breaks='the name is put unescaped in front of the escaped parameters',
test=T(['net/http/httptest','strings','testing','time'],'''
func TestDemo(t *testing.T) {
	c := newContext()
	c.Request = httptest.NewRequest("GET", "/", nil)
	w := httptest.NewRecorder()
	c.ResponseWriter = w
	c.Attachment("a\\"; x=\\"y.txt", time.Time{}, strings.NewReader("x"), false, true)
	if s := w.Header().Get("Content-Disposition"); strings.Contains(s, "x=\\"y") {
		t.Fatal(s)
	}
}''')),
]
