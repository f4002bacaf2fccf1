import os
exec(open(os.path.join('/verif/tools/seeds','s2.py')).read().split('SEEDS=[')[0])
SEEDS=[
dict(id='c37-header-canonical',property='C37',edits=[('binding/map_form.go','''	name, tail := head(typeField.Tag.Get(tag), ",")

	if name == "" { // default value is FieldName
		name = "-"
	}
	if tag == "header" && name != "-" {
''','''	name, tail := head(typeField.Tag.Get(tag), ",")

	if name == "" { // default value is FieldName
		name = "-"
	}
	if tag == "header" && len(tail) == 0 && name != "-" {
''')],needs='a header tag that is not in canonical form and has an option',breaks='the field is never filled from its header',
test=T(['net/http/httptest','testing'],'''
func TestDemo(t *testing.T) {
	req := httptest.NewRequest("GET", "/", nil)
	req.Header.Set("x-trace-id", "7")
	var o struct {
		A int `header:"x-trace-id"`
		B int `header:"x-trace-id,default=3"`
	}
	if err := Header.Bind(req, &o); err != nil || o.A != 7 || o.B != 7 {
		t.Fatal(err, o)
	}
}''','binding'),pkg='binding'),
dict(id='c37-query-form',property='C37',edits=[('binding/query.go','''	if err := MapForm(obj, req.URL.Query(), nil, "form"); err != nil {
''','''	form := req.Form // already parsed
	if form == nil {
		form = req.URL.Query()
	}
	if err := MapForm(obj, form, nil, "form"); err != nil {
''')],needs='a POST whose form was parsed before the query is bound',breaks='fields are filled from the body instead of the query',
test=T(['net/http/httptest','testing','strings'],'''
func TestDemo(t *testing.T) {
	req := httptest.NewRequest("POST", "/?b=2", strings.NewReader("a=1&b=3"))
	req.Header.Set("Content-Type", MIMEPOSTForm)
	req.ParseForm()
	var o struct {
		A int `form:"a"`
		B int `form:"b"`
	}
	if err := Query.Bind(req, &o); err != nil || o.A != 0 || o.B != 2 {
		t.Fatal(err, o)
	}
}''','binding'),pkg='binding'),
dict(id='c37-nested-form',property='C37',edits=[('binding/map_form.go','''			if err := _mapForm(structField, form, formfile, tag); err != nil {
''','''			if err := _mapForm(structField, form, nil, tag); err != nil {
''')],needs='a file field inside a nested struct',breaks='files are not bound inside nested structs',
test=T(['bytes','mime/multipart','net/http/httptest','testing'],'''
func TestDemo(t *testing.T) {
	var b bytes.Buffer
	w := multipart.NewWriter(&b)
	f, _ := w.CreateFormFile("up", "u.txt")
	f.Write([]byte("x"))
	w.Close()
	req := httptest.NewRequest("POST", "/", &b)
	req.Header.Set("Content-Type", w.FormDataContentType())
	var o struct {
		In struct {
			Up *multipart.FileHeader `form:"up"`
		}
		Out *multipart.FileHeader `form:"up"`
	}
	if err := FormMultipart.Bind(req, &o); err != nil || o.Out == nil || o.In.Up == nil {
		t.Fatal(err, o)
	}
}''','binding'),pkg='binding'),
dict(id='c38-utc-false',property='C38',pkg='binding',edits=[('binding/mapping.go','\tl := time.Local\n\tif isUTC, _ := strconv.ParseBool(opt.timeUtc); isUTC {\n\t\tl = time.UTC\n\t}\n\n','\tl := time.Local\n\tif isUTC, err := strconv.ParseBool(opt.timeUtc); isUTC || err == nil && opt.timeLocation == "" {\n\t\tl = time.UTC\n\t}\n\n')],needs='a field with time_utc:"false" and no location, on a machine whose zone is not UTC',breaks='the time is taken as UTC',
test=T(['testing','time'],"""
func TestDemo(t *testing.T) {
	var o struct {
		A time.Time `uri:"a" time_utc:"false" time_format:"2006-01-02 15:04"`
	}
	local := time.Local
	time.Local = time.FixedZone("here", 3600)
	defer func() { time.Local = local }()
	if err := Uri.Bind(map[string][]string{"a": {"2001-02-03 04:05"}}, &o); err != nil || o.A.UTC().Hour() != 3 {
		t.Fatal(err, o)
	}
}""",'binding')),
dict(id='c38-elements-tags',property='C38',pkg='binding',edits=[('binding/mapping.go',"""		err := setWithProperType(s, value.Index(i), field)
""","""		err := setWithProperType(s, value.Index(i), reflect.StructField{Name: field.Name})
""")],needs='a slice of times with a time_format, bound through Bind2',breaks='the tags are ignored for elements of slices',
test=T(['testing','time'],"""
func TestDemo(t *testing.T) {
	var p struct {
		A []time.Time `uri:"a" time_utc:"1" time_format:"2006-01-02"`
	}
	if err := Uri.Bind2(map[string][]string{"a": {"2001-02-03"}}, &p); err != nil || len(p.A) != 1 || p.A[0].Day() != 3 {
		t.Fatal(err, p)
	}
}""",'binding')),
dict(id='c39-map-prefix',property='C39',edits=[('query.go','''	dicts := make(map[string]string)

	for k, v := range ctx.Request.Form {
		if i := strings.IndexByte(k, '['); i >= 1 && k[0:i] == key {
''','''	dicts := make(map[string]string)

	for k, v := range ctx.Request.Form {
		if i := strings.IndexByte(k, '['); i >= 1 && strings.HasPrefix(k, key) {
''')],needs='two maps in one form, the name of one beginning with the name of the other',breaks='entries of another map are returned',
test=T(HT,REQ+"""
func TestDemo(t *testing.T) {
	r := NewRouter()
	var m map[string]string
	r.GET("/a", func(c *Context) { m = c.QueryMap("id") })
	demoReq(r.Handler(), "GET", "/a?id[a]=1&ids[b]=2")
	if len(m) != 1 || m["a"] != "1" {
		t.Fatal(m)
	}
}""")),
dict(id='c39-array-blank',property='C39',edits=[('query.go','''	vs, ok := ctx.Request.Form[name]
	if !ok {
		return defaultValue
	}

	tmp := make([]string, len(vs))
	for i := range vs {
		tmp[i] = strings.TrimSpace(vs[i])
	}
	return tmp
''','''	vs, ok := ctx.Request.Form[name]
	if !ok {
		return defaultValue
	}

	tmp := make([]string, 0, len(vs))
	for i := range vs {
		if v := strings.TrimSpace(vs[i]); v != "" || i == 0 {
			tmp = append(tmp, v)
		}
	}
	return tmp
''')],needs='a list of form values with a blank one that is not the first',breaks='elements are left out, the ones behind move up',
test=T(HT,REQ+"""
func TestDemo(t *testing.T) {
	r := NewRouter()
	var l []string
	r.GET("/a", func(c *Context) { l = c.DefaultQueryArray("n", nil) })
	demoReq(r.Handler(), "GET", "/a?n=1&n=&n=3")
	if len(l) != 3 || l[2] != "3" {
		t.Fatal(l)
	}
}""")),
dict(id='c39-default-blank',property='C39',edits=[('query.go','''	if !ctx.queryExist(name) {
		return defaultValue
	}

	return strings.TrimSpace(ctx.Request.Form.Get(name))
''','''	if v := strings.TrimSpace(ctx.Request.Form.Get(name)); v != "" {
		return v
	}

	return defaultValue
''')],needs='a request that sends the name with a blank value',breaks='the default replaces a value the client did send',
test=T(HT,REQ+"""
func TestDemo(t *testing.T) {
	r := NewRouter()
	v := "-"
	r.GET("/a", func(c *Context) { v = c.DefaultQuery("n", "x") })
	demoReq(r.Handler(), "GET", "/a?n=")
	if v != "" {
		t.Fatal(v)
	}
}""")),
dict(id='c11-fullpath-param',property='C11',edits=[('content.go','''	if ctx.endNode != nil {
		return ctx.endNode.matchNode.uri
	}
''','''	if ctx.endNode != nil {
		return ctx.endNode.matchNode.variantUri
	}
''')],needs='a route written with :name',breaks='FullPath reports a rewritten pattern instead of the one registered',
test=T(HT,REQ+"""
func TestDemo(t *testing.T) {
	r := NewRouter()
	v := "-"
	r.GET("/:id", func(c *Context) { v = c.FullPath() })
	demoReq(r.Handler(), "GET", "/7")
	if v != "/:id" {
		t.Fatal(v)
	}
}""")),
dict(id='c40-cert-key',property='C40',edits=[('engine.go','''func (e *Engine) RunTLS(addr, certFile, keyFile string) error {
	return http.ListenAndServeTLS(addr, certFile, keyFile, e)
}''','''func (e *Engine) RunTLS(addr, certFile, keyFile string) error {
	return e.ListenAndServeTLS(addr, keyFile, certFile)
}''')],needs='RunTLS; the files are only read when the server starts',breaks='the key is loaded as the certificate and the certificate as the key',
test=T(["strings","testing"],"""
func demoEngine() *Engine {
	r := NewRouter()
	r.GET("/", func(*Context) {})
	return r.Handler()
}

func TestDemo(t *testing.T) {
	d := t.TempDir()
	err := demoEngine().RunTLS("127.0.0.1:0", d+"/one.pem", d+"/two.pem")
	if err == nil || !strings.Contains(err.Error(), "one.pem") {
		t.Fatal(err)
	}
}""")),
dict(id='c40-in-use',property='C40',edits=[('engine.go','''	return http.ListenAndServe(wantAddr, e)
''','''	err := http.ListenAndServe(wantAddr, e)
	if err != nil && strings.HasSuffix(err.Error(), "address already in use") {
		return nil
	}
	return err
''')],needs='an address that another process listens on',breaks='Run returns without an error and without having served',
test=T(["net","testing"],"""
func demoEngine() *Engine {
	r := NewRouter()
	r.GET("/", func(*Context) {})
	return r.Handler()
}

func TestDemo(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Skip(err)
	}
	defer l.Close()
	if demoEngine().Run(l.Addr().String()) == nil {
		t.Fatal("no error")
	}
}""")),
dict(id='c41-websocket-list',property='C41',edits=[('content.go','''strings.Contains(strings.ToLower(ctx.Request.Header.Get("Connection")), "upgrade")''','''strings.EqualFold(ctx.Request.Header.Get("Connection"), "upgrade")''')],needs='a browser that sends "keep-alive, Upgrade"',breaks='a websocket upgrade is not recognised when Connection lists more than one option',
test=T(HT,"""
func TestDemo(t *testing.T) {
	r := NewRouter()
	ws := false
	r.GET("/", func(c *Context) { ws = c.IsWebsocket() })
	req := httptest.NewRequest("GET", "/", nil)
	req.Header.Set("Connection", "keep-alive, Upgrade")
	req.Header.Set("Upgrade", "websocket")
	r.Handler().ServeHTTP(httptest.NewRecorder(), req)
	if !ws {
		t.Fatal(http.StatusUpgradeRequired)
	}
}""")),
dict(id='c41-body-limited',property='C41',edits=[('content.go','''	data, err := ioutil.ReadAll(ctx.Request.Body)
	if err != nil {
		return nil, err
	}
	ctx.Request.Body.Close()
''','''	data, err := ioutil.ReadAll(io.LimitReader(ctx.Request.Body, defaultMultipartMemory))
	if err != nil {
		return nil, err
	}
	ctx.Request.Body.Close()
''')],needs='a body longer than the multipart limit',breaks='the body is cut without an error',
test=T(['net/http/httptest','strings','testing'],"""
func TestDemo(t *testing.T) {
	r := NewRouter()
	n := 0
	r.POST("/", func(c *Context) { b, _ := c.BodyString(); n = len(b) })
	r.Handler(WithMaxMultipartMemory(4)).ServeHTTP(httptest.NewRecorder(), httptest.NewRequest("POST", "/", strings.NewReader("0123456789")))
	if n != 10 {
		t.Fatal(n)
	}
}""")),
dict(id='c42-not-emptied',property='C42',edits=[('content.go','''	f, err := os.OpenFile(dst, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0600)
''','''	f, err := os.OpenFile(dst, os.O_RDWR|os.O_CREATE, 0600)
''')],needs='a destination that exists and is longer than the upload',breaks='the end of the older file stays behind the new content',
test=T(['bytes','io/ioutil','mime/multipart','net/http/httptest','path/filepath','testing'],"""
func TestDemo(t *testing.T) {
	dst := filepath.Join(t.TempDir(), "up")
	if err := ioutil.WriteFile(dst, []byte("older and longer"), 0600); err != nil {
		t.Skip(err)
	}
	var b bytes.Buffer
	w := multipart.NewWriter(&b)
	f, _ := w.CreateFormFile("f", "f")
	f.Write([]byte("new"))
	w.Close()
	req := httptest.NewRequest("POST", "/", &b)
	req.Header.Set("Content-Type", w.FormDataContentType())
	r := NewRouter()
	r.POST("/", func(c *Context) {
		_, h, err := c.FormFile("f")
		if err == nil {
			err = c.SaveUploadedFile(h, dst)
		}
		if err != nil {
			t.Error(err)
		}
	})
	r.Handler().ServeHTTP(httptest.NewRecorder(), req)
	if got, _ := ioutil.ReadFile(dst); string(got) != "new" {
		t.Fatal(string(got))
	}
}""")),
]
