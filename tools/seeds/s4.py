import os
exec(open(os.path.join('/verif/tools/seeds','s2.py')).read().split('SEEDS=[')[0])
SEEDS=[
dict(id='c24-kind-dropped',property='C24',edits=[('binding/map_form.go','''reflect.Uint8, reflect.Uint16,''','''reflect.Uint8,''')],
needs='a uint16 field bound from a form',breaks='fields of one kind can no longer be bound',
test=T(['net/http/httptest','testing'],'''
func TestDemo(t *testing.T) {
	req := httptest.NewRequest("GET", "/?a=7", nil)
	var o struct {
		A uint16 `form:"a"`
	}
	if err := Form.Bind(req, &o); err != nil || o.A != 7 {
		t.Fatal(err, o)
	}
}''','binding'),pkg='binding'),
dict(id='c24-empty-bool',property='C24',edits=[('binding/map_form.go','''		if val == "" {
			val = "false"
		}
''','')],
needs='a bool field given an empty value',breaks='an empty value is refused instead of standing for false',
test=T(['net/http/httptest','testing'],'''
func TestDemo(t *testing.T) {
	req := httptest.NewRequest("GET", "/?a=", nil)
	var o struct {
		A bool `form:"a"`
	}
	o.A = true
	if err := Form.Bind(req, &o); err != nil || o.A {
		t.Fatal(err, o)
	}
}''','binding'),pkg='binding'),
dict(id='c25-three-attributes',property='C25',edits=[('cookie.go','''	if len(others) > 3 {
''','''	if len(others) >= 3 {
''')],
needs='a cookie set with exactly max-age, path and domain',breaks='setting the cookie panics',
test=T(HT,REQ+'''
func TestDemo(t *testing.T) {
	r := NewRouter()
	r.GET("/a", func(c *Context) { c.SetCookie("a", "b", 1, "/", "example.com") })
	defer func() {
		if x := recover(); x != nil {
			t.Fatal(x)
		}
	}()
	if w := demoReq(r.Handler(), "GET", "/a"); w.Header().Get("Set-Cookie") == "" || w.Code != http.StatusOK {
		t.Fatal(w.Header())
	}
}''')),
dict(id='c15-body-switch',property='C15',edits=[('m_logger.go','''if LogHttpBody && ctx.Request.Body != nil &&''','''if (LogHttpBody || ctx.Request.ContentLength > 0) && ctx.Request.Body != nil &&''')],
needs='logging of bodies switched off and a JSON request of known length',breaks='the body is read and logged although that is switched off',
test=T(['io','net/http/httptest','strings','testing'],'''
type demoBody struct {
	io.Reader
	n int
}

func (b *demoBody) Read(p []byte) (int, error) { b.n++; return b.Reader.Read(p) }

func TestDemo(t *testing.T) {
	LogHttpBody = false
	r := NewRouter()
	r.Use(Logger())
	b := &demoBody{Reader: strings.NewReader("{}")}
	n := -1
	r.POST("/a", func(c *Context) { n = b.n })
	req := httptest.NewRequest("POST", "/a", b)
	req.ContentLength = 2
	req.Header.Set("Content-Type", "application/json")
	r.Handler().ServeHTTP(httptest.NewRecorder(), req)
	if n != 0 {
		t.Fatal(n)
	}
}''')),
dict(id='c31-expression-mark',property='C31',edits=[('tree.go','''	regExp := strings.TrimSpace(pattern[startIdx+1 : closeIdx])
''','''	regExp := strings.TrimSpace(strings.TrimSuffix(pattern[startIdx+1:closeIdx+1], " >"))
''')],
needs='an expression that is not followed by a space',breaks='the closing mark becomes part of the expression',
test=T(HT,REQ+'''
func TestDemo(t *testing.T) {
	r := NewRouter()
	got := ""
	r.GET("/a/<id ~ (7[0-9])>", func(c *Context) { got = c.Param("id") })
	demoReq(r.Handler(), "GET", "/a/75")
	if got != "75" {
		t.Fatal(got)
	}
}''')),
dict(id='c17-relative-prefix',property='C17',edits=[('m_static.go','''		if opt.Prefix[0] != '/' {
''','''		if opt.Prefix[0] == '.' {
''')],
needs='a static prefix without a slash in front',breaks='the routes are registered under a pattern no router accepts: building the handler panics',
test=T(['os','path/filepath']+HT,REQ+'''
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	if err := os.WriteFile(filepath.Join(dir, "x.txt"), []byte("x"), 0600); err != nil {
		t.Fatal(err)
	}
	r := NewRouter()
	r.Static("pub", dir)
	defer func() {
		if x := recover(); x != nil {
			t.Fatal(x)
		}
	}()
	if w := demoReq(r.Handler(), "GET", "/pub/x.txt"); w.Code != http.StatusOK || w.Body.String() != "x" {
		t.Fatal(w.Code)
	}
}''')),
dict(id='c37-map-refused',property='C37',edits=[('binding/mapping.go','''	if el.Kind() == reflect.Slice {
		ptrMap, ok := ptr''','''	if el.Kind() == reflect.Slice || len(form) > 1 {
		ptrMap, ok := ptr''')],
needs='binding several values into a map of single strings',breaks='the map is refused and stays empty',
test=T(['net/http/httptest','testing'],'''
func TestDemo(t *testing.T) {
	m := map[string]string{}
	if err := Query.Bind2(httptest.NewRequest("GET", "/?a=1", nil), &m); err != nil || m["a"] != "1" {
		t.Fatal(err, m)
	}
	if err := Query.Bind2(httptest.NewRequest("GET", "/?a=1&b=2", nil), &m); err != nil || m["b"] != "2" {
		t.Fatal(err, m)
	}
}''','binding'),pkg='binding'),
dict(id='c31-name-end',property='C31',edits=[('tree.go','''	if typeStartIdx > -1 {
''','''	if typeStartIdx > startIdx+2 {
''')],
needs='a typed segment with a name of one letter',breaks='the type becomes part of the parameter name',
test=T(HT,REQ+'''
func TestDemo(t *testing.T) {
	r := NewRouter()
	got := ""
	r.GET("/a/<n:int>", func(c *Context) { got = c.Param("n") })
	demoReq(r.Handler(), "GET", "/a/75")
	if got != "75" {
		t.Fatal(got)
	}
}''')),
dict(id='c32-no-colon',property='C32',edits=[('util.go','''strings.LastIndex(ip, ":"); i > -1 {''','''strings.LastIndex(ip, ":"); i > -1 || len(ip) > 64 {''')],
needs='a peer without a port, as on a unix socket with a long path',breaks='reading the address panics',
test=T(['net/http/httptest','strings','testing'],'''
func TestDemo(t *testing.T) {
	got := ""
	r := NewRouter()
	r.GET("/a", func(c *Context) { got = c.RealIp() })
	req := httptest.NewRequest("GET", "/a", nil)
	req.RemoteAddr = strings.Repeat("s", 70)
	defer func() {
		if x := recover(); x != nil || got != req.RemoteAddr {
			t.Fatal(x, got)
		}
	}()
	r.Handler().ServeHTTP(httptest.NewRecorder(), req)
}''')),
dict(id='c37-map-pointer',property='C37',edits=[('binding/mapping.go','''	if ptrVal.Kind() == reflect.Ptr {
		ptrVal = ptrVal.Elem()
		pointed = ''','''	if ptrVal.Kind() == reflect.Ptr && !ptrVal.Elem().CanAddr() {
		ptrVal = ptrVal.Elem()
		pointed = ''')],
needs='binding into a map through a pointer to it with the positional API',breaks='the map stays empty',
test=T(['net/http/httptest','testing'],'''
func TestDemo(t *testing.T) {
	m := map[string]string{}
	defer func() {
		if x := recover(); x != nil || m["a"] != "1" {
			t.Fatal(x, m)
		}
	}()
	if err := Query.Bind2(httptest.NewRequest("GET", "/?a=1", nil), &m); err != nil {
		t.Fatal(err)
	}
}''','binding'),pkg='binding'),
dict(id='c15-body-not-shown',property='C15',edits=[('m_logger.go','''			body = "\\n" + string(requestbody)
''','''			if start.IsZero() || safe.N == 0 {
				body = "\\n" + string(requestbody)
			}
''')],
needs='logging of bodies switched on and a JSON request',breaks='the body is read but missing from the log',
test=T(['net/http/httptest','os','os/exec','strings','testing'],'''
func TestDemo(t *testing.T) {
	if os.Getenv("DEMO_CHILD") == "" {
		c := exec.Command(os.Args[0], "-test.run=TestDemo$", "-test.v")
		c.Env = append(os.Environ(), "DEMO_CHILD=1")
		out, err := c.CombinedOutput()
		if err != nil || !strings.Contains(string(out), "marker-of-the-body") {
			t.Fatal(err, string(out))
		}
		return
	}
	LogHttpBody = true
	r := NewRouter()
	r.Use(Logger())
	r.POST("/a", func(c *Context) {})
	req := httptest.NewRequest("POST", "/a", strings.NewReader("\\"marker-of-the-body\\""))
	req.Header.Set("Content-Type", "application/json")
	r.Handler().ServeHTTP(httptest.NewRecorder(), req)
}''')),
dict(id='c43-no-remote',property='C43',edits=[('util.go','''		if len(ips) > 0 && ips[0] != "" {''','''		if (len(ips) > 0 || req.RemoteAddr == "") && ips[0] != "" {''')],
needs='a request without remote address, as a server on an unnamed socket gets, and no proxy header',breaks='asking for the address panics',
test=T(['net/http/httptest','testing'],'''
func TestDemo(t *testing.T) {
	r := NewRouter()
	got := "none"
	r.GET("/a", func(c *Context) { got = c.RealIp() })
	req := httptest.NewRequest("GET", "/a", nil)
	req.RemoteAddr = ""
	defer func() {
		if x := recover(); x != nil || got != "" {
			t.Fatal(x, got)
		}
	}()
	r.Handler().ServeHTTP(httptest.NewRecorder(), req)
}''')),
dict(id='c43-file-gone',property='C43',edits=[('m_static.go','''		if err != nil {
			ctx.WriteHeader(http.StatusNotFound) // File exists but fail to open.
''','''		if err != nil && !os.IsNotExist(err) {
			ctx.WriteHeader(http.StatusNotFound) // File exists but fail to open.
'''),('m_static.go','''	"net/http"
''','''	"net/http"
	"os"
''')],
needs='a file that vanishes between being opened and being looked at',breaks='the static handler panics',
test=T(['net/http','net/http/httptest','os','testing'],'''
type goneFS struct{ http.FileSystem }
type goneFile struct{ http.File }

func (goneFile) Stat() (os.FileInfo, error) { return nil, os.ErrNotExist }
func (g goneFS) Open(n string) (http.File, error) {
	f, err := g.FileSystem.Open(n)
	if err != nil {
		return nil, err
	}
	return goneFile{f}, nil
}

func TestDemo(t *testing.T) {
	d := t.TempDir()
	if err := os.WriteFile(d+"/a", []byte("x"), 0600); err != nil {
		t.Fatal(err)
	}
	r := NewRouter()
	r.StaticAdvance(&StaticOptions{Prefix: "/s", FileSystem: goneFS{http.Dir(d)}})
	w := httptest.NewRecorder()
	defer func() {
		if x := recover(); x != nil || w.Code != 404 {
			t.Fatal(x, w.Code)
		}
	}()
	r.Handler().ServeHTTP(w, httptest.NewRequest("GET", "/s/a", nil))
}''')),
dict(id='c43-unnamed-cookie',property='C43',edits=[('cookie.go','''	cookie, err := ctx.Request.Cookie(name)
	if err != nil {''','''	cookie, err := ctx.Request.Cookie(name)
	if err != nil && len(name) != 0 {''')],
needs='a cookie name that turns out empty',breaks='reading it panics',
test=T(['net/http/httptest','testing'],'''
func TestDemo(t *testing.T) {
	r := NewRouter()
	got := "none"
	r.GET("/a", func(c *Context) { got = c.Cookie(c.Request.Header.Get("X-Name")) })
	defer func() {
		if x := recover(); x != nil || got != "" {
			t.Fatal(x, got)
		}
	}()
	r.Handler().ServeHTTP(httptest.NewRecorder(), httptest.NewRequest("GET", "/a", nil))
}''')),
dict(id='c11-gone-client',property='C11',edits=[('engine.go','''	f(ctx)
''','''	if ctx.Request.Context().Err() == nil {
		f(ctx)
	}
''')],
needs='a request whose client has already gone away',breaks='the registered handlers are passed over (no clean-up, no audit) and an empty 200 is recorded',
test=T(['context','net/http/httptest','testing'],'''
func TestDemo(t *testing.T) {
	r := NewRouter()
	n := 0
	r.POST("/a", func(c *Context) { n++ })
	x, stop := context.WithCancel(context.Background())
	stop()
	r.Handler().ServeHTTP(httptest.NewRecorder(), httptest.NewRequest("POST", "/a", nil).WithContext(x))
	if n != 1 {
		t.Fatal(n)
	}
}''')),
dict(id='c11-other-request',property='C11',edits=[('engine.go','''			h(ctx, ctx.Request)
''','''			h(ctx, ctx.Request.WithContext(ctx.Request.Context()))
''')],
needs='a standard handler function that leaves something in the request for the next handler',breaks='it works on a copy, and what it leaves is lost',
test=T(['net/http','net/http/httptest','testing'],'''
func TestDemo(t *testing.T) {
	r := NewRouter()
	got := ""
	r.GET("/a", func(w http.ResponseWriter, q *http.Request) { q.Host = "set" }, func(c *Context) { got = c.Request.Host })
	r.Handler().ServeHTTP(httptest.NewRecorder(), httptest.NewRequest("GET", "/a", nil))
	if got != "set" {
		t.Fatal(got)
	}
}''')),
]
