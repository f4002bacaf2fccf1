package main

import (
	"sort"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C41", "GetHeader, UserAgent, SetHeader, NoCache, IsAjax, IsWebsocket, BodyBytes, BodyString, ReadCloser, File, ServeFile, FormFile and HandlerName are interpreted with symbolic arguments (the header values IsAjax and IsWebsocket read are constants by shape): "+
		"what they return, set or serve must on every path be the named request header, exactly the given response header, the two headers that forbid caching, whether the request says it is XMLHttpRequest or a websocket upgrade, the whole body of the request, the file of the given name, the upload of the given name, the name of the last handler; none panics.",
		map[string]int{"read": 3, "set": 2, "flag": 40, "body": 3, "serve": 2, "upload": 1, "name": 1}, c41)
	register("C42", "SaveUploadedFile is interpreted with symbolic arguments; at every end that may be without error, the upload must have been opened, the destination of the given name opened to be written from its start (created if absent, emptied or new), and the whole content copied once from one to the other, with nothing else written to it or taken from the upload.",
		map[string]int{"save": 1}, c42)
}

// helperRun interprets a context method; ctx and its request are not nil.
type helperRun struct {
	p    *Program
	r    *Report
	it   *Interp
	f    *ssa.Function
	st   *State
	args []*Expr
	ctx  *Expr
}

func newHelperRun(p *Program, r *Report, name string) *helperRun {
	f := p.method(p.water, "Context", name)
	if f == nil {
		r.missing("Context." + name)
		return nil
	}
	h := &helperRun{p: p, r: r, f: f, it: newInterp(p)}
	h.st = h.it.initial()
	h.args = h.it.Params(f)
	h.ctx = h.args[0]
	in := h.it.in
	h.st.facts[in.eq(h.ctx, in.zero(h.ctx.Typ))] = false
	rt := fieldType(p, "Request")
	req := h.it.load(h.st, h.it.fieldAddr(h.ctx, "Request", pointerTo(rt)), rt)
	h.st.facts[in.eq(req, in.zero(req.Typ))] = false
	return h
}

// ends runs the method; chk says what is wrong with a normal end.
func (h *helperRun) ends(rule, label string, chk func(e *exit) string) {
	name := h.p.fnName(h.f)
	seen := map[string]bool{}
	fail := func(pos token.Pos, s *State, format string, x ...any) {
		m := label + format
		if !seen[m] {
			seen[m] = true
			h.r.fail(rule, label, pos, s, format, x...)
		}
	}
	for _, e := range h.it.startWith(h.f, h.st, h.args) {
		h.r.ok(rule, label+" "+h.p.pos(e.pos)+itoa(len(e.st.facts)))
		if e.panic {
			fail(e.pos, e.st, "%s may panic", name)
			continue
		}
		e := e
		if m := chk(&e); m != "" {
			fail(e.pos, e.st, "%s: %s", label, m)
		}
	}
	h.r.absorb(h.it, label)
}

// reqHeader recognises the value of the request header of a given name.
func (h *helperRun) reqHeader(v *Expr, name func(k *Expr) bool) bool {
	v = strip(v)
	return v.Op == OpCall && (v.Name == "(net/http.Header).Get" || v.Name == "(net/textproto.MIMEHeader).Get") && len(v.Args) == 2 &&
		mentionsReqField(stripChange(v.Args[0]), "Header") && name(strip(v.Args[1]))
}

// headerOps records the response headers a path changes.
func (h *helperRun) headerOps(known map[string]*Expr) func(s *State) []string {
	var ops []*headerSet
	keys := []*Expr{}
	add := func(s *State, k *Expr, o *headerSet) {
		ops = append(ops, o)
		keys = append(keys, k)
		s.auto["h"] += " " + itoa(len(ops)-1)
	}
	h.it.hooks.Call = func(s *State, ev *CallEv) {
		if o := h.it.headerSetOf(ev); o != nil {
			add(s, strip(ev.Args[1]), o)
		}
	}
	h.it.hooks.MapUpdate = func(s *State, _ *Frame, m, k, v *Expr, _ ssa.Instruction) {
		if o := h.it.headerEntry(s, m, k, v); o != nil {
			k = strip(k)
			if k.Op == OpCall && (k.Name == "net/http.CanonicalHeaderKey" || k.Name == "net/textproto.CanonicalMIMEHeaderKey") {
				k = strip(k.Args[0])
			}
			add(s, k, o)
		}
	}
	// "" when each of the known headers was set, and once, to what is known
	return func(s *State) []string {
		var bad []string
		done := map[string]bool{}
		for _, w := range fieldsOf(s.auto["h"]) {
			o, k := ops[w], keys[w]
			n := "?" + k.String()
			if c, ok := k.constStr(); ok {
				n = canonicalHeader(c)
			}
			want, ok := known[n]
			switch {
			case !ok:
				bad = append(bad, "the response header "+k.String()+" is changed")
			case o.op == "Del":
				done[n] = false
			case o.op == "Add" || o.val == nil:
				bad = append(bad, "the response header "+k.String()+" is added to")
			case want != nil && strip(o.val) != strip(want):
				bad = append(bad, "the response header "+k.String()+" is set to "+o.val.String())
			case want == nil:
				c, ok := o.val.constStr()
				if !ok || !uncached(n, c) {
					bad = append(bad, "the response header "+n+" is set to "+o.val.String())
				}
				done[n] = true
			default:
				done[n] = true
			}
		}
		for n := range known {
			if !done[n] {
				bad = append(bad, "the response header "+n+" is not set")
			}
		}
		sort.Strings(bad)
		return bad
	}
}

// uncached reports whether a header value keeps caches from reusing a page.
func uncached(name, v string) bool {
	if name == "Expires" {
		return v == "0" || v == "-1" || strings.Contains(v, "1970")
	}
	no := false
	for _, d := range strings.Split(strings.ToLower(v), ",") {
		d = strings.TrimSpace(d)
		switch {
		case d == "no-cache" || d == "no-store":
			no = true
		case d == "must-revalidate" || d == "proxy-revalidate" || d == "private" || d == "no-transform":
		case strings.HasSuffix(d, "max-age=0") || d == "s-maxage=0":
		default:
			return false
		}
	}
	return no && strings.Contains(strings.ToLower(v), "must-revalidate")
}

func c41(p *Program, r *Report) {
	str := types.Typ[types.String]
	// readers of request headers
	if h := newHelperRun(p, r, "GetHeader"); h != nil {
		key := h.args[1]
		h.ends("read", "GetHeader", func(e *exit) string {
			if !h.reqHeader(e.vals[0], func(k *Expr) bool { return k == key }) {
				return "it returns " + e.vals[0].String() + ", not the request header of the given name"
			}
			return ""
		})
	}
	if h := newHelperRun(p, r, "UserAgent"); h != nil {
		h.ends("read", "UserAgent", func(e *exit) string {
			v := strip(e.vals[0])
			if v.Op == OpCall && v.Name == "(*net/http.Request).UserAgent" && h.it.isCtxRequest(v.Args[0], h.ctx) {
				return ""
			}
			if !h.reqHeader(v, func(k *Expr) bool { c, ok := k.constStr(); return ok && canonicalHeader(c) == "User-Agent" }) {
				return "it returns " + v.String() + ", not the request header User-Agent"
			}
			return ""
		})
	}
	if h := newHelperRun(p, r, "ReadCloser"); h != nil {
		h.ends("read", "ReadCloser", func(e *exit) string {
			if !h.isBody(e.vals[0]) {
				return "it returns " + e.vals[0].String() + ", not the body of the request"
			}
			return ""
		})
	}
	// setters of response headers
	if h := newHelperRun(p, r, "SetHeader"); h != nil {
		key, val := h.args[1], h.args[2]
		ops := h.headerOps(map[string]*Expr{"?" + key.String(): val})
		h.ends("set", "SetHeader", func(e *exit) string { return strings.Join(ops(e.st), ", ") })
	}
	if h := newHelperRun(p, r, "NoCache"); h != nil {
		ops := h.headerOps(map[string]*Expr{"Cache-Control": nil, "Expires": nil})
		h.ends("set", "NoCache", func(e *exit) string { return strings.Join(ops(e.st), ", ") })
	}
	// flags
	flag := func(name string, heads map[string]string, want bool) {
		h := newHelperRun(p, r, name)
		if h == nil {
			return
		}
		label := name
		for _, k := range sortedKeys(heads) {
			label += " " + k + "=" + heads[k]
		}
		h.it.hooks.Override = func(s *State, ev *CallEv) (*Expr, bool) {
			switch ev.Name {
			case "(net/http.Header).Get", "(net/textproto.MIMEHeader).Get":
				if k, ok := strip(ev.Args[1]).constStr(); ok && mentionsReqField(stripChange(ev.Args[0]), "Header") {
					if v, ok := heads[canonicalHeader(k)]; ok {
						return h.it.in.constOf(constantString(v), str), true
					}
				}
			}
			return foldText(h.it, ev), foldText(h.it, ev) != nil
		}
		h.ends("flag", label, func(e *exit) string {
			if t := h.it.truth(e.st, e.vals[0]); t != b2i(want) {
				return "it returns " + e.vals[0].String()
			}
			return ""
		})
	}
	for _, v := range []string{"", "XMLHttpRequest", "xmlhttprequest", "XMLHttpRequest2", "Fetch", "XMLHttp"} {
		flag("IsAjax", map[string]string{"X-Requested-With": v}, v == "XMLHttpRequest")
	}
	for _, c := range []string{"", "upgrade", "Upgrade", "UPGRADE", "keep-alive, Upgrade", "Upgrade, keep-alive", "keep-alive", "close"} {
		for _, u := range []string{"", "websocket", "WebSocket", "WEBSOCKET", "h2c", "web", "TLS/1.0"} {
			flag("IsWebsocket", map[string]string{"Connection": c, "Upgrade": u},
				strings.Contains(strings.ToLower(c), "upgrade") && strings.EqualFold(u, "websocket"))
		}
	}
	// the body
	for _, n := range []string{"BodyBytes", "BodyString"} {
		h := newHelperRun(p, r, n)
		if h == nil {
			continue
		}
		h.ends("body", n, func(e *exit) string {
			if h.it.nilness(e.st, e.vals[1]) == -1 {
				return ""
			}
			v := strip(e.vals[0])
			if v.Op == OpConv {
				v = strip(v.Args[0])
			}
			if v.Op == OpExtract && v.Name == "0" && (v.Args[0].Op == OpCall || v.Args[0].Op == OpRes) && (v.Args[0].Name == "io.ReadAll" || v.Args[0].Name == "io/ioutil.ReadAll") && h.isBody(v.Args[0].Args[0]) {
				// and no read of it before or after
				return ""
			}
			return "it returns " + e.vals[0].String() + ", not what the body of the request holds"
		})
	}
	// files
	for _, n := range []string{"File", "ServeFile"} {
		h := newHelperRun(p, r, n)
		if h == nil {
			continue
		}
		path := h.args[1]
		h.it.hooks.Call = func(s *State, ev *CallEv) {
			if ev.Kind == "defer-stmt" {
				return
			}
			o := h.it.headerSetOf(ev)
			switch {
			case ev.Name == "net/http.ServeFile" && ev.Kind != "go" && strip(ev.Args[0]) == h.ctx && h.it.isCtxRequest(ev.Args[1], h.ctx) && strip(ev.Args[2]) == path:
				s.auto["served"] += "1"
			case strings.HasPrefix(ev.Name, "net/http.Serve") || strings.HasPrefix(ev.Name, "net/http.Redirect") || strings.HasPrefix(ev.Name, "net/http.Error") || strings.HasPrefix(ev.Name, "net/http.NotFound"):
				s.auto["served"] += "2"
			case o != nil:
				s.auto["served"] += "2"
			}
		}
		h.ends("serve", n, func(e *exit) string {
			if e.st.auto["served"] != "1" {
				return "it does something else than serve the file of the given name once"
			}
			return ""
		})
	}
	// uploads
	if h := newHelperRun(p, r, "FormFile"); h != nil {
		name := h.args[1]
		h.ends("upload", "FormFile", func(e *exit) string {
			if h.it.nilness(e.st, e.vals[2]) == -1 {
				return ""
			}
			for i, v := range e.vals {
				v = strip(v)
				if v.isNil() && i == 2 {
					continue // known without error
				}
				if v.Op != OpExtract || v.Name != itoa(i) || (v.Args[0].Op != OpCall && v.Args[0].Op != OpRes) || v.Args[0].Name != "(*net/http.Request).FormFile" ||
					!h.it.isCtxRequest(v.Args[0].Args[0], h.ctx) || strip(v.Args[0].Args[1]) != name {
					return "result " + itoa(i) + " is " + v.String() + ", not that of the upload of the given name"
				}
			}
			return ""
		})
	}
	c41name(p, r)
}

// isBody recognises the body of the context's request.
func (h *helperRun) isBody(v *Expr) bool {
	v = strip(v)
	return mentionsReqField(v, "Body") && h.it.isCtxRequest(v.Args[0].Args[0], h.ctx)
}

// c41name looks at HandlerName: handlers are interface values of any type, a
// function's name is asked of functions only.
func c41name(p *Program, r *Report) {
	h := newHelperRun(p, r, "HandlerName")
	if h == nil {
		return
	}
	it := h.it
	in := it.in
	chain := p.role.handlers
	ct := fieldType(p, chain)
	list := it.load(h.st, it.fieldAddr(h.ctx, chain, pointerTo(ct)), ct)
	// a handler runs: there is one
	n := in.lenOf(list)
	it.assume(h.st, in.lss(in.intc(0), n), true)
	for _, lf := range c06LenFields(p) {
		// the recorded length of the chain is its length (C06)
		h.st.mem[it.fieldAddr(h.ctx, lf, pointerTo(types.Typ[types.Int]))] = n
	}
	isLast := func(v *Expr) bool {
		v = strip(v)
		if v.Op != OpInit || v.Args[0].Op != OpIndexAddr || strip(v.Args[0].Args[0]) != strip(list) {
			return false
		}
		return v.Args[0].Args[1] == in.addc(n, -1) || it.truth(h.st, in.eq(v.Args[0].Args[1], in.addc(n, -1))) == 1
	}
	isFunc := func(s *State, v *Expr) bool { // v reflects a value known to be a function
		for f, t := range s.facts {
			if f.Op != OpBin || f.Name != "==" || !t {
				continue
			}
			k := strip(f.Args[0])
			c, ok := f.Args[1].constInt()
			if ok && c == int64(19) && k.Op == OpCall && strings.HasSuffix(k.Name, ").Kind") && (k.Args[0] == v || it.typeOfValue(v) != nil && k.Args[0] == it.typeOfValue(v)) {
				return true
			}
		}
		return false
	}
	it.hooks.Call = func(s *State, ev *CallEv) {
		if ev.Name != "(reflect.Value).Pointer" && ev.Name != "(reflect.Value).UnsafePointer" {
			return
		}
		r.ok("name", "pointer")
		if !isFunc(s, ev.Args[0]) {
			r.fail("name", "HandlerName kind", ev.Pos, s, "HandlerName asks for the pointer of a handler that may not be a function: it panics for a handler that is a struct")
		}
	}
	h.ends("name", "HandlerName", func(e *exit) string {
		v := strip(e.vals[0])
		from := false
		in.walk(v, func(x *Expr) bool {
			if isLast(x) {
				from = true
			}
			return true
		})
		if !from {
			return "it returns " + v.String() + ", which is not the name of the last handler"
		}
		return ""
	})
}

func c42(p *Program, r *Report) {
	h := newHelperRun(p, r, "SaveUploadedFile")
	if h == nil {
		return
	}
	it := h.it
	file, dst := h.args[1], h.args[2]
	h.st.facts[it.in.eq(file, it.in.zero(file.Typ))] = false
	isSrc := func(v *Expr) bool {
		c := openedBy(v)
		return c != nil && c.Name == "(*mime/multipart.FileHeader).Open" && strip(c.Args[0]) == file
	}
	const (
		wronly, rdwr, appnd = 1, 2, 0x400
		creat, excl, trunc  = 0x40, 0x80, 0x200
	)
	isDst := func(v *Expr) string { // "" if v is the destination, ready to be written
		c := openedBy(v)
		if c == nil {
			return "no file"
		}
		switch c.Name {
		case "os.Create":
			if strip(c.Args[0]) == dst {
				return ""
			}
		case "os.OpenFile":
			if strip(c.Args[0]) != dst {
				break
			}
			fl, ok := c.Args[1].constInt()
			switch {
			case !ok:
				return "opened with flags that are not known"
			case fl&(wronly|rdwr) == 0:
				return "opened for reading"
			case fl&creat == 0:
				return "not created if it is absent"
			case fl&(excl|trunc) == 0:
				return "not emptied"
			case fl&appnd != 0 && fl&(excl|trunc) == 0:
				return "appended to"
			}
			return ""
		}
		return c.String()
	}
	bad := func(s *State, m string) { s.auto["bad"] = m }
	it.hooks.Call = func(s *State, ev *CallEv) {
		if ev.Kind == "defer-stmt" || ev.Fn != nil && p.inModule(ev.Fn) {
			return
		}
		switch ev.Name {
		case "io.Copy", "io.CopyBuffer":
			if ev.Kind == "go" || ev.Kind == "defer" {
				bad(s, "the content is copied in the background")
				return
			}
			if m := isDst(ev.Args[0]); m != "" {
				bad(s, "the content is copied to something that is not the destination: "+m)
				return
			}
			if !isSrc(ev.Args[1]) {
				bad(s, "what is copied is "+ev.Args[1].String()+", not the upload")
				return
			}
			s.auto["copied"] += "1"
			return
		case "os.WriteFile", "io/ioutil.WriteFile":
			v := strip(ev.Args[1])
			if strip(ev.Args[0]) == dst && v.Op == OpExtract && v.Name == "0" && (v.Args[0].Name == "io.ReadAll" || v.Args[0].Name == "io/ioutil.ReadAll") && isSrc(v.Args[0].Args[0]) {
				s.auto["copied"] += "1"
			} else {
				bad(s, "something else than the upload is written")
			}
			return
		case "(*os.File).ReadFrom":
			if isDst(ev.Args[0]) == "" && isSrc(ev.Args[1]) {
				s.auto["copied"] += "1"
			} else {
				bad(s, "something else than the upload is written")
			}
			return
		case "io.ReadAll", "io/ioutil.ReadAll":
			return
		case "os.Rename", "os.Remove", "os.RemoveAll", "os.Truncate", "io.CopyN", "os.Link", "os.Symlink":
			s.auto["removed"] = ev.Name
			return
		}
		// other uses of the two files
		for i, a := range ev.Args {
			op := openedBy(a)
			if op == nil || op.Name != "os.Create" && op.Name != "os.OpenFile" && !isSrc(a) {
				continue
			}
			m := ev.Name[strings.LastIndex(ev.Name, ".")+1:]
			if ev.Invoke {
				m = ev.Method
			}
			switch m {
			case "Close", "Sync", "Chmod", "Stat", "Name", "Fd", "Chown":
			default:
				if i == 0 || !isSrc(a) {
					bad(s, "the file is also used by "+ev.Name+m)
				} else {
					bad(s, "the upload is also read by "+ev.Name+m)
				}
			}
		}
	}
	h.ends("save", "SaveUploadedFile", func(e *exit) string {
		if it.nilness(e.st, e.vals[0]) == -1 {
			return ""
		}
		switch {
		case e.st.auto["bad"] != "":
			return e.st.auto["bad"]
		case e.st.auto["removed"] != "":
			return "success although " + e.st.auto["removed"] + " was called"
		case e.st.auto["copied"] == "":
			return "it may succeed without having copied the upload"
		case e.st.auto["copied"] != "1":
			return "the upload is copied more than once"
		}
		return ""
	})
}
