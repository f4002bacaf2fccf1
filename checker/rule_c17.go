package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C17", "Static, StaticAdvance and StaticFile are interpreted; every normal return has appended a GET and a HEAD entry with one handler, under the given prefix and a wildcard. That handler is then interpreted with symbolic options: "+
		"every file is opened in the configured file system, under the cleaned, rooted value of that wildcard (or the index file below it); nothing else reaches a file; content comes from a file known to be opened, looked up and no directory; "+
		"a failed Open or Stat is answered with 404 and only that; a directory with a redirect to the same path with a slash, the index file or the listing of the same file system; "+
		"with an ETag mode set, 304 is sent exactly where If-None-Match is known to equal the tag set, which is made of the file's modification time and size, and content only where it is known to differ.",
		map[string]int{"route": 3, "open": 2, "content": 2, "not-found": 2, "listing": 1, "not-modified": 1, "file": 1}, c17)
}

type c17run struct {
	p    *Program
	r    *Report
	it   *Interp
	name string
	ctx  *Expr
	fs   *Expr // configured file system
	opt  *Expr
	key  string // name of the wildcard
	idx  *Expr  // configured index file
	etag *Expr  // configured mode
	reqF string
	file *Expr // path served by StaticFile
}

// parts lists the operands of a concatenation.
func concatParts(e *Expr) []*Expr {
	e = strip(e)
	if e.Op == OpBin && e.Name == "+" && isStringT(e.Typ) {
		return append(concatParts(e.Args[0]), concatParts(e.Args[1])...)
	}
	return []*Expr{e}
}

func isJoin(e *Expr) ([]*Expr, bool) {
	if e.Op == OpCall && (e.Name == "path.Join" || e.Name == "path/filepath.Join") {
		if len(e.Args) == 1 {
			if l := stripChange(e.Args[0]); l.Op == OpList {
				return l.Args, true
			}
			return nil, false
		}
		return e.Args, true
	}
	return nil, false
}

func isClean(e *Expr) (*Expr, bool) {
	if e.Op == OpCall && (e.Name == "path.Clean" || e.Name == "path/filepath.Clean") && len(e.Args) == 1 {
		return strip(e.Args[0]), true
	}
	return nil, false
}

// pieces lists what a path is made of, and whether it is cleaned.
func pieces(e *Expr) (out []*Expr, clean bool) {
	e = strip(e)
	if a, ok := isJoin(e); ok {
		for i, x := range a {
			if i > 0 {
				out = append(out, nil) // a slash
			}
			y, _ := pieces(x)
			out = append(out, y...)
		}
		return out, true
	}
	if x, ok := isClean(e); ok {
		out, _ = pieces(x)
		return out, true
	}
	if e.Op == OpBin && e.Name == "+" {
		for _, x := range concatParts(e) {
			y, _ := pieces(x)
			out = append(out, y...)
		}
		return out, false
	}
	return []*Expr{e}, false
}

// pathTokens lists the segments and slashes of a path; nil stands for a slash.
func (c *c17run) tokens(e *Expr) (out []*Expr, clean bool) {
	ps, clean := pieces(e)
	add := func(x *Expr) {
		if x == nil && len(out) > 0 && out[len(out)-1] == nil {
			return
		}
		out = append(out, x)
	}
	for _, x := range ps {
		if x == nil {
			add(nil)
			continue
		}
		v, ok := x.constStr()
		if !ok {
			add(x)
			continue
		}
		for i, seg := range strings.Split(v, "/") {
			if i > 0 {
				add(nil)
			}
			if seg != "" {
				add(c.it.str(seg))
			}
		}
	}
	return out, clean
}

// wild recognises the request's value of the wildcard.
func (c *c17run) wild(e *Expr) bool {
	if e == nil || e.Op != OpLookup || len(e.Args) < 2 {
		return false
	}
	k, ok := e.Args[1].constStr()
	if !ok || k != c.key {
		return false
	}
	m := stripChange(e.Args[0])
	return m.Op == OpInit && m.Args[0].Op == OpFieldAddr && m.Args[0].Args[0] == c.ctx
}

// pathOf classifies a path: the requested name, or the index file below it.
func (c *c17run) pathOf(e *Expr) string {
	t, clean := c.tokens(e)
	if !clean || len(t) < 2 || t[0] != nil || !c.wild(t[1]) {
		return ""
	}
	switch {
	case len(t) == 2:
		return "name"
	case len(t) == 4 && t[2] == nil && t[3] == c.idx:
		return "index"
	}
	return ""
}

// regs lists the entries a registering method appends.
func (c *c17run) regs(rr *regRun, sh *routerShape, s *State) []*Expr {
	x, ok := rr.it.registered(rr.field(c.p, s, rr.args[0], sh.sub), rr.old[sh.sub])
	if !ok {
		return nil
	}
	return x
}

func c17(p *Program, r *Report) {
	sh := p.shapeOf()
	if sh == nil {
		r.missing("what GET registers")
		return
	}
	for _, n := range []string{"StaticAdvance", "Static", "StaticFile"} {
		f := p.method(p.water, "Router", n)
		if f == nil || len(f.Params) < 2 {
			r.missing("Router." + n)
			continue
		}
		c17Root(p, r, sh, n, f)
	}
}

func c17Root(p *Program, r *Report, sh *routerShape, name string, f *ssa.Function) {
	c := &c17run{p: p, r: r, name: name}
	it := newInterp(p)
	c.it = it
	in := it.in
	for i := 0; i < p.role.ctxFields.NumFields(); i++ {
		if v := p.role.ctxFields.Field(i); typeKey(derefT(v.Type())) == "net/http.Request" {
			c.reqF = v.Name()
		}
	}
	st := it.initial()
	args := it.Params(f)
	for _, a := range args {
		if derefT(a.Typ) != nil {
			st.facts[in.eq(a, in.zero(a.Typ))] = false
		}
	}
	rr := &regRun{it: it, args: args, old: map[string]*Expr{}}
	for _, v := range p.routerFields() {
		rr.old[v.Name()] = it.load(st, it.fieldAddr(args[0], v.Name(), pointerTo(v.Type())), v.Type())
	}
	prefix := args[1]
	if c.reqF == "" {
		r.missing("request of the context")
		return
	}
	optT := p.named(p.water, "StaticOptions")
	var given func(s *State) bool // prepares the analysis of the handler
	optField := func(s *State, opt *Expr, n string) *Expr {
		st, ok := optT.Underlying().(*types.Struct)
		if !ok {
			return nil
		}
		for i := 0; i < st.NumFields(); i++ {
			if v := st.Field(i); v.Name() == n {
				return it.load(s, it.fieldAddr(opt, n, pointerTo(v.Type())), v.Type())
			}
		}
		return nil
	}
	switch name {
	case "StaticAdvance":
		if optT == nil || optField(st, args[1], "FileSystem") == nil || optField(st, args[1], "Prefix") == nil || optField(st, args[1], "IndexFile") == nil || optField(st, args[1], "ETag") == nil {
			r.missing("StaticOptions")
			return
		}
		ot := optT.Underlying().(*types.Struct)
		for i := 0; i < ot.NumFields(); i++ {
			// what only this package can set is unset before
			if v := ot.Field(i); !v.Exported() {
				it.store(st, it.fieldAddr(args[1], v.Name(), pointerTo(v.Type())), in.zero(v.Type()), "unset")
			}
		}
		prefix = optField(st, args[1], "Prefix")
		given = func(s *State) bool {
			c.fs, c.idx, c.etag = optField(s, args[1], "FileSystem"), optField(s, args[1], "IndexFile"), optField(s, args[1], "ETag")
			return true
		}
	case "Static":
		if len(args) != 3 {
			r.missing("Static(uri, root)")
			return
		}
		given = func(s *State) bool {
			c.fs, c.idx, c.etag = args[2], nil, nil
			return true
		}
	case "StaticFile":
		if len(args) != 3 {
			r.missing("StaticFile(path, file)")
			return
		}
		given = func(s *State) bool { c.file = args[2]; return true }
	}
	// registration
	it.hooks.Branch = func(s *State, fr *Frame, cond *Expr, taken bool, br ssa.Instruction) {
		if len(it.enclosing(fr.fn, br.Block())) == 0 && !loopHeads(fr.fn)[br.Block()] && c.idx == nil && mentionsField(cond, "IndexFile") {
			s.auto["reg"+p.pos(instrPos(br))] = b2s(taken)
		}
	}
	it.apart = 400
	exits := it.normal(f, st, args)
	it.apart = 0
	it.hooks = Hooks{}
	if len(exits) == 0 {
		r.missing("normal return of " + name)
	}
	done := map[string]bool{}
	for _, e := range exits {

		got := map[string]bool{}
		var hs []*Expr
		pats := map[*Expr]bool{}
		for _, x := range c.regs(rr, sh, e.st) {
			m, _ := rr.field(p, e.st, x, sh.method).constStr()
			pat := rr.field(p, e.st, x, sh.pattern)
			l := stripChange(it.snapshot(e.st, rr.field(p, e.st, x, sh.handlers)))
			if l.Op != OpList || len(l.Args) != 1 {
				r.fail("route", name+"-handlers", e.pos, e.st, "%s registers a route whose handlers are not one static handler", name)
				return
			}
			if rr.field(p, e.st, x, sh.parent) != args[0] {
				r.fail("route", name+"-parent", e.pos, e.st, "%s registers a route that is not the router's own", name)
			}
			if got[m] {
				r.fail("route", name+"-twice", e.pos, e.st, "%s registers %s twice", name, m)
			}
			got[m] = true
			hs = append(hs, stripIface(strip(l.Args[0])))
			pats[pat] = true
			if name == "StaticFile" {
				if pat != prefix {
					r.fail("route", name+"-pattern", e.pos, e.st, "%s registers another path than the given one", name)
				}
				continue
			}
			ts, _ := c.tokens(pat)
			k := len(ts)
			last, isC := "", false
			if k > 1 && ts[k-1] != nil && ts[k-2] == nil {
				last, isC = ts[k-1].constStr()
			}
			if !isC || !strings.HasPrefix(last, "*") {
				r.fail("route", name+"-wildcard", e.pos, e.st, "the pattern registered by %s does not end with a wildcard segment", name)
				return
			}
			c.key = last[1:]
			if c.key == "" {
				c.key = "*0"
			}
			if it.empty(e.st, prefix) != 1 && !it.reachesExpr(e.st, pat, prefix) {
				r.fail("route", name+"-prefix", e.pos, e.st, "%s does not register its routes under the given prefix", name)
			}
			if r.ok("rooted", name); !c.rooted(e.st, ts, prefix) {
				r.fail("rooted", name, e.pos, e.st, "%s may register its routes under a pattern that does not begin with a slash, which no router accepts: %s", name, pat)
			}
		}
		r.ok("route", name)
		for _, m := range []string{"GET", "HEAD"} {
			if !got[m] {
				r.fail("route", name+"-"+m, e.pos, e.st, "%s does not register its route for %s", name, m)
			}
		}
		if len(pats) > 1 {
			r.fail("route", name+"-patterns", e.pos, e.st, "%s registers different paths for its methods", name)
		}
		for i, h := range hs {
			again := false
			for j := 0; j < i; j++ {
				again = again || hs[j] == h
			}
			if again {
				continue
			}
			s := e.st.clone()
			given(s)
			if c.key != "" || c.file != nil {
				k := h.String() + itoa(h.ID) + c.key + itoa(it.emptyKnown(s, c.idx))
				if !done[k] {
					done[k] = true
					c.handler(h, s)
				}
			}
		}
	}
	r.absorb(it, name)
}

func b2s(b bool) string {
	if b {
		return "1"
	}
	return "0"
}

func mentionsField(e *Expr, f string) bool {
	found := false
	var rec func(e *Expr)
	rec = func(e *Expr) {
		if e == nil || found {
			return
		}
		if (e.Op == OpFieldAddr || e.Op == OpField) && e.Name == f {
			found = true
			return
		}
		for _, a := range e.Args {
			rec(a)
		}
	}
	rec(e)
	return found
}

// rooted: the path made of ts begins with a slash.
func (c *c17run) rooted(s *State, ts []*Expr, prefix *Expr) bool {
	if len(ts) == 0 {
		return false
	}
	x := ts[0]
	if x == nil {
		return true
	}
	x = strip(x)
	if x.Op == OpCall && (strings.HasPrefix(x.Name, "strings.Trim")) && len(x.Args) > 0 {
		// what is cut off at the end leaves the slash or nothing
		if x.Name == "strings.TrimRight" || x.Name == "strings.TrimSuffix" {
			in, _ := c.tokens(x.Args[0])
			return c.rooted(s, append(in, ts[1:]...), prefix)
		}
		return false
	}
	if c.it.empty(s, x) == 1 {
		return c.rooted(s, ts[1:], prefix)
	}
	return c.it.firstSlash(s, x)
}

// firstSlash: the text x is known to begin with a slash.
func (it *Interp) firstSlash(s *State, x *Expr) bool {
	slash := func(e *Expr) bool {
		if v, ok := e.constStr(); ok {
			return v == "/"
		}
		k, ok := e.constInt()
		return ok && k == '/'
	}
	for f, v := range s.facts {
		if !v {
			continue
		}
		switch {
		case f.Op == OpCall && f.Name == "strings.HasPrefix" && len(f.Args) == 2:
			if c, ok := f.Args[1].constStr(); ok && strings.HasPrefix(c, "/") && strip(f.Args[0]) == x {
				return true
			}
		case f.Op == OpBin && f.Name == "==" && len(f.Args) == 2:
			for i, a := range f.Args {
				b := f.Args[1-i]
				if !slash(strip(a)) {
					continue
				}
				b = strip(b)
				if b.Op == OpIndex && strip(b.Args[0]) == x {
					if k, ok := b.Args[1].constInt(); ok && k == 0 {
						return true
					}
				}
				if b.Op == OpSlice && strip(b.Args[0]) == x && (b.Args[1] == nil || b.Args[1] == it.in.intc(0)) && b.Args[2] == it.in.intc(1) {
					return true
				}
			}
		}
	}
	return false
}

func (it *Interp) emptyKnown(s *State, e *Expr) int {
	if e == nil {
		return 0
	}
	return it.empty(s, e) + 1
}

func (it *Interp) reachesExpr(s *State, e, want *Expr) bool {
	return it.in.mentions(e, func(x *Expr) bool { return x == want })
}

// handler analyses one static handler.
func (c *c17run) handler(h *Expr, s *State) {
	p, r, it, in := c.p, c.r, c.it, c.it.in
	name := c.name
	c.ctx = it.param("ctx", pointerTo(p.role.ctx))
	s.facts[in.eq(c.ctx, in.zero(c.ctx.Typ))] = false
	reqT := fieldType(p, c.reqF)
	req := it.load(s, it.fieldAddr(c.ctx, c.reqF, pointerTo(reqT)), reqT)
	s.facts[in.eq(req, in.zero(req.Typ))] = false
	reqField := func(s *State, req *Expr, n string) *Expr {
		st := derefT(reqT).Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if f := st.Field(i); f.Name() == n {
				return it.load(s, it.fieldAddr(req, n, pointerTo(f.Type())), f.Type())
			}
		}
		return nil
	}
	pathOfURL := func(s *State, req *Expr) *Expr {
		u := reqField(s, req, "URL")
		st := derefT(u.Typ).Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if f := st.Field(i); f.Name() == "Path" {
				return it.load(s, it.fieldAddr(u, "Path", pointerTo(f.Type())), f.Type())
			}
		}
		return nil
	}
	url0 := reqField(s, req, "URL")
	s.facts[in.eq(url0, in.zero(url0.Typ))] = false
	reqPath, method := pathOfURL(s, req), reqField(s, req, "Method")
	for i := 0; i < p.role.ctxFields.NumFields(); i++ {
		if f := p.role.ctxFields.Field(i); f.Name() == p.role.written {
			it.store(s, it.fieldAddr(c.ctx, f.Name(), pointerTo(f.Type())), in.boolc(false), "unsent")
		}
	}
	same := func(e *Expr) bool {
		if c.name == "StaticAdvance" {
			return strip(e) == strip(c.fs)
		}
		// http.Dir(root)
		isDir := false
		for e.Op == OpChange || e.Op == OpConv || e.Op == OpIface {
			isDir = isDir || typeKey(e.Typ) == "net/http.Dir"
			e = e.Args[0]
		}
		return isDir && e == c.fs
	}
	errT := types.Universe.Lookup("error").Type()
	errOf := func(s *State, call *Expr) int { // 1 known nil
		e := it.extract(call, 1, errT)
		return it.truth(s, in.eq(e, in.zero(errT)))
	}
	first := func(e *Expr) *Expr {
		e = stripIface(strip(e))
		if e.Op == OpExtract && e.Name == "0" {
			return e.Args[0]
		}
		return nil
	}
	has := func(s *State, l string, x *Expr) int {
		for i, y := range s.lists[l] {
			if y == x {
				return i
			}
		}
		return -1
	}
	// what is known about a file
	statOf := func(s *State, file *Expr) *Expr {
		for i, x := range s.lists["statf"] {
			if x == file && errOf(s, s.lists["stat"][i]) == 1 {
				return s.lists["stat"][i]
			}
		}
		return nil
	}
	fileOfInfo := func(s *State, fi *Expr) *Expr {
		c := first(fi)
		if i := has(s, "stat", c); c != nil && i >= 0 {
			return s.lists["statf"][i]
		}
		return nil
	}
	dir := func(s *State, file *Expr) int {
		for i, x := range s.lists["dirf"] {
			if x == file {
				if t := it.truth(s, s.lists["dir"][i]); t != 0 {
					return t
				}
			}
		}
		return 0
	}
	sent := func(s *State, ev *CallEv, what string) {
		if s.auto["sent"] != "" {
			r.fail("answer", name+"-twice", ev.Pos, s, "a request is answered twice: %s after %s", what, s.auto["sent"])
		}
		s.auto["sent"] += what
	}
	request := func(s *State, ev *CallEv, q *Expr) bool {
		if strip(q) != req && reqField(s, strip(q), "Method") != method {
			r.fail("answer", name+"-request", ev.Pos, s, "%s is given a request with another method", shortName(ev.Name))
			return false
		}
		return true
	}
	nameFile := func(s *State) *Expr { // the file opened under the requested name
		for i, k := range s.lists["kind"] {
			if v, _ := k.constStr(); v == "name" {
				return s.lists["open"][i]
			}
		}
		return nil
	}
	matches := func(s *State) int {
		tags := s.lists["etag"]
		if len(tags) == 0 {
			return 0
		}
		for _, x := range s.lists["inm"] {
			if t := it.truth(s, in.eq(x, tags[len(tags)-1])); t != 0 {
				return t
			}
		}
		return 0
	}
	it.hooks = Hooks{}
	it.hooks.After = func(s *State, ev *CallEv, res *Expr) {
		if ev.Kind == "defer-stmt" || res == nil || len(ev.Args) == 0 {
			return
		}
		m := ev.Method
		if m == "" {
			m = ev.Name[strings.LastIndex(ev.Name, ".")+1:]
		}
		switch {
		case m == "Open" && len(ev.Args) == 2 && ev.Fn == nil && isTuple2(res):
			s.push("open", res)
			k := c.pathOf(ev.Args[1])
			s.push("kind", it.str(k))
			s.auto["open"+k] += "1"
		case m == "Stat" && len(ev.Args) == 1 && isTuple2(res):
			if f := first(ev.Args[0]); f != nil && has(s, "open", f) >= 0 {
				s.push("stat", res)
				s.push("statf", f)
			}
		case m == "IsDir" && len(ev.Args) == 1:
			fi := strip(ev.Args[0])
			if (fi.Op == OpRes || fi.Op == OpCall) && strings.HasSuffix(fi.Name, "Mode") && len(fi.Args) == 1 {
				fi = fi.Args[0]
			}
			if f := fileOfInfo(s, fi); f != nil {
				s.push("dir", res)
				s.push("dirf", f)
			}
		case ev.Name == "(net/http.Header).Get" && len(ev.Args) == 2:
			if v, ok := ev.Args[1].constStr(); ok && strings.EqualFold(v, "If-None-Match") && !it.isRespHeader(ev.Args[0]) {
				s.push("inm", res)
			}
		}
	}
	it.hooks.Call = func(s *State, ev *CallEv) {
		if ev.Fn != nil && !ev.Cut || ev.Kind == "defer-stmt" {
			return
		}
		if key, vals, op := it.headerWrite(ev); op != "" {
			if k, ok := key.constStr(); ok && strings.EqualFold(k, "ETag") && len(vals) == 1 {
				file := nameFile(s)
				if !c.tag(s, vals[0], file, first) {
					r.fail("tag", name, ev.Pos, s, "the ETag is not made of the modification time and size of the file served")
				}
				s.push("etag", vals[0])
			}
			return
		}
		m := ev.Method
		if m == "" {
			m = ev.Name[strings.LastIndex(ev.Name, ".")+1:]
		}
		pk := pkgOf(ev.Name)
		switch {
		case m == "Open" && len(ev.Args) == 2 && !strings.HasPrefix(ev.Name, "os."):
			r.ok("open", name+p.pos(ev.Pos))
			if !same(ev.Args[0]) {
				r.fail("open", name+"-fs", ev.Pos, s, "a file is not opened in the configured file system")
			}
			if c.pathOf(ev.Args[1]) == "" {
				r.fail("open", name+"-name", ev.Pos, s, "the name opened is not the cleaned, rooted value of the request's wildcard: %v", ev.Args[1])
			}
		case ev.Name == "net/http.ServeFile" || ev.Name == "net/http.ServeFileFS":
			r.ok("file", name+p.pos(ev.Pos))
			if c.file == nil || len(ev.Args) != 3 || strip(ev.Args[2]) != c.file {
				r.fail("file", name, ev.Pos, s, "a file outside the configured file system is served")
			}
			request(s, ev, ev.Args[1])
			sent(s, ev, "file")
		case ev.Name == "net/http.ServeContent":
			r.ok("content", name+p.pos(ev.Pos))
			request(s, ev, ev.Args[1])
			f := first(ev.Args[4])
			i := -1
			if f != nil {
				i = has(s, "open", f)
			}
			switch {
			case i < 0:
				r.fail("content", name+"-source", ev.Pos, s, "content is served that is not a file of the configured file system")
			case errOf(s, f) != 1:
				r.fail("content", name+"-open", ev.Pos, s, "content is served although opening the file may have failed")
			case statOf(s, f) == nil:
				r.fail("content", name+"-stat", ev.Pos, s, "content is served although looking the file up may have failed")
			case dir(s, f) != -1:
				r.fail("content", name+"-dir", ev.Pos, s, "a directory may be served as content")
			default:
				k, _ := s.lists["kind"][i].constStr()
				if k == "name" && c.etag != nil {
					off := it.truth(s, in.eq(c.etag, in.zero(c.etag.Typ)))
					if len(s.lists["etag"]) == 0 && off != 1 {
						r.fail("tag", name+"-missing", ev.Pos, s, "content is served without its ETag although a mode may be set")
					}
					if len(s.lists["etag"]) > 0 && matches(s) != -1 {
						r.fail("not-modified", name+"-content", ev.Pos, s, "content is served although If-None-Match may equal its ETag")
					}
				}
				if k == "index" {
					if n := nameFile(s); n == nil || dir(s, n) != 1 {
						r.fail("content", name+"-index", ev.Pos, s, "the index file is served for what may be no directory")
					}
				}
			}
			// the date comes from the same file
			if t := strip(ev.Args[3]); !((t.Op == OpRes || t.Op == OpCall) && strings.HasSuffix(t.Name, "ModTime") && len(t.Args) == 1 && f != nil && fileOfInfo(s, t.Args[0]) == f) {
				r.fail("content", name+"-date", ev.Pos, s, "content is served with a date that is not the file's")
			}
			sent(s, ev, "content")
		case ev.Name == "net/http.Redirect":
			n := nameFile(s)
			if n == nil || dir(s, n) != 1 || it.truth(s, c.slash(reqPath)) != -1 {
				r.fail("answer", name+"-redirect", ev.Pos, s, "a request is redirected that is not for a directory without its slash")
			}
			ps := concatParts(ev.Args[2])
			if v, ok := ps[len(ps)-1].constStr(); !ok || !strings.HasSuffix(v, "/") || !it.reachesExpr(s, ev.Args[2], reqPath) {
				r.fail("answer", name+"-target", ev.Pos, s, "the redirection does not lead to the requested path with a slash")
			}
			sent(s, ev, "redirect")
		case ev.Name == "net/http.FileServer":
			if !same(ev.Args[0]) {
				r.fail("listing", name+"-fs", ev.Pos, s, "a listing does not come from the configured file system")
			}
		case m == "ServeHTTP" && len(ev.Args) == 3:
			r.ok("listing", name+p.pos(ev.Pos))
			fsv := stripIface(strip(ev.Args[0]))
			if !((fsv.Op == OpRes || fsv.Op == OpCall) && fsv.Name == "net/http.FileServer") {
				r.fail("listing", name+"-server", ev.Pos, s, "the request is handed to another handler than a file server of the configured file system")
			}
			n := nameFile(s)
			if n == nil || dir(s, n) != 1 {
				r.fail("listing", name+"-dir", ev.Pos, s, "a listing is sent for what may be no directory")
			}
			if c.idx != nil && it.empty(s, c.idx) != 1 {
				r.fail("listing", name+"-index", ev.Pos, s, "a listing is sent although an index file may be configured")
			}
			if request(s, ev, ev.Args[2]) {
				up := pathOfURL(s, strip(ev.Args[2]))
				if !c.listed(up) {
					r.fail("listing", name+"-path", ev.Pos, s, "the listing is not that of the requested directory: %v", up)
				}
			}
			sent(s, ev, "listing")
		case m == "WriteHeader" && len(ev.Args) == 2 && (it.isRaw(ev.Args[0]) || ev.Invoke):
			k, ok := ev.Args[1].constInt()
			switch {
			case ok && k == 404:
				sent(s, ev, "404")
			case ok && k == 304:
				r.ok("not-modified", name+p.pos(ev.Pos))
				if matches(s) != 1 {
					r.fail("not-modified", name, ev.Pos, s, "304 is sent although If-None-Match is not known to equal the ETag")
				}
				sent(s, ev, "304")
			default:
				r.fail("answer", name+"-status", ev.Pos, s, "a static request is answered with status %v", ev.Args[1])
			}
		case ev.Name == "net/http.NotFound":
			sent(s, ev, "404")
		case ev.Name == "net/http.Error":
			if k, ok := ev.Args[2].constInt(); ok && k == 404 {
				sent(s, ev, "404")
			} else {
				r.fail("answer", name+"-status", ev.Pos, s, "a static request is answered with status %v", ev.Args[2])
			}
		case c.rawBody(ev) && s.auto["sent"] == "404":
			for _, a := range ev.Args[1:] {
				if _, ok := stripConv(a).constStr(); !ok && a.Op != OpConst {
					r.fail("content", name+"-body", ev.Pos, s, "a body is sent that comes from no file of the configured file system")
				}
			}
		case c.rawBody(ev):
			r.fail("content", name+"-body", ev.Pos, s, "a body is sent that comes from no file of the configured file system")
		case pk == "os" || pk == "io/ioutil" || pk == "syscall" || ev.Name == "path/filepath.EvalSymlinks" || ev.Name == "path/filepath.Abs" || ev.Name == "path/filepath.Glob":
			r.fail("open", name+"-os", ev.Pos, s, "the handler reaches files outside the configured file system: %s", ev.Name)
		}
	}
	for _, e := range it.RunValue(h, s, []*Expr{c.ctx}) {
		if e.panic {
			continue
		}
		s := e.st
		ans := s.auto["sent"]
		failed, unsure := false, false
		n := nameFile(s)
		for _, o := range s.lists["open"] {
			switch errOf(s, o) {
			case -1:
				failed = true
			case 0:
				unsure = true
			}
		}
		for i, o := range s.lists["stat"] {
			switch errOf(s, o) {
			case -1:
				failed = true
			case 0:
				// nothing may be known of a file that is a directory anyway
				unsure = unsure || s.lists["statf"][i] == n
			}
		}
		r.ok("answer", name+ans)
		if c.file != nil {
			if ans != "file" {
				r.fail("answer", name, e.pos, s, "a request for the file is not answered with it")
			}
			continue
		}
		subDir := false
		for _, o := range s.lists["open"] {
			if o != n && dir(s, o) == 1 {
				subDir = true
			}
		}
		switch {
		case n == nil:
			r.fail("answer", name+"-unopened", e.pos, s, "a request is answered without opening the file it names")
		case failed || subDir:
			r.ok("not-found", name+p.pos(e.pos)+itoa(len(s.lists["open"]))+itoa(len(s.lists["stat"])))
			if ans != "404" {
				r.fail("not-found", name, e.pos, s, "a file that cannot be opened or looked up is answered with %q, not 404", ans)
			}
		case unsure:
			r.fail("answer", name+"-unchecked", e.pos, s, "a file is not checked for having been opened and looked up")
		case ans == "404":
			r.fail("answer", name+"-404", e.pos, s, "a file that exists is answered with 404")
		case ans == "":
			r.fail("answer", name+"-none", e.pos, s, "a request is not answered")
		case ans == "content" || ans == "304":
		case dir(s, n) == 1 && (ans == "redirect" || ans == "listing"):
		default:
			r.fail("answer", name+"-kind", e.pos, s, "a request is answered with %q although the file may be no directory", ans)
		}
	}
	it.hooks = Hooks{}
}

func isTuple2(e *Expr) bool {
	t, ok := e.Typ.(*types.Tuple)
	return ok && t.Len() == 2
}

// slash is the condition that a path ends with a slash.
func (c *c17run) slash(path *Expr) *Expr {
	return c.it.in.mk(Expr{Op: OpCall, Name: "strings.HasSuffix", Args: []*Expr{path, c.it.str("/")}, Typ: types.Typ[types.Bool]})
}

func (c *c17run) rawBody(ev *CallEv) bool {
	if len(ev.Args) == 0 {
		return false
	}
	m := ev.Method
	if m == "" {
		m = ev.Name[strings.LastIndex(ev.Name, ".")+1:]
	}
	for i, a := range ev.Args {
		if a == nil || a.Typ == nil {
			continue
		}
		w := c.it.isRaw(a) || stripIface(strip(a)) == c.ctx
		if w && (i > 0 || m == "Write" || m == "WriteString" || m == "ReadFrom") {
			return true
		}
	}
	return false
}

// statIs reports whether fi is what looking up file gave.
func (c *c17run) statIs(s *State, fi, file *Expr, first func(*Expr) *Expr) bool {
	x := first(fi)
	for i, y := range s.lists["stat"] {
		if y == x {
			return s.lists["statf"][i] == file
		}
	}
	return false
}

// tag reports whether v is made of the modification time and size of file.
func (c *c17run) tag(s *State, v, file *Expr, first func(*Expr) *Expr) bool {
	for _, m := range []string{"ModTime", "Size"} {
		if !c.it.in.mentions(v, func(x *Expr) bool {
			return (x.Op == OpRes || x.Op == OpCall) && strings.HasSuffix(x.Name, m) && len(x.Args) == 1 && c.statIs(s, x.Args[0], file, first)
		}) {
			return false
		}
	}
	return true
}

// listed reports whether a path handed to a file server names the requested directory.
func (c *c17run) listed(e *Expr) bool {
	e = strip(e)
	ps := concatParts(e)
	if len(ps) == 2 {
		if v, ok := ps[1].constStr(); ok && v == "/" {
			e = strip(ps[0])
		}
	}
	for e.Op == OpCall && (e.Name == "strings.TrimRight" || e.Name == "strings.TrimSuffix") {
		if v, ok := e.Args[1].constStr(); !ok || v != "/" {
			break
		}
		e = strip(e.Args[0])
	}
	return c.pathOf(e) == "name"
}
