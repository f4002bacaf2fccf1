package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C26", "Download and Attachment are interpreted with symbolic names and flags. Every value written to the Content-Disposition response header is flattened (concatenation, Sprintf, Join) into constants and expressions: "+
		"it must be the type, then filename and filename* parameters each holding url.PathEscape of the file's (or caller's) name, or the bare type where the name is known empty; "+
		"the type must be inline where the flag is known given and true, attachment where it is known absent or false. No other function may write the header.",
		map[string]int{"disposition": 4, "writers": 1}, c26)
	register("C35", "Download is interpreted with every outcome of opening, inspecting and the directory test. A returned error must be known non-nil, justified by a failed open, a failed inspection or a directory, on a path that wrote no header and sent nothing; "+
		"a nil return requires all three known good, the disposition and the six transfer headers set, and then exactly one http.ServeContent on the context, its request, the file's name and modification time and the opened file itself, not read, moved or closed before. "+
		"Attachment: the disposition set and then exactly one http.ServeContent with the caller's name, time and content.",
		map[string]int{"refused": 3, "accepted": 1, "attachment": 1}, c35)
}

// piece is a part of a flattened string: a constant or an expression.
type piece struct {
	text string
	e    *Expr
}

// flatten splits a string expression into constants and other strings.
func flatten(e *Expr) []piece {
	var out []piece
	add := func(ps ...piece) {
		for _, p := range ps {
			if p.e == nil && p.text == "" {
				continue
			}
			if n := len(out); p.e == nil && n > 0 && out[n-1].e == nil {
				out[n-1].text += p.text
				continue
			}
			out = append(out, p)
		}
	}
	e0 := e
	for e.Op == OpIface || e.Op == OpChange || e.Op == OpConv && isStringT(e.Typ) && isStringT(e.Args[0].Typ) {
		e = e.Args[0]
	}
	if c, ok := e.constStr(); ok {
		add(piece{text: c})
		return out
	}
	switch {
	case e.Op == OpBin && e.Name == "+":
		add(flatten(e.Args[0])...)
		add(flatten(e.Args[1])...)
	case e.Op == OpCall && e.Name == "fmt.Sprintf":
		f, ok := e.Args[0].constStr()
		if !ok {
			return []piece{{e: e0}}
		}
		args := e.Args[1:]
		n := 0
		for f != "" {
			i := strings.IndexByte(f, '%')
			if i < 0 || i+1 >= len(f) {
				add(piece{text: f})
				break
			}
			add(piece{text: f[:i]})
			v := f[i+1]
			f = f[i+2:]
			if v == '%' {
				add(piece{text: "%"})
				continue
			}
			if v != 's' && v != 'v' || n >= len(args) || !isStringT(strip(args[n]).Typ) {
				return []piece{{e: e0}}
			}
			add(flatten(args[n])...)
			n++
		}
		if n != len(args) {
			return []piece{{e: e0}}
		}
	case e.Op == OpCall && (e.Name == "fmt.Sprint"):
		for _, a := range e.Args {
			if !isStringT(strip(a).Typ) {
				return []piece{{e: e0}}
			}
			add(flatten(a)...)
		}
	case e.Op == OpCall && e.Name == "strings.Join" && e.Args[0].Op == OpList:
		sep, ok := e.Args[1].constStr()
		if !ok {
			return []piece{{e: e0}}
		}
		for i, a := range e.Args[0].Args {
			if i > 0 {
				add(piece{text: sep})
			}
			add(flatten(a)...)
		}
	default:
		add(piece{e: e})
	}
	return out
}

// headerSet recognises a header written through a method or as a map entry.
type headerSet struct {
	key string
	val *Expr
	op  string
}

func (it *Interp) headerSetOf(ev *CallEv) *headerSet {
	key, vals, op := it.headerWrite(ev)
	if op == "" {
		return nil
	}
	k, _ := key.constStr()
	h := &headerSet{key: canonicalHeader(k), op: op}
	if len(vals) == 1 {
		h.val = vals[0]
	}
	return h
}

// headerEntry recognises a response header changed as a map entry.
func (it *Interp) headerEntry(s *State, m, k, v *Expr) *headerSet {
	if !it.isRespHeader(m) {
		return nil
	}
	c, _ := k.constStr()
	h := &headerSet{key: c, op: "Set"}
	if v == nil {
		h.op = "Del"
	} else if l := it.snapshot(s, v); l.Op == OpList && len(l.Args) == 1 {
		h.val = l.Args[0]
	}
	return h
}

const hdrDisposition = "Content-Disposition"

// openResult returns the call that opened the file e is, and its other result.
func openedBy(e *Expr) *Expr {
	e = strip(e)
	if e != nil && e.Op == OpExtract && e.Name == "0" && (e.Args[0].Op == OpRes || e.Args[0].Op == OpCall) {
		return e.Args[0]
	}
	return nil
}

// download describes the interpretation of Download or Attachment.
type download struct {
	p      *Program
	it     *Interp
	ctx    *Expr
	args   []*Expr
	path   *Expr
	name   *Expr
	inline *Expr
}

func (d *download) isOpen(res *Expr) bool {
	if res == nil || len(res.Args) == 0 {
		return false
	}
	switch res.Name {
	case "os.Open":
		return res.Args[0] == d.path
	case "os.OpenFile":
		k, ok := res.Args[1].constInt()
		return res.Args[0] == d.path && ok && k == 0
	}
	return false
}

// isStat reports whether res is the result of inspecting the file.
func (d *download) isStat(res *Expr) bool {
	if res == nil || len(res.Args) == 0 {
		return false
	}
	switch res.Name {
	case "(*os.File).Stat":
		return d.isOpen(openedBy(res.Args[0]))
	case "os.Stat":
		return res.Args[0] == d.path
	}
	return false
}

func (d *download) isInfo(e *Expr, m string) bool {
	e = strip(e)
	return e != nil && (e.Op == OpCall || e.Op == OpRes) && e.Name == "(io/fs.FileInfo)."+m && d.isStat(openedBy(e.Args[0]))
}

// isName reports whether e is the name of the served content.
func (d *download) isName(e *Expr) bool {
	e = strip(e)
	if d.name != nil {
		return e == d.name
	}
	if d.isInfo(e, "Name") {
		return true
	}
	return e.Op == OpCall && e.Name == "path/filepath.Base" && e.Args[0] == d.path
}

func (d *download) isDirCall(e *Expr) bool {
	if d.isInfo(e, "IsDir") {
		return true
	}
	e = strip(e)
	return e.Op == OpCall && e.Name == "(io/fs.FileMode).IsDir" && d.isInfo(e.Args[0], "Mode")
}

// wantsInline decides the flag: 1 inline, -1 attachment, 0 unknown.
func (d *download) wantsInline(s *State) int {
	it := d.it
	n := it.truth(s, it.in.lss(it.in.lenOf(d.inline), it.in.intc(1)))
	b := types.Typ[types.Bool]
	v := it.truth(s, it.load(s, it.indexAddr(d.inline, it.in.intc(0), b), b))
	switch {
	case n == 1 || n == -1 && v == -1:
		return -1
	case n == -1 && v == 1:
		return 1
	}
	return 0
}

// dispositionOK explains what is wrong with the value of the header.
func (d *download) dispositionOK(s *State, v *Expr) string {
	it := d.it
	var typ string
	ps := flatten(v)
	if len(ps) == 0 || ps[0].e != nil {
		return "its type is not a constant"
	}
	escaped := func(p piece) *Expr {
		if p.e != nil && p.e.Op == OpCall && p.e.Name == "net/url.PathEscape" {
			return p.e.Args[0]
		}
		return nil
	}
	switch {
	case len(ps) == 1:
		typ = ps[0].text
		// the name must be known empty
		ok := false
		if d.name != nil {
			ok = it.empty(s, d.name) == 1
		} else {
			for _, x := range it.in.byID {
				if d.isName(x) && isStringT(x.Typ) && it.empty(s, x) == 1 {
					ok = true
				}
			}
		}
		if !ok {
			return "the file name is missing although it may not be empty"
		}
	case len(ps) == 4 && ps[2].text == `"; filename*=UTF-8''`:
		var ok bool
		typ, ok = strings.CutSuffix(ps[0].text, `; filename="`)
		if !ok {
			return "it does not have the documented structure"
		}
		for _, i := range []int{1, 3} {
			n := escaped(ps[i])
			if n == nil {
				return "it contains " + ps[i].e.String() + ", which is not percent-escaped"
			}
			if !d.isName(n) {
				return "it names " + n.String() + " instead of the file"
			}
		}
	default:
		for _, q := range ps {
			if q.e != nil && escaped(q) == nil {
				return "it contains " + q.e.String() + ", which is not percent-escaped"
			}
		}
		return "it does not have the documented structure"
	}
	want := map[int]string{1: "inline", -1: "attachment"}[d.wantsInline(s)]
	switch {
	case want == "":
		return "its type does not depend on the caller's flag"
	case want != typ:
		return "its type is " + typ + ", the caller asks for " + want
	}
	return ""
}

func (p *Program) newDownload(r *Report, name string) *download {
	fn := p.method(p.water, "Context", name)
	if fn == nil {
		r.missing("Context." + name)
		return nil
	}
	d := &download{p: p, it: newInterp(p)}
	d.args = d.it.Params(fn)
	d.ctx = d.args[0]
	for _, a := range d.args {
		if sl, ok := a.Typ.Underlying().(*types.Slice); ok && types.Identical(sl.Elem(), types.Typ[types.Bool]) {
			d.inline = a
		}
		if isStringT(a.Typ) {
			if name == "Download" {
				d.path = a
			} else {
				d.name = a
			}
		}
	}
	if d.inline == nil || d.path == nil && d.name == nil {
		r.missing("parameters of Context." + name)
		return nil
	}
	return d
}

func (d *download) run() []exit {
	fn := d.p.method(d.p.water, "Context", map[bool]string{true: "Download", false: "Attachment"}[d.path != nil])
	st := d.it.initial()
	st.facts[d.it.in.eq(d.ctx, d.it.in.zero(d.ctx.Typ))] = false
	return d.it.startWith(fn, st, d.args)
}

func c26(p *Program, r *Report) {
	seen := map[*ssa.Function]bool{}
	for _, name := range []string{"Download", "Attachment"} {
		d := p.newDownload(r, name)
		if d == nil {
			continue
		}
		write := func(s *State, pos token.Pos, h *headerSet) {
			if h.key == "" && h.val != nil && !d.it.in.mentions(h.val, d.isName) {
				return // some other header
			}
			r.ok("disposition", name+itoa(int(d.it.in.intc(int64(d.wantsInline(s))).ID)))
			if h.op != "Set" || h.val == nil {
				r.fail("disposition", name, pos, s, "%s: the disposition header is changed with %s", name, h.op)
				return
			}
			if m := d.dispositionOK(s, h.val); m != "" {
				r.fail("disposition", name, pos, s, "%s writes the disposition %s: %s", name, h.val, m)
			}
		}
		d.it.hooks.Call = func(s *State, ev *CallEv) {
			if h := d.it.headerSetOf(ev); h != nil && (h.key == "" || h.key == hdrDisposition) {
				write(s, ev.Pos, h)
			}
		}
		d.it.hooks.MapUpdate = func(s *State, fr *Frame, m, k, v *Expr, instr ssa.Instruction) {
			h := d.it.headerEntry(s, m, k, v)
			if h == nil || h.key != "" && h.key != hdrDisposition {
				return
			}
			write(s, instr.Pos(), h)
		}
		d.run()
		r.absorb(d.it, name)
		for f := range d.it.funcs {
			seen[f] = true
		}
	}
	// nobody else writes the header
	for _, f := range p.Funcs() {
		if seen[f] || !p.inModule(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var key ssa.Value
				switch x := in.(type) {
				case ssa.CallInstruction:
					if g := x.Common().StaticCallee(); g != nil && len(x.Common().Args) > 1 {
						switch fullName(g) {
						case "(net/http.Header).Set", "(net/http.Header).Add":
							key = x.Common().Args[1]
						}
					}
				case *ssa.MapUpdate:
					key = x.Key
				}
				if c, ok := key.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String && canonicalHeader(constant.StringVal(c.Value)) == hdrDisposition {
					r.fail("writers", p.fnName(f), in.Pos(), nil, "%s writes the disposition header as well", p.fnName(f))
				}
			}
		}
		r.ok("writers", "all")
	}
}

var transferHeaders = map[string]string{
	"Content-Description": "File Transfer", "Content-Type": "application/octet-stream", "Content-Transfer-Encoding": "binary",
	"Expires": "0", "Cache-Control": "must-revalidate", "Pragma": "public",
}

func c35(p *Program, r *Report) {
	for _, name := range []string{"Download", "Attachment"} {
		d := p.newDownload(r, name)
		if d == nil {
			continue
		}
		c35one(p, r, d, name)
	}
}

func c35one(p *Program, r *Report, d *download, name string) {
	it := d.it
	var content, mod *Expr
	for _, a := range d.args {
		switch typeKey(a.Typ) {
		case "io.ReadSeeker":
			content = a
		case "time.Time":
			mod = a
		}
	}
	if name == "Attachment" && (content == nil || mod == nil) {
		r.missing("parameters of Context.Attachment")
		return
	}
	// isContent: the thing to be served
	isContent := func(e *Expr) bool {
		e = strip(e)
		if content != nil {
			return e == content
		}
		return d.isOpen(openedBy(e))
	}
	touched := func(s *State) bool {
		return s.auto["touched"] != "" || s.auto["served"] != "" || s.auto["header"] != ""
	}
	header := func(s *State, pos token.Pos, h *headerSet) {
		if s.auto["served"] != "" {
			r.fail("order", name, pos, s, "%s changes a header after the content was served", name)
		}
		s.auto["header"] = "x"
		k := "h:" + h.key
		delete(s.auto, k)
		if h.op != "Del" && h.val != nil {
			s.auto[k] = "?"
			if c, ok := h.val.constStr(); ok {
				s.auto[k] = c
			}
		}
	}
	it.hooks.MapUpdate = func(s *State, fr *Frame, m, k, v *Expr, instr ssa.Instruction) {
		if h := it.headerEntry(s, m, k, v); h != nil {
			header(s, instr.Pos(), h)
		}
	}
	it.hooks.Call = func(s *State, ev *CallEv) {
		if ev.Kind == "defer-stmt" {
			return
		}
		if h := it.headerSetOf(ev); h != nil {
			header(s, ev.Pos, h)
			return
		}
		if ev.Name == "net/http.ServeContent" {
			if s.auto["served"] != "" {
				r.fail("once", name, ev.Pos, s, "%s serves the content twice", name)
			}
			s.auto["served"] += "x"
			bad := func(what string, e *Expr) {
				r.fail("serve", name, ev.Pos, s, "%s: the content server gets %s as %s", name, e, what)
			}
			if strip(ev.Args[0]) != d.ctx {
				bad("the writer", ev.Args[0])
			}
			if !it.isCtxRequest(ev.Args[1], d.ctx) {
				bad("the request", ev.Args[1])
			}
			if !d.isName(ev.Args[2]) {
				bad("the name", ev.Args[2])
			}
			if !(mod != nil && ev.Args[3] == mod || mod == nil && d.isInfo(ev.Args[3], "ModTime")) {
				bad("the modification time", ev.Args[3])
			}
			if !isContent(ev.Args[4]) {
				bad("the content", ev.Args[4])
			}
			if s.auto["used"] != "" {
				r.fail("serve", name, ev.Pos, s, "%s: the content was used before (%s)", name, s.auto["used"])
			}
			if s.auto["touched"] != "" {
				r.fail("serve", name, ev.Pos, s, "%s: something was sent before the content", name)
			}
			if s.auto["h:"+hdrDisposition] == "" {
				r.fail("headers", name+":"+hdrDisposition, ev.Pos, s, "%s: the disposition is not set when the content is served", name)
			}
			if name == "Download" {
				for _, k := range sortedKeys(transferHeaders) {
					if s.auto["h:"+k] != transferHeaders[k] {
						r.fail("headers", name+":"+k, ev.Pos, s, "%s: %s is not %q when the content is served", name, k, transferHeaders[k])
					}
				}
			}
			return
		}
		// anything else that gets the response or the content
		short := ev.Name
		for i, a := range ev.Args {
			x := strip(a)
			if isContent(x) && ev.Fn == nil {
				m := short[strings.LastIndexByte(short, '.')+1:]
				if i == 0 && (m == "Stat" || m == "Fd" || m == "Name" || m == "Close" && s.auto["served"] != "") {
					continue
				}
				if s.auto["served"] == "" && s.auto["used"] == "" {
					s.auto["used"] = shortName(short)
				}
			}
			if ev.Fn == nil && (x == d.ctx || it.isRaw(x)) {
				m := short[strings.LastIndexByte(short, '.')+1:]
				if i == 0 && m == "Header" {
					continue
				}
				s.auto["touched"] = "x"
			}
		}
	}
	for _, e := range d.run() {
		s := e.st
		if e.panic {
			r.fail("panic", name, e.pos, s, "%s panics", name)
			continue
		}
		if name == "Attachment" {
			r.ok("attachment", "Attachment")
			if s.auto["served"] != "x" {
				r.fail("served", name, e.pos, s, "Attachment returns without serving the content")
			}
			if s.auto["touched"] != "" {
				r.fail("served", name, e.pos, s, "Attachment sends something besides the content")
			}
			continue
		}
		failed := func(is func(*Expr) bool) int {
			res := 0
			for _, x := range it.in.byID {
				if x.Op == OpExtract && x.Name == "1" && is(x.Args[0]) {
					if n := it.nilness(s, x); n != 0 {
						res = -n
						if n == -1 {
							return 1
						}
					}
				}
			}
			return res
		}
		open, stat := failed(d.isOpen), failed(d.isStat)
		dir := 0
		for _, x := range it.in.byID {
			if (x.Op == OpCall || x.Op == OpRes) && d.isDirCall(x) {
				if t := it.truth(s, x); t != 0 {
					dir = t
				}
			}
		}
		v := e.vals[0]
		if it.nilness(s, v) == 1 {
			r.ok("accepted", "Download")
			if open != -1 || stat != -1 || dir != -1 {
				r.fail("accepted", name, e.pos, s, "Download succeeds although the file may not have been opened or inspected, or may be a directory")
			}
			if s.auto["served"] != "x" {
				r.fail("served", name, e.pos, s, "Download succeeds without serving the file")
			}
			if s.auto["touched"] != "" {
				r.fail("served", name, e.pos, s, "Download sends something besides the file")
			}
			continue
		}
		why := "open"
		switch {
		case open == 1:
		case stat == 1:
			why = "stat"
		case dir == 1:
			why = "dir"
		default:
			why = ""
		}
		r.ok("refused", why)
		if why == "" {
			r.fail("refused", name, e.pos, s, "Download may refuse a file that could be opened and inspected and is not a directory")
		}
		if it.nilness(s, v) != -1 {
			r.fail("refused", name+":nil", e.pos, s, "the error Download returns when it refuses (%s) may be nil", why)
		}
		if touched(s) {
			r.fail("untouched", name, e.pos, s, "Download changed the response before refusing (%s)", why)
		}
	}
	r.absorb(it, name)
}
