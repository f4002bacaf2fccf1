From 3fb379ff8ec1743ebee37b6308a1c025a0f96b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:10 +0000
Subject: [PATCH 01/33] fix: reset route params of a recycled context

A static-route hit skips the tree match, so the params of the request that
used the pooled context before stayed visible.
---
 context.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/context.go b/context.go
index 386dc10..6cd790d 100644
--- a/context.go
+++ b/context.go
@@ -41,6 +41,7 @@ func (ctx *Context) reset() {
 	ctx.status = 0
 
 	ctx.endNode = nil
+	ctx.Params = nil
 	ctx.parsedParams = false
 }
 
-- 
2.43.0


From afe02f82fc0df54557cbb02e2042d2321369484c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:27 +0000
Subject: [PATCH 02/33] fix: set Content-Type before sending the head in
 response helpers

Headers set after WriteHeader never reach the client; JSON was sent as
sniffed text/plain.
---
 content.go | 10 +++++-----
 render.go  |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/content.go b/content.go
index 601c6e6..23a7325 100644
--- a/content.go
+++ b/content.go
@@ -247,27 +247,27 @@ func (ctx *Context) Stream(contentType string, r io.Reader) error {
 }
 
 func (ctx *Context) String(code int, str string) {
-	ctx.WriteHeader(code)
 	ctx.Header().Set(HeaderContentType, MIMETextPlainCharsetUTF8)
+	ctx.WriteHeader(code)
 	ctx.Write([]byte(str))
 }
 
 func (ctx *Context) Data(code int, contentType string, data []byte) {
-	ctx.WriteHeader(code)
 	ctx.Header().Set(HeaderContentType, contentType)
+	ctx.WriteHeader(code)
 	ctx.Write(data)
 }
 
 // HTMLRaw not use render
 func (ctx *Context) HTMLRaw(code int, str string) {
-	ctx.WriteHeader(code)
 	ctx.Header().Set(HeaderContentType, MIMETextHTMLCharsetUTF8)
+	ctx.WriteHeader(code)
 	ctx.Write([]byte(str))
 }
 
 func (ctx *Context) JSON(code int, v interface{}) error {
-	ctx.WriteHeader(code)
 	ctx.Header().Set(HeaderContentType, MIMEApplicationJSONCharsetUTF8)
+	ctx.WriteHeader(code)
 	err := json.NewEncoder(ctx).Encode(v)
 	if err != nil {
 		logx.Warn(err)
@@ -276,8 +276,8 @@ func (ctx *Context) JSON(code int, v interface{}) error {
 }
 
 func (ctx *Context) XML(code int, v interface{}) error {
-	ctx.WriteHeader(code)
 	ctx.Header().Set(HeaderContentType, MIMEApplicationXMLCharsetUTF8)
+	ctx.WriteHeader(code)
 	err := xml.NewEncoder(ctx).Encode(v)
 	if err != nil {
 		logx.Warn(err)
diff --git a/render.go b/render.go
index 395eb2c..c34c846 100644
--- a/render.go
+++ b/render.go
@@ -13,8 +13,8 @@ func SetRender(r Render) {
 type defaultRender struct{}
 
 func (r *defaultRender) HTMLSet(ctx *Context, code int, setName, tplName string, data interface{}) {
-	ctx.WriteHeader(code)
 	ctx.Header().Set(HeaderContentType, MIMETextHTMLCharsetUTF8)
+	ctx.WriteHeader(code)
 }
 
 func init() {
-- 
2.43.0


From 5a6eac10923b40f65b2227419860d886cf116681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:28 +0000
Subject: [PATCH 03/33] fix: send the panic report of Recovery with its content
 type

The head was sent before String could set the type, so panic text was
sniffed (possibly as HTML).
---
 m_recovery.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/m_recovery.go b/m_recovery.go
index edbbbdb..94d478d 100644
--- a/m_recovery.go
+++ b/m_recovery.go
@@ -26,14 +26,12 @@ func Recovery() HandlerFunc {
 					content += fmt.Sprintf("%v %v", file, line)
 				}
 
-				if !ctx.written {
-					ctx.WriteHeader(http.StatusInternalServerError)
-				}
-
 				logx.Errorf("panic %s : %s", time.Now().Format(LogTimeFormat), content)
 
 				if Status != Stable {
 					ctx.String(http.StatusInternalServerError, content)
+				} else if !ctx.written {
+					ctx.WriteHeader(http.StatusInternalServerError)
 				}
 			} else {
 				if !ctx.written {
-- 
2.43.0


From 83c7180827d5fb84eea7173b40f259d198411a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:30 +0000
Subject: [PATCH 04/33] fix: serve files through the context so that status and
 written are tracked

File and StaticAdvance wrote to the raw writer: later handlers still ran,
the logger reported another status and Recovery sent a second head.
---
 content.go  | 2 +-
 m_static.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/content.go b/content.go
index 23a7325..ef681f4 100644
--- a/content.go
+++ b/content.go
@@ -146,7 +146,7 @@ func (ctx *Context) ReadCloser() io.ReadCloser {
 
 // File writes the specified file into the body stream.
 func (ctx *Context) File(filepath string) {
-	http.ServeFile(ctx.ResponseWriter, ctx.Request, filepath)
+	http.ServeFile(ctx, ctx.Request, filepath)
 }
 
 func (ctx *Context) FormFile(name string) (multipart.File, *multipart.FileHeader, error) {
diff --git a/m_static.go b/m_static.go
index f88dd62..9afe3aa 100644
--- a/m_static.go
+++ b/m_static.go
@@ -81,7 +81,7 @@ func (r *Router) StaticAdvance(opt *StaticOptions) {
 			}
 			// Redirect if missing trailing slash.
 			if !strings.HasSuffix(redirPath, "/") {
-				http.Redirect(ctx.ResponseWriter, ctx.Request, redirPath+"/", http.StatusFound)
+				http.Redirect(ctx, ctx.Request, redirPath+"/", http.StatusFound)
 				return
 			}
 
@@ -105,7 +105,7 @@ func (r *Router) StaticAdvance(opt *StaticOptions) {
 			}
 		}
 
-		http.ServeContent(ctx.ResponseWriter, ctx.Request, ctx.Param("*0"), fi.ModTime(), f)
+		http.ServeContent(ctx, ctx.Request, ctx.Param("*0"), fi.ModTime(), f)
 	}
 
 	r.GET(filepath.Join(opt.Prefix, "/*"), h)
-- 
2.43.0


From c5b3bb1a9d840552eec28e07760636088c5ca9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:57 +0000
Subject: [PATCH 05/33] fix: serve directories of a static route from its file
 system

Index files and listings were read relative to the process's working
directory instead of the configured FileSystem.
---
 m_static.go | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/m_static.go b/m_static.go
index 9afe3aa..7971e95 100644
--- a/m_static.go
+++ b/m_static.go
@@ -85,7 +85,7 @@ func (r *Router) StaticAdvance(opt *StaticOptions) {
 				return
 			}
 
-			ctx.File(filepath.Join(ctx.Param("*0"), opt.IndexFile))
+			serveDir(ctx, opt, ctx.Param("*0"))
 			return
 		}
 
@@ -112,6 +112,38 @@ func (r *Router) StaticAdvance(opt *StaticOptions) {
 	r.HEAD(filepath.Join(opt.Prefix, "/*"), h)
 }
 
+// serveDir serves the index file of a directory, or the directory itself if no
+// index file is configured, from opt.FileSystem.
+func serveDir(ctx *Context, opt *StaticOptions, name string) {
+	if !opt.hasIndex {
+		u := *ctx.Request.URL
+		u.Path = strings.TrimRight(path.Clean("/"+name), "/") + "/"
+
+		req := *ctx.Request
+		req.URL = &u
+
+		http.FileServer(opt.FileSystem).ServeHTTP(ctx, &req)
+		return
+	}
+
+	f, err := opt.FileSystem.Open(path.Join("/", name, opt.IndexFile))
+	if err != nil {
+		ctx.WriteHeader(http.StatusNotFound)
+
+		return
+	}
+	defer f.Close()
+
+	fi, err := f.Stat()
+	if err != nil || fi.IsDir() {
+		ctx.WriteHeader(http.StatusNotFound)
+
+		return
+	}
+
+	http.ServeContent(ctx, ctx.Request, fi.Name(), fi.ModTime(), f)
+}
+
 // Static serves files from the given file system root.
 // http.NotFound is used instead of the Router's NotFound handler.
 // use :
-- 
2.43.0


From 047a8ecf629cf8b304a4626a96f8bd7bc4000b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:59 +0000
Subject: [PATCH 06/33] fix: hand only rooted, cleaned names to the static file
 system

Like http.FileServer does: a custom FileSystem must not see dot-dot
elements of the request path.
---
 m_static.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/m_static.go b/m_static.go
index 7971e95..af7a8e8 100644
--- a/m_static.go
+++ b/m_static.go
@@ -53,7 +53,9 @@ func (r *Router) StaticAdvance(opt *StaticOptions) {
 	}
 
 	h := func(ctx *Context) {
-		f, err := opt.FileSystem.Open(ctx.Param("*0"))
+		name := path.Clean("/" + ctx.Param("*0"))
+
+		f, err := opt.FileSystem.Open(name)
 		if err != nil {
 			ctx.WriteHeader(http.StatusNotFound)
 
@@ -85,7 +87,7 @@ func (r *Router) StaticAdvance(opt *StaticOptions) {
 				return
 			}
 
-			serveDir(ctx, opt, ctx.Param("*0"))
+			serveDir(ctx, opt, name)
 			return
 		}
 
@@ -105,7 +107,7 @@ func (r *Router) StaticAdvance(opt *StaticOptions) {
 			}
 		}
 
-		http.ServeContent(ctx, ctx.Request, ctx.Param("*0"), fi.ModTime(), f)
+		http.ServeContent(ctx, ctx.Request, name, fi.ModTime(), f)
 	}
 
 	r.GET(filepath.Join(opt.Prefix, "/*"), h)
@@ -117,7 +119,7 @@ func (r *Router) StaticAdvance(opt *StaticOptions) {
 func serveDir(ctx *Context, opt *StaticOptions, name string) {
 	if !opt.hasIndex {
 		u := *ctx.Request.URL
-		u.Path = strings.TrimRight(path.Clean("/"+name), "/") + "/"
+		u.Path = strings.TrimRight(name, "/") + "/"
 
 		req := *ctx.Request
 		req.URL = &u
@@ -126,7 +128,7 @@ func serveDir(ctx *Context, opt *StaticOptions, name string) {
 		return
 	}
 
-	f, err := opt.FileSystem.Open(path.Join("/", name, opt.IndexFile))
+	f, err := opt.FileSystem.Open(path.Join(name, opt.IndexFile))
 	if err != nil {
 		ctx.WriteHeader(http.StatusNotFound)
 
-- 
2.43.0


From 9e8da07d51949ebe03b5ab2bed3f2537976e8373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:14 +0000
Subject: [PATCH 07/33] fix: keep the request body whole when the logger
 captures it

Bodies over 1 MiB reached the handlers truncated.
---
 m_logger.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/m_logger.go b/m_logger.go
index a99a714..35ca29e 100644
--- a/m_logger.go
+++ b/m_logger.go
@@ -62,10 +62,15 @@ func Logger() HandlerFunc {
 		if LogHttpBody && ctx.Request.Body != nil && strings.Contains(ctx.Request.Header.Get("Content-Type"), "application/json") {
 			safe := &io.LimitedReader{R: ctx.Request.Body, N: 1 << 20}
 			requestbody, _ := ioutil.ReadAll(safe)
-			ctx.Request.Body.Close()
 
-			bf := bytes.NewBuffer(requestbody)
-			ctx.Request.Body = ioutil.NopCloser(bf)
+			// the rest of the body, if any, is still unread
+			ctx.Request.Body = struct {
+				io.Reader
+				io.Closer
+			}{
+				io.MultiReader(bytes.NewReader(requestbody), ctx.Request.Body),
+				ctx.Request.Body,
+			}
 
 			body = "\n" + string(requestbody)
 		}
-- 
2.43.0


From 8b36a939145349898b9ff3e4555f366e0640154b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:16 +0000
Subject: [PATCH 08/33] fix: scope middleware given to Group to the new group

It was added to the parent and ran for all its other routes too.
---
 router.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/router.go b/router.go
index c45789b..969a8c1 100644
--- a/router.go
+++ b/router.go
@@ -137,7 +137,7 @@ func (r *Router) Group(pattern string, is ...interface{}) *Router {
 	for i := range is {
 		switch v := is[i].(type) {
 		case func(*Context):
-			r.befores = append(r.befores, v)
+			rr.befores = append(rr.befores, v)
 		case func(*Router):
 			v(rr)
 		default:
-- 
2.43.0


From 3e222fef23dc68b90cb66cf95109fb78dc499cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:17 +0000
Subject: [PATCH 09/33] fix: record regexp captures only when the rest of the
 path matches

Captures of an abandoned alternative stayed in the params.
---
 tree.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tree.go b/tree.go
index 08f6628..e91094a 100644
--- a/tree.go
+++ b/tree.go
@@ -285,10 +285,10 @@ func (n *node) matchSubNode(globLevel int, segment, uri string, params Params) *
 				continue
 			}
 
-			for j := 0; j < len(n.subNodes[i].wildcards); j++ {
-				params[n.subNodes[i].wildcards[j]] = results[j+1]
-			}
 			if end := n.subNodes[i].matchNextSegment(globLevel, uri, params); end != nil {
+				for j := 0; j < len(n.subNodes[i].wildcards); j++ {
+					params[n.subNodes[i].wildcards[j]] = results[j+1]
+				}
 				return end
 			}
 		case _PATTERN_HOLDER:
-- 
2.43.0


From e7a2b6076bd622dc3d0d4c0117d3abf1bbc6eb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:46 +0000
Subject: [PATCH 10/33] fix: make regexp segments without a group match

<id ~ 70|80> was accepted but could never match, as the number of captures
always differed from the number of names; count real capture groups.
---
 tree.go | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/tree.go b/tree.go
index e91094a..7f50927 100644
--- a/tree.go
+++ b/tree.go
@@ -86,20 +86,28 @@ func getparsedPattern(pattern string) string {
 }
 
 // partternRegexp return repexp, and check match count
-func partternRegexp(pattern string, want int) (string, error) {
+// repexp without any group is captured as a whole: <id ~ 70|80>
+func partternRegexp(pattern string, want int) (*regexp.Regexp, error) {
 	if want == 0 {
-		return "", fmt.Errorf("named args need >= 1")
+		return nil, fmt.Errorf("named args need >= 1")
 	}
 
 	startIdx := strings.Index(pattern, "~")
 	closeIdx := strings.Index(pattern, ">")
 
 	regExp := strings.TrimSpace(pattern[startIdx+1 : closeIdx])
-	if strings.ContainsAny(pattern, "()") && !(strings.Count(regExp, "(") == want && strings.Count(regExp, "(") == strings.Count(regExp, ")")) {
-		return "", fmt.Errorf("regexp group count not match want(%d)", want)
+	reg, err := regexp.Compile(regExp)
+	if err == nil && reg.NumSubexp() == 0 {
+		reg, err = regexp.Compile("(" + regExp + ")")
+	}
+	if err != nil {
+		return nil, err
+	}
+	if reg.NumSubexp() != want {
+		return nil, fmt.Errorf("regexp group count not match want(%d)", want)
 	}
 
-	return regExp, nil
+	return reg, nil
 }
 
 func analyzePattern(pattern string) (typ byte, parsedPattern string, wildcards []string, reg *regexp.Regexp) {
@@ -118,11 +126,11 @@ func analyzePattern(pattern string) (typ byte, parsedPattern string, wildcards [
 		if strings.Contains(pattern, "~") {
 			typ = _PATTERN_REGEXP
 
-			regExp, err := partternRegexp(pattern, len(wildcards))
+			var err error
+			reg, err = partternRegexp(pattern, len(wildcards))
 			if err != nil {
 				panic(fmt.Sprintf("invalid regexp pattern[%s], err: %s", pattern, err.Error()))
 			}
-			reg = regexp.MustCompile(regExp)
 		} else {
 			typ = _PATTERN_HOLDER
 		}
-- 
2.43.0


From 41355f4f5936f6db3595b2ff423b16719ab9d952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:47 +0000
Subject: [PATCH 11/33] fix: do not record ignored regexp placeholders

<_> and *_ were ignored, <_ ~ re> was recorded as "_".
---
 tree.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tree.go b/tree.go
index 7f50927..40b011b 100644
--- a/tree.go
+++ b/tree.go
@@ -254,7 +254,9 @@ func (n *node) matchEndNode(globLevel int, uri string, params Params) *node {
 			}
 
 			for j := 0; j < len(n.endNodes[i].wildcards); j++ {
-				params[n.endNodes[i].wildcards[j]] = results[j+1]
+				if n.endNodes[i].wildcards[j] != "_" {
+					params[n.endNodes[i].wildcards[j]] = results[j+1]
+				}
 			}
 			return n.endNodes[i]
 		case _PATTERN_HOLDER:
@@ -295,7 +297,9 @@ func (n *node) matchSubNode(globLevel int, segment, uri string, params Params) *
 
 			if end := n.subNodes[i].matchNextSegment(globLevel, uri, params); end != nil {
 				for j := 0; j < len(n.subNodes[i].wildcards); j++ {
-					params[n.subNodes[i].wildcards[j]] = results[j+1]
+					if n.subNodes[i].wildcards[j] != "_" {
+						params[n.subNodes[i].wildcards[j]] = results[j+1]
+					}
 				}
 				return end
 			}
-- 
2.43.0


From 3530c8491f37f3b1013f7eec12f8c8ddcdc4f7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:48 +0000
Subject: [PATCH 12/33] fix: reject a second route with the same effective
 pattern

/a/:id and /a/<id> are one pattern; the handlers of the later registration
were dropped silently while its path was reported.
---
 tree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tree.go b/tree.go
index 40b011b..3a4d0ad 100644
--- a/tree.go
+++ b/tree.go
@@ -168,7 +168,7 @@ func (n *node) addNextSegment(pattern string, handlers []Handler) *node {
 func (n *node) addEndNode(pattern string, handlers []Handler) *node {
 	for i := 0; i < len(n.endNodes); i++ {
 		if n.endNodes[i].pattern == pattern { // added
-			return n.endNodes[i]
+			panic(fmt.Sprintf("double pattern : %s", pattern))
 		}
 	}
 
-- 
2.43.0


From cd9177d627e756f262238b7c8227e4f000cf82b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:10 +0000
Subject: [PATCH 13/33] fix: keep the 32MB multipart memory default

Building an engine without WithMaxMultipartMemory set the limit to 0.
---
 router.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/router.go b/router.go
index 969a8c1..a8ae6d4 100644
--- a/router.go
+++ b/router.go
@@ -283,7 +283,7 @@ func (r *Router) Handler(opts ...Option) *Engine {
 		panic("sub router not allowed: Handler()")
 	}
 
-	o := &options{}
+	o := &options{MaxMultipartMemory: 32 << 20} // 32MB
 	for _, f := range opts {
 		f(o)
 	}
-- 
2.43.0


From 57fd2a22ca06d447598ab8a178bc45e0cf9c30f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:12 +0000
Subject: [PATCH 14/33] fix: reject integers that do not fit the bound field

MapForm parsed with 64 bits and let SetInt/SetUint wrap: 300 became 44 in an
int8.
---
 binding/map_form.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/binding/map_form.go b/binding/map_form.go
index eca23cb..bff57ed 100644
--- a/binding/map_form.go
+++ b/binding/map_form.go
@@ -160,7 +160,7 @@ func setWithProperType2(typeField reflect.StructField, opt *setOptions, valueKin
 		if val == "" {
 			val = "0"
 		}
-		intVal, err := strconv.ParseInt(val, 10, 64)
+		intVal, err := strconv.ParseInt(val, 10, structField.Type().Bits())
 		if err != nil {
 			return setValueError(nameInTag, val)
 		} else {
@@ -170,7 +170,7 @@ func setWithProperType2(typeField reflect.StructField, opt *setOptions, valueKin
 		if val == "" {
 			val = "0"
 		}
-		uintVal, err := strconv.ParseUint(val, 10, 64)
+		uintVal, err := strconv.ParseUint(val, 10, structField.Type().Bits())
 		if err != nil {
 			return setValueError(nameInTag, val)
 		} else {
-- 
2.43.0


From ed07aa6b67a29e1a2189add8e6ac71a553323820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:13 +0000
Subject: [PATCH 15/33] fix: let a bound false overwrite true in MapForm

---
 binding/map_form.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/binding/map_form.go b/binding/map_form.go
index bff57ed..5ef1ecb 100644
--- a/binding/map_form.go
+++ b/binding/map_form.go
@@ -183,8 +183,8 @@ func setWithProperType2(typeField reflect.StructField, opt *setOptions, valueKin
 		boolVal, err := strconv.ParseBool(val)
 		if err != nil {
 			return setValueError(nameInTag, val)
-		} else if boolVal {
-			structField.SetBool(true)
+		} else {
+			structField.SetBool(boolVal)
 		}
 	case reflect.Float32:
 		if val == "" {
-- 
2.43.0


From 5804c33ed52944d73c26a0f3219b0e637e333335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:15 +0000
Subject: [PATCH 16/33] fix: do not bind fields nested in an ignored struct

MapForm descended into struct fields tagged "-" (and looped forever on
recursive types excluded that way).
---
 binding/map_form.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/binding/map_form.go b/binding/map_form.go
index 5ef1ecb..57cf72d 100644
--- a/binding/map_form.go
+++ b/binding/map_form.go
@@ -53,6 +53,9 @@ func _mapForm(formStruct reflect.Value, form map[string][]string,
 		if typeField.PkgPath != "" && !typeField.Anonymous { // unexported
 			continue
 		}
+		if name, _ := head(typeField.Tag.Get(tag), ","); name == "-" { // just ignoring this field
+			continue
+		}
 
 		if typeField.Type.Kind() == reflect.Ptr && typeField.Type != multipartFileType {
 			if structField.IsNil() && (typeField.Anonymous || typeField.Type.Elem().Kind() == reflect.Struct) {
-- 
2.43.0


From 1a5ef196fdda5f294c9adbd55571d11022665a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:16 +0000
Subject: [PATCH 17/33] fix: report nil pointers in validation instead of
 panicking

A JSON body like [null] bound to []*T crashed ValidateStruct.
---
 binding/validator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/binding/validator.go b/binding/validator.go
index ad5792d..2af663d 100644
--- a/binding/validator.go
+++ b/binding/validator.go
@@ -68,6 +68,9 @@ func (v *validatorV10) ValidateStruct(obj interface{}) error {
 	value := reflect.ValueOf(obj)
 	switch value.Kind() {
 	case reflect.Ptr:
+		if value.IsNil() {
+			return fmt.Errorf("nil obj")
+		}
 		return v.ValidateStruct(value.Elem().Interface())
 	case reflect.Struct:
 		return v.validate.Struct(obj)
-- 
2.43.0


From e99b45f1e662d179fd17d3181b485e6c8fa37e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:46 +0000
Subject: [PATCH 18/33] fix: do not index empty value lists while binding

A key with an empty list of values or files crashed MapForm and the map
binders.
---
 binding/map_form.go | 10 +++++++---
 binding/mapping.go  |  8 ++++++--
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/binding/map_form.go b/binding/map_form.go
index 57cf72d..60a7cde 100644
--- a/binding/map_form.go
+++ b/binding/map_form.go
@@ -102,7 +102,7 @@ func tryToSetValue2(value reflect.Value, typeField reflect.StructField, form map
 		var err error
 		num := len(inputValue)
 
-		if value.Kind() == reflect.Slice && num > 0 {
+		if value.Kind() == reflect.Slice {
 			sliceOf := value.Type().Elem().Kind()
 			slice := reflect.MakeSlice(value.Type(), num, num)
 			for i := 0; i < num; i++ {
@@ -112,14 +112,18 @@ func tryToSetValue2(value reflect.Value, typeField reflect.StructField, form map
 			}
 			value.Set(slice)
 		} else {
-			err = setWithProperType2(typeField, bOpt, value.Kind(), inputValue[0], value, bName)
+			var val string
+			if num > 0 {
+				val = inputValue[0]
+			}
+			err = setWithProperType2(typeField, bOpt, value.Kind(), val, value, bName)
 		}
 
 		return err
 	}
 
 	inputFile, existFile := formfile[bName]
-	if !existFile {
+	if !existFile || len(inputFile) == 0 {
 		return nil
 	}
 	num := len(inputFile)
diff --git a/binding/mapping.go b/binding/mapping.go
index 3fc745a..a224703 100644
--- a/binding/mapping.go
+++ b/binding/mapping.go
@@ -231,7 +231,9 @@ func setFormMap(ptr interface{}, form map[string][]string) error {
 		return errors.New("cannot convert to map of strings")
 	}
 	for k, v := range form {
-		ptrMap[k] = v[len(v)-1] // pick last
+		if len(v) > 0 {
+			ptrMap[k] = v[len(v)-1] // pick last
+		}
 	}
 
 	return nil
@@ -263,7 +265,9 @@ func setFormMap2(obj interface{}, el reflect.Type, form map[string][]string) err
 		*m = make(map[string]string, len(form))
 	}
 	for k, v := range form {
-		(*m)[k] = v[len(v)-1] // pick last
+		if len(v) > 0 {
+			(*m)[k] = v[len(v)-1] // pick last
+		}
 	}
 
 	return nil
-- 
2.43.0


From 94d6d877f40d75480af99b173304bf11559ea6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:48 +0000
Subject: [PATCH 19/33] fix: drop invalid cookies instead of sending an empty
 Set-Cookie header

---
 cookie.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cookie.go b/cookie.go
index f3ffc37..746cfbb 100644
--- a/cookie.go
+++ b/cookie.go
@@ -105,5 +105,7 @@ func (ctx *Context) SetCookie(name string, value string, others ...interface{})
 		}
 	}
 
-	ctx.ResponseWriter.Header().Add("Set-Cookie", cookie.String())
+	if v := cookie.String(); v != "" {
+		ctx.ResponseWriter.Header().Add("Set-Cookie", v)
+	}
 }
-- 
2.43.0


From df58420492f32b626bda2d9ab4340d5f69bd8336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:49 +0000
Subject: [PATCH 20/33] fix: report a failing close of a saved upload

Delayed write errors surface at close and were dropped by the deferred call.
---
 content.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/content.go b/content.go
index ef681f4..22b368a 100644
--- a/content.go
+++ b/content.go
@@ -187,8 +187,10 @@ func (ctx *Context) SaveUploadedFile(file *multipart.FileHeader, dst string) err
 	}
 	defer f.Close()
 
-	_, err = io.Copy(f, src)
-	return err
+	if _, err = io.Copy(f, src); err != nil {
+		return err
+	}
+	return f.Close()
 }
 
 func (ctx *Context) ServeFile(filePath string) {
-- 
2.43.0


From 89496565739637dabdcdd6cd91b5afe8eb9b23d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:48 +0000
Subject: [PATCH 21/33] fix: do not truncate unsigned values that do not fit
 uint

---
 cookie.go | 2 +-
 params.go | 2 +-
 query.go  | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/cookie.go b/cookie.go
index 746cfbb..ce1bc34 100644
--- a/cookie.go
+++ b/cookie.go
@@ -35,7 +35,7 @@ func (ctx *Context) CookieInt64(name string) int64 {
 }
 
 func (ctx *Context) CookieUint(name string) uint {
-	v, _ := strconv.ParseUint(ctx.Cookie(name), 10, 64)
+	v, _ := strconv.ParseUint(ctx.Cookie(name), 10, 0)
 	return uint(v)
 }
 
diff --git a/params.go b/params.go
index b4a3d96..ba86ee9 100644
--- a/params.go
+++ b/params.go
@@ -43,7 +43,7 @@ func (p Params) Int64(name string) (int64, error) {
 
 // Uint returns uint with error.
 func (p Params) Uint(name string) (uint, error) {
-	v, err := strconv.ParseUint(p.String(name), 10, 64)
+	v, err := strconv.ParseUint(p.String(name), 10, 0)
 	return uint(v), err
 }
 
diff --git a/query.go b/query.go
index 6bb651e..396ff62 100644
--- a/query.go
+++ b/query.go
@@ -49,7 +49,7 @@ func (ctx *Context) QueryInt64(name string) int64 {
 
 // QueryUint returns uint
 func (ctx *Context) QueryUint(name string) uint {
-	v, _ := strconv.ParseUint(ctx.Query(name), 10, 64)
+	v, _ := strconv.ParseUint(ctx.Query(name), 10, 0)
 	return uint(v)
 }
 
@@ -135,7 +135,7 @@ func (ctx *Context) DefaultQueryInt64(name, defaultValue string) int64 {
 
 // DefaultQueryUint returns uint
 func (ctx *Context) DefaultQueryUint(name, defaultValue string) uint {
-	v, _ := strconv.ParseUint(ctx.DefaultQuery(name, defaultValue), 10, 64)
+	v, _ := strconv.ParseUint(ctx.DefaultQuery(name, defaultValue), 10, 0)
 	return uint(v)
 }
 
-- 
2.43.0


From 038d894a074b8da371addde833008a8998595c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:01 +0000
Subject: [PATCH 22/33] fix: try trailing wildcards in registration order

---
 tree.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tree.go b/tree.go
index 3a4d0ad..8d1d918 100644
--- a/tree.go
+++ b/tree.go
@@ -324,8 +324,8 @@ func (n *node) matchSubNode(globLevel int, segment, uri string, params Params) *
 		}
 	}
 
-	if len(n.endNodes) > 0 { //for match "/*"
-		end := n.endNodes[len(n.endNodes)-1]
+	for i := 0; i < len(n.endNodes); i++ { //for match "/*"
+		end := n.endNodes[i]
 		if end.typ == _PATTERN_MATCH_ALL {
 			if end.parsedPattern != "" {
 				if end.parsedPattern != "_" {
-- 
2.43.0


From 15d2a3cc9b6b8e66603cfed5ea2d2f54e8deaedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:04 +0000
Subject: [PATCH 23/33] fix: static routing served patterns with an empty inner
 segment on paths the tree does not match

---
 engine.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/engine.go b/engine.go
index 9466b6b..56c6831 100644
--- a/engine.go
+++ b/engine.go
@@ -2,6 +2,7 @@ package water
 
 import (
 	"net/http"
+	"strings"
 	"sync"
 	"time"
 
@@ -168,7 +169,8 @@ func (e *Engine) buildTree() {
 			e.routers[MethodIndex(v.method)] = t
 		}
 
-		if e.options.EnableStaticRouter && isStaticRoute(endNode) {
+		// the tree drops empty inner segments("/a//b"), so only the tree can match them
+		if e.options.EnableStaticRouter && isStaticRoute(endNode) && !strings.Contains(v.variantUri, "//") {
 			if e.routersStatic[MethodIndex(v.method)] == nil {
 				e.routersStatic[MethodIndex(v.method)] = map[string]*node{}
 			}
-- 
2.43.0


From 3494313bf83de7e26c509de51e42acd17e28766a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:18 +0000
Subject: [PATCH 24/33] fix: Bind leaves a nil *time.Time field alone when its
 key is absent

MapForm allocated every nil pointer to a struct before looking at the
request, and a time is bound as a scalar: a *time.Time field whose key was
absent (or whose value did not parse) ended up pointing to the zero time.
---
 binding/map_form.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/binding/map_form.go b/binding/map_form.go
index 60a7cde..ecaf96e 100644
--- a/binding/map_form.go
+++ b/binding/map_form.go
@@ -58,7 +58,8 @@ func _mapForm(formStruct reflect.Value, form map[string][]string,
 		}
 
 		if typeField.Type.Kind() == reflect.Ptr && typeField.Type != multipartFileType {
-			if structField.IsNil() && (typeField.Anonymous || typeField.Type.Elem().Kind() == reflect.Struct) {
+			if structField.IsNil() && typeField.Type.Elem() != timeType &&
+				(typeField.Anonymous || typeField.Type.Elem().Kind() == reflect.Struct) {
 				structField.Set(reflect.New(typeField.Type.Elem()))
 
 				structField = structField.Elem()
-- 
2.43.0


From a9c6779e298f447bdac43e4e0186c47ccbe71da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:20 +0000
Subject: [PATCH 25/33] fix: a value that does not parse leaves a nil pointer
 field nil

setWithProperType2 allocated the pointer before parsing, so Bind changed
a nil pointer field although it reported an error for it. The pointer is
now stored after its target was set.
---
 binding/map_form.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/binding/map_form.go b/binding/map_form.go
index ecaf96e..0f9a719 100644
--- a/binding/map_form.go
+++ b/binding/map_form.go
@@ -155,12 +155,24 @@ func setValueError(name, value string) error {
 
 func setWithProperType2(typeField reflect.StructField, opt *setOptions, valueKind reflect.Kind, val string, structField reflect.Value, nameInTag string) error {
 	if structField.Kind() == reflect.Ptr {
+		if structField.Type().Elem().Kind() == reflect.Ptr {
+			return errUnknownType
+		}
+
+		ptr := structField
+		if structField.IsNil() {
+			ptr = reflect.New(structField.Type().Elem())
+		}
+
+		elem := ptr.Elem()
+		if err := setWithProperType2(typeField, opt, elem.Kind(), val, elem, nameInTag); err != nil {
+			return err
+		}
 		if structField.IsNil() {
-			structField.Set(reflect.New(structField.Type().Elem()))
+			structField.Set(ptr)
 		}
 
-		structField = structField.Elem()
-		valueKind = structField.Kind()
+		return nil
 	}
 
 	switch valueKind {
-- 
2.43.0


From 560c4418c7af6065b35202c36958b58156a344e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:26 +0000
Subject: [PATCH 26/33] fix: Bind fills the fields behind a pointer to a struct
 that is already set

MapForm entered a nested struct through a pointer only when that pointer
was nil, so request values for the fields of an already allocated nested
struct were ignored.
---
 binding/map_form.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/binding/map_form.go b/binding/map_form.go
index 0f9a719..c2c7238 100644
--- a/binding/map_form.go
+++ b/binding/map_form.go
@@ -58,9 +58,11 @@ func _mapForm(formStruct reflect.Value, form map[string][]string,
 		}
 
 		if typeField.Type.Kind() == reflect.Ptr && typeField.Type != multipartFileType {
-			if structField.IsNil() && typeField.Type.Elem() != timeType &&
+			if typeField.Type.Elem() != timeType &&
 				(typeField.Anonymous || typeField.Type.Elem().Kind() == reflect.Struct) {
-				structField.Set(reflect.New(typeField.Type.Elem()))
+				if structField.IsNil() {
+					structField.Set(reflect.New(typeField.Type.Elem()))
+				}
 
 				structField = structField.Elem()
 			}
-- 
2.43.0


From 485f25eaac908eb12b8bc5d16163499304c16469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:19 +0000
Subject: [PATCH 27/33] fix: return an error instead of panicking when binding
 a malformed form

Bind and BindWith report every other problem with the request data as an
error, but a query or a form body that cannot be parsed made them panic.
---
 content.go | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/content.go b/content.go
index 22b368a..6d08c4b 100644
--- a/content.go
+++ b/content.go
@@ -291,7 +291,9 @@ func (ctx *Context) XML(code int, v interface{}) error {
 func (ctx *Context) Bind(obj interface{}) error {
 	b := binding.NewBindinger(ctx.Request.Method, ctx.ContentType())
 	if b != binding.JSON && b != binding.XML {
-		ctx.ParseFormOrMultipartForm()
+		if err := ctx.parseForm(); err != nil {
+			return err
+		}
 	}
 
 	return ctx.BindWith(obj, b)
@@ -300,7 +302,9 @@ func (ctx *Context) Bind(obj interface{}) error {
 // BindWith use the assigned Bindinger to decode req
 func (ctx *Context) BindWith(obj interface{}, b binding.Bindinger) error {
 	if b != binding.JSON && b != binding.XML {
-		ctx.ParseFormOrMultipartForm()
+		if err := ctx.parseForm(); err != nil {
+			return err
+		}
 	}
 
 	return b.Bind(ctx.Request, obj)
@@ -328,19 +332,28 @@ var (
 
 // ParseFormOrMultipartForm parses the raw query from the URL.
 func (ctx *Context) ParseFormOrMultipartForm() {
+	if err := ctx.parseForm(); err != nil {
+		panic(err)
+	}
+}
+
+// parseForm parses the query and the form of the request once.
+func (ctx *Context) parseForm() error {
 	if ctx.parsedParams {
-		return
+		return nil
 	}
 	ctx.parsedParams = true
 
 	if (ctx.Request.Method == http.MethodPost || ctx.Request.Method == http.MethodPut || ctx.Request.Method == http.MethodPatch) &&
 		strings.Contains(ctx.Request.Header.Get("Content-Type"), "multipart/form-data") {
 		if err := ctx.Request.ParseMultipartForm(defaultMultipartMemory); err != nil {
-			panic(errors.New("parseMultipartForm error:" + err.Error()))
+			return errors.New("parseMultipartForm error:" + err.Error())
 		}
 	} else {
 		if err := ctx.Request.ParseForm(); err != nil {
-			panic(errors.New("parseForm error:" + err.Error()))
+			return errors.New("parseForm error:" + err.Error())
 		}
 	}
+
+	return nil
 }
-- 
2.43.0


From 55ae5a5c8bf98b1ff34200e23f67691cc18c70b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:59 +0000
Subject: [PATCH 28/33] fix: reject a nil function as a handler when the route
 is built

---
 engine.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/engine.go b/engine.go
index 56c6831..9a67751 100644
--- a/engine.go
+++ b/engine.go
@@ -2,6 +2,7 @@ package water
 
 import (
 	"net/http"
+	"reflect"
 	"strings"
 	"sync"
 	"time"
@@ -21,6 +22,10 @@ func (f HandlerFunc) ServeHTTP(ctx *Context) {
 
 // support http.Handler, but not recommended
 func newHandler(handler interface{}) Handler {
+	if v := reflect.ValueOf(handler); v.Kind() == reflect.Func && v.IsNil() {
+		panic("nil handler")
+	}
+
 	switch h := handler.(type) {
 	case Handler:
 		return h
-- 
2.43.0


From a20f44ad31eebf95284b432d8555631af1c71646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:54 +0000
Subject: [PATCH 29/33] fix: reject a route whose pattern differs from an
 earlier one in spelling only

---
 tree.go | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/tree.go b/tree.go
index 8d1d918..5ed4e4d 100644
--- a/tree.go
+++ b/tree.go
@@ -125,6 +125,7 @@ func analyzePattern(pattern string) (typ byte, parsedPattern string, wildcards [
 
 		if strings.Contains(pattern, "~") {
 			typ = _PATTERN_REGEXP
+			parsedPattern = strings.Join(wildcards, ",")
 
 			var err error
 			reg, err = partternRegexp(pattern, len(wildcards))
@@ -147,6 +148,16 @@ func getWildcards(pattern string) []string {
 	return ls
 }
 
+// same reports whether both nodes match the same segments under the same names,
+// they may be spelled differently: <id>, < id > and <id:int>
+func (n *node) same(o *node) bool {
+	if n.typ != o.typ || n.parsedPattern != o.parsedPattern {
+		return false
+	}
+
+	return n.reg == nil || o.reg == nil || n.reg.String() == o.reg.String()
+}
+
 // --- build tree
 // add same type route match order use add order
 func (n *node) add(pattern string, handlers []Handler) *node {
@@ -166,15 +177,15 @@ func (n *node) addNextSegment(pattern string, handlers []Handler) *node {
 }
 
 func (n *node) addEndNode(pattern string, handlers []Handler) *node {
+	end := newNode(n, pattern)
+	end.handlers = handlers
+
 	for i := 0; i < len(n.endNodes); i++ {
-		if n.endNodes[i].pattern == pattern { // added
+		if n.endNodes[i].same(end) { // added
 			panic(fmt.Sprintf("double pattern : %s", pattern))
 		}
 	}
 
-	end := newNode(n, pattern)
-	end.handlers = handlers
-
 	i := 0
 	for ; i < len(n.endNodes); i++ {
 		if end.typ < n.endNodes[i].typ {
@@ -192,14 +203,14 @@ func (n *node) addEndNode(pattern string, handlers []Handler) *node {
 }
 
 func (n *node) addSubNode(segment, pattern string, handlers []Handler) *node {
+	sub := newNode(n, segment)
+
 	for i := 0; i < len(n.subNodes); i++ {
-		if n.subNodes[i].pattern == segment {
+		if n.subNodes[i].same(sub) {
 			return n.subNodes[i].addNextSegment(pattern, handlers)
 		}
 	}
 
-	sub := newNode(n, segment)
-
 	i := 0
 	for ; i < len(n.subNodes); i++ {
 		if sub.typ < n.subNodes[i].typ {
-- 
2.43.0


From 0deae81a4ffccaa590319bae04f9a4040006dec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:28 +0000
Subject: [PATCH 30/33] fix: end a segment's name at the tilde when the colon
 is part of the regexp

---
 tree.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tree.go b/tree.go
index 5ed4e4d..467e71d 100644
--- a/tree.go
+++ b/tree.go
@@ -78,8 +78,8 @@ func getparsedPattern(pattern string) string {
 		closeIdx = typeStartIdx
 	}
 	regStartIdx := strings.Index(pattern, "~")
-	if typeStartIdx == -1 && regStartIdx > -1 {
-		closeIdx = regStartIdx
+	if regStartIdx > -1 && (typeStartIdx == -1 || regStartIdx < typeStartIdx) {
+		closeIdx = regStartIdx // a colon behind it is part of the regexp: <id ~ (?:70|80)>
 	}
 
 	return strings.TrimSpace(pattern[startIdx+1 : closeIdx])
-- 
2.43.0


From b30601affc8a324c2418eef4384aa768402bf0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:48 +0000
Subject: [PATCH 31/33] fix: answer panic(nil) like any other panic in Recovery

---
 m_recovery.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/m_recovery.go b/m_recovery.go
index 94d478d..e27c2ae 100644
--- a/m_recovery.go
+++ b/m_recovery.go
@@ -11,8 +11,10 @@ import (
 
 func Recovery() HandlerFunc {
 	return func(ctx *Context) {
+		finished := false
 		defer func() {
-			if err := recover(); err != nil {
+			// panic(nil) is recovered as nil
+			if err := recover(); err != nil || !finished {
 				content := fmt.Sprintf("HandlerFunc crashed with error: %v", err)
 				for skip := 1; ; skip += 1 {
 					//当前goroutine的栈上的函数调用信息，主要有当前的PC值和被调用的文件及其行号.
@@ -41,5 +43,6 @@ func Recovery() HandlerFunc {
 		}()
 
 		ctx.Next()
+		finished = true
 	}
 }
-- 
2.43.0


From 666279f1c803503ed07172245a39c7c67435c909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:47 +0000
Subject: [PATCH 32/33] fix: parse uploads with the configured memory limit in
 FormFile

---
 content.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/content.go b/content.go
index 6d08c4b..7c11ec9 100644
--- a/content.go
+++ b/content.go
@@ -150,6 +150,11 @@ func (ctx *Context) File(filepath string) {
 }
 
 func (ctx *Context) FormFile(name string) (multipart.File, *multipart.FileHeader, error) {
+	if ctx.Request.MultipartForm == nil {
+		if err := ctx.Request.ParseMultipartForm(defaultMultipartMemory); err != nil {
+			return nil, nil, err
+		}
+	}
 	return ctx.Request.FormFile(name)
 }
 
-- 
2.43.0


From 4bd2ee7308114530cff1894ad85a10265a2cb348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:36 +0000
Subject: [PATCH 33/33] fix: HandlerName does not panic for a handler that is
 not a function

---
 util.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/util.go b/util.go
index 8d895bf..b5bc99a 100644
--- a/util.go
+++ b/util.go
@@ -104,7 +104,12 @@ func filterFlags(content string) string {
 }
 
 func nameOfFunction(f interface{}) string {
-	return runtime.FuncForPC(reflect.ValueOf(f).Pointer()).Name()
+	v := reflect.ValueOf(f)
+	if v.Kind() != reflect.Func {
+		return v.Type().String()
+	}
+
+	return runtime.FuncForPC(v.Pointer()).Name()
 }
 
 // GenerateETag generates an ETag based on file modification time and size
-- 
2.43.0

