// Package c19 decides property C19: the client receives the answer of the upstream.
package c19

import (
	"net/http"

	"github.com/redmaner/MaguroHTTP/tuna"
	"github.com/redmaner/MaguroHTTP/verif/env"
	"github.com/redmaner/MaguroHTTP/verif/lib"
	"github.com/redmaner/MaguroHTTP/verif/sym"
)

const hsts = "max-age=31557600;"

var confs = []map[string]string{nil, {"X-Conf": "1"}, {"X-A": "conf"}, {"Set-Cookie": "conf", "Content-Type": "conf/type"}}

func server(rule string, vhost, tls bool, conf map[string]string) (*tuna.Server, *lib.Upstream) {
	set := func(c *tuna.Config) {
		c.Proxy.Enabled = true
		c.Proxy.Rules = map[string]string{"h": rule}
		c.Proxy.Methods = []string{"GET", "POST", "HEAD"}
		c.Proxy.Headers = conf
		c.Serve.Headers = map[string]string{"X-Serve": "1"}
	}
	lib.Conf("/v.hcl", set)
	s := lib.Server(func(c *tuna.Config) {
		if tls {
			c.Core.TLS.Enabled = true
			c.Core.TLS.TLSCert = "/c"
			c.Core.TLS.TLSKey = "/k"
		}
		if vhost {
			c.Core.VirtualHosting = true
			c.Core.VirtualHosts = map[string]string{"h": "/v.hcl", "g": "/v.hcl"}
		} else {
			set(c)
		}
	})
	u := &lib.Upstream{}
	s.Transport = u
	return s, u
}

func equal(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = sym.And(ok, sym.EqStr(a[i], b[i]))
	}
	return ok
}

// headers checks the header the client received.
func headers(rec *env.Rec, h http.Header, conf map[string]string, tls bool) {
	want := http.Header{}
	for k, v := range h {
		want[k] = v
	}
	if tls {
		want["Strict-Transport-Security"] = []string{hsts}
	}
	for k, v := range conf {
		want[k] = nil
		sym.Assert(len(rec.Sent[k]) > 0 && rec.Sent[k][len(rec.Sent[k])-1] == v, "configured headers are present")
	}
	for k, v := range want {
		if v != nil {
			sym.Assert(equal(rec.Sent[k], v), "every value of every header of the upstream")
		}
	}
	for k := range rec.Sent {
		_, ok := want[k]
		sym.Assert(ok, "no other headers")
	}
}

// H_status: every status.
func H_status() {
	env.Init()
	vhost, tls := sym.Choose("vhost", 2) == 1, sym.Choose("tls", 2) == 1
	s, u := server("http://u", vhost, tls, confs[1])
	code := 200 + 100*sym.Case(8) + sym.IntRange("code", 0, 99)
	sym.Assume(sym.Not(sym.Or(code == 204, code == 304)))
	body := sym.String("body", sym.Choose("size", 3))
	u.Answer = func(r *http.Request) *http.Response { return u.Resp(code, body, http.Header{}) }
	rec := lib.Do(s, env.Req("GET", "h", "/p"))
	sym.Observe("code", rec.Code)
	sym.Assert(rec.Code == code, "same status")
	sym.Assert(rec.NHeader == 1, "one status")
	sym.Assert(sym.EqStr(rec.Body, body), "same body")
	sym.Assert(u.Body.Closed >= 1, "the body of the upstream is closed")
	headers(rec, nil, confs[1], tls)
	sym.Cover("returned")
}

// H_headers: headers and bodies.
func H_headers() {
	env.Init()
	vhost, tls := sym.Choose("vhost", 2) == 1, sym.Choose("tls", 2) == 1
	conf := confs[sym.Case(len(confs))]
	s, u := server("http://u", vhost, tls, conf)
	n := 3
	if sym.Thorough() {
		n = 6
	}
	body := sym.String("body", sym.Choose("size", n))
	h := http.Header{}
	names := []string{"X-A", "Set-Cookie", "Content-Type", "Location", "Server", "X-Frame-Options", "Content-Security-Policy", "Strict-Transport-Security", "Connection", "Cache-Control", "Www-Authenticate", "X-Serve", "Date"}
	k := names[sym.Choose("name", len(names))]
	for i := sym.Choose("values", 3); i >= 0; i-- {
		h[k] = append(h[k], sym.String("value", 2-i))
	}
	if sym.Choose("more", 2) == 1 {
		h["X-Other"] = []string{"1", "2", "1"}
	}
	code := []int{200, 204, 304, 404, 500}[sym.Choose("code", 5)]
	if code == 204 || code == 304 {
		body = ""
	}
	sent := http.Header{}
	for k, v := range h {
		sent[k] = append([]string(nil), v...)
	}
	u.Answer = func(r *http.Request) *http.Response { return u.Resp(code, body, h) }
	rec := lib.Do(s, env.Req([]string{"GET", "POST"}[sym.Choose("method", 2)], "h:80", "/p"))
	sym.Observe("body", rec.Body)
	sym.Assert(rec.Code == code, "same status")
	sym.Assert(rec.NHeader == 1, "one status")
	sym.Assert(sym.EqStr(rec.Body, body), "same body")
	sym.Assert(u.Body.Closed >= 1, "the body of the upstream is closed")
	headers(rec, sent, conf, tls)
	sym.Cover("returned")
}

// bad checks for a 502 and nothing else.
func bad(rec *env.Rec, tls bool) {
	sym.Observe("code", rec.Code)
	sym.Assert(rec.Code == 502, "502 without an answer")
	sym.Assert(rec.NHeader == 1, "one status")
	b := lib.Main(rec.Body)
	sym.Assert(b != rec.Body, "the error page")
	sym.Assert(len(rec.Sent["X-A"]) == 0 && len(rec.Sent["Set-Cookie"]) == 0, "nothing of an upstream")
	sym.Cover("502")
}

// H_fail: failures before there is an answer.
func H_fail() {
	env.Init()
	vhost, tls := sym.Choose("vhost", 2) == 1, sym.Choose("tls", 2) == 1
	rule := "http://u"
	r := env.Req([]string{"GET", "POST", "HEAD"}[sym.Choose("method", 3)], []string{"h", "h:80"}[sym.Choose("host", 2)], "/p")
	body := sym.String("body", sym.Choose("size", 4))
	b := env.NewBody(body)
	r.Body = b
	fail := false
	switch sym.Case(7) {
	case 0:
		fail = true
	case 1:
		b.FailAt = sym.Choose("at", len(body)+1)
	case 2:
		rule = "http://u:x"
	case 3:
		rule = "%zz"
	case 4:
		r.RequestURI = "*"
	case 5:
		r.RequestURI = "/%zz"
	case 6:
		r.RequestURI = "http://h/"
	}
	s, u := server(rule, vhost, tls, confs[sym.Choose("conf", len(confs))])
	u.Fail = fail
	u.Answer = func(r *http.Request) *http.Response {
		return u.Resp(200, "up", http.Header{"X-A": {"1"}, "Set-Cookie": {"1"}})
	}
	if s.Cfg.Proxy.Headers["X-A"] != "" || s.Cfg.Proxy.Headers["Set-Cookie"] != "" {
		sym.Cover("configured headers")
	}
	rec := lib.Do(s, r)
	bad(rec, tls)
	if !fail {
		// the server works on
		u.Reqs = nil
	}
	u.Fail = false
	x := lib.Do(s, env.Req("GET", "h", "/p"))
	if rule == "http://u" {
		sym.Assert(x.Code == 200 && x.Body == "up", "later requests are answered")
	}
}

// H_broken: the answer of the upstream or the connection of the client breaks off.
func H_broken() {
	env.Init()
	s, u := server("http://u", sym.Choose("vhost", 2) == 1, false, nil)
	code := []int{200, 404, 500, 502}[sym.Case(4)]
	body := sym.String("body", 3)
	at := sym.Choose("breaks after", 4)
	up := sym.Choose("upstream", 2) == 1
	u.Answer = func(r *http.Request) *http.Response {
		x := u.Resp(code, body, http.Header{"X-A": {"1", "2"}})
		if up {
			u.Body.FailAt = at
		}
		return x
	}
	r := env.Req("GET", "h", "/p")
	rec := env.NewRec()
	if !up {
		rec.FailAt = 1
	}
	s.Router.ServeHTTP(rec, r)
	rec.Done()
	sym.Assert(rec.Code == code, "same status")
	sym.Assert(rec.NHeader == 1, "one status")
	sym.Assert(len(rec.Body) <= 3 && sym.EqStr(rec.Body, body[:len(rec.Body)]), "nothing but the body of the upstream")
	if up {
		sym.Assert(len(rec.Body) == at, "as much as was received")
	}
	sym.Assert(equal(rec.Sent["X-A"], []string{"1", "2"}), "headers of the upstream")
	sym.Assert(u.Body.Closed >= 1, "the body of the upstream is closed")
	sym.Cover("broken")
	y := lib.Do(s, r)
	sym.Assert(y.NHeader == 1, "later requests are answered")
}

// H_pair: two requests at once get their own answers.
func H_pair() {
	env.Init()
	s, _ := server("http://u", sym.Case(2) == 1, false, confs[1])
	a, b := sym.String("a", 2), sym.String("b", 1)
	s.Transport = both{a, b}
	do := func(p, body, other string, code int) {
		r := env.Req("POST", "h", p)
		r.Body = env.NewBody(p)
		rec := lib.Do(s, r)
		sym.Assert(rec.Code == code, "its own status")
		sym.Assert(sym.EqStr(rec.Body, body), "its own body")
		sym.Assert(equal(rec.Sent["X-A"], []string{body}), "its own headers")
		sym.Cover("answered")
	}
	sym.Go(func() { do("/a", a, b, 200) })
	sym.Go(func() { do("/b", b, a, 404) })
	sym.Wait()
}

// both is an upstream that answers by path.
type both struct{ a, b string }

func (u both) RoundTrip(r *http.Request) (*http.Response, error) {
	buf := make([]byte, 8)
	n, _ := r.Body.Read(buf)
	sym.Assert(string(buf[:n]) == r.URL.Path, "its own body is forwarded")
	body, code := u.a, 200
	if r.URL.Path == "/b" {
		body, code = u.b, 404
	}
	return &http.Response{StatusCode: code, Header: http.Header{"X-A": {body}}, Body: env.NewBody(body), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1}, nil
}

// H_twice: nothing of an answer shows in the next.
func H_twice() {
	env.Init()
	conf := confs[sym.Case(len(confs))]
	s, u := server("http://u", sym.Choose("vhost", 2) == 1, false, conf)
	n := 2
	if sym.Thorough() {
		n = 3
	}
	for i := 0; i < n; i++ {
		h := http.Header{}
		if sym.Choose("header", 2) == 1 {
			h["X-B"] = []string{sym.String("value", 1)}
		}
		body := sym.String("body", sym.Choose("size", 2))
		code := []int{200, 404}[sym.Choose("code", 2)]
		fail := sym.Choose("fails", 2) == 1
		u.Fail = fail
		u.Answer = func(r *http.Request) *http.Response { return u.Resp(code, body, h) }
		rec := lib.Do(s, env.Req("GET", "h", "/p"))
		if fail {
			bad(rec, false)
			sym.Assert(len(rec.Sent["X-B"]) == 0, "nothing of an upstream")
			continue
		}
		sym.Assert(rec.Code == code, "same status")
		sym.Assert(sym.EqStr(rec.Body, body), "same body")
		sym.Assert(u.Body.Closed >= 1, "the body of the upstream is closed")
		headers(rec, h, conf, false)
	}
}

// H_known: well-known header fields and statuses, any method.
func H_known() {
	env.Init()
	names := []string{"X-Powered-By", "Server", "Via", "Date", "Location", "Content-Location", "Link", "Refresh", "Set-Cookie", "Etag", "Last-Modified", "Expires", "Cache-Control", "Pragma", "Vary", "Age",
		"Allow", "Retry-After", "Www-Authenticate", "Proxy-Authenticate", "Access-Control-Allow-Origin", "Content-Encoding", "Content-Disposition", "Content-Language", "Content-Range", "Accept-Ranges",
		"Keep-Alive", "Upgrade", "Trailer", "Alt-Svc", "Referrer-Policy", "X-Content-Type-Options", "X-Xss-Protection", "X-Accel-Redirect", "X-Sendfile", "X-Aspnet-Version", "X-Request-Id", "Dav", "Lock-Token", ""}
	k := names[sym.Case(len(names))]
	if k == "" {
		k = lib.WordHeader("X-Internal")
	}
	vary := sym.Choose("vary", 3)
	tls := vary == 2 && sym.Choose("tls", 2) == 1
	ms := []string{"GET", "HEAD", "POST", "PUT", "DELETE", "OPTIONS", "PATCH", "PROPFIND", "MOVE"}
	s := lib.Server(func(c *tuna.Config) {
		c.Core.WebDAV = true
		if tls {
			c.Core.TLS.Enabled = true
			c.Core.TLS.TLSCert = "/c"
			c.Core.TLS.TLSKey = "/k"
		}
		c.Proxy.Enabled = true
		c.Proxy.Rules = map[string]string{"h": "http://u:8080"}
		c.Proxy.Methods = ms
	})
	u := &lib.Upstream{}
	s.Transport = u
	vs := []string{"http://u:8080/x", "https://h/", "0", "a, b; c=\"d\"", "", "nginx/1.0 (x)", lib.WordText("close")}
	v := vs[sym.Choose("value", len(vs))]
	code, m, size := 200, ms[0], 0
	switch vary {
	case 0:
		code = []int{200, 201, 206, 301, 302, 307, 401, 407, 418, 426, 429, 500, 503, 504, 599}[sym.Choose("code", 15)]
	case 1:
		m = ms[sym.Choose("method", len(ms))]
	case 2:
		code = []int{200, 301, 500}[sym.Choose("code", 3)]
		size = []int{-1, 0, 4}[sym.Choose("content length", 3)]
	}
	body := "body"
	if m == "HEAD" {
		body = ""
	}
	h := http.Header{k: {v}, "X-B": {"1"}}
	sent := http.Header{k: {v}, "X-B": {"1"}}
	u.Answer = func(r *http.Request) *http.Response {
		x := u.Resp(code, body, h)
		x.ContentLength = int64(size)
		x.Request = r
		return x
	}
	rec := lib.Do(s, env.Req(m, "h", "/p"))
	sym.Assert(rec.Code == code, "same status")
	sym.Assert(rec.NHeader == 1, "one status")
	sym.Assert(rec.Body == body, "same body")
	sym.Assert(u.Body.Closed >= 1, "the body of the upstream is closed")
	sym.Assert(len(u.Reqs) == 1, "one request")
	headers(rec, sent, nil, tls)
	sym.Cover("returned")
}

// H_large: large bodies, many and long header fields.
func H_large() {
	env.Init()
	conf := confs[sym.Choose("conf", len(confs))]
	s, u := server("http://u", sym.Choose("vhost", 2) == 1, false, conf)
	h, sent := http.Header{}, http.Header{}
	body := "b"
	code := []int{200, 404, 500}[sym.Choose("code", 3)]
	switch sym.Case(4) {
	case 0:
		body = lib.Repeat(sym.Size("body", []int{0, 512, 5000, 70000}[sym.Choose("size", 4)], 1<<22))
	case 1:
		n := sym.Size("values", 30, 300)
		for i := 0; i < n; i++ {
			c := string(rune('a' + i%26))
			h["Set-Cookie"] = append(h["Set-Cookie"], c)
			h["X-V"] = append(h["X-V"], c)
			h["Link"] = append(h["Link"], "same")
		}
	case 2:
		n := sym.Size("fields", 60, 300)
		for i := 0; i < n; i++ {
			h["X-F"+lib.Repeat(i%16+i/16+1)] = []string{"v"}
		}
	case 3:
		h["X-Long"] = []string{lib.Repeat(sym.Size("value", 9000, 1<<17))}
		h["Location"] = []string{"/" + lib.Repeat(3000)}
	}
	for k, v := range h {
		sent[k] = append([]string(nil), v...)
	}
	u.Answer = func(r *http.Request) *http.Response { return u.Resp(code, body, h) }
	rec := lib.Do(s, env.Req("GET", "h", "/p"))
	sym.Assert(rec.Code == code, "same status")
	sym.Assert(rec.NHeader == 1, "one status")
	sym.Assert(len(rec.Body) == len(body) && rec.Body == body, "same body")
	sym.Assert(u.Body.Closed >= 1, "the body of the upstream is closed")
	headers(rec, sent, conf, false)
}

// H_many: many requests in a row with failures in between.
func H_many() {
	env.Init()
	s, u := server("http://u", sym.Case(2) == 1, false, nil)
	fails := []int{0, 1, 3, 10}[sym.Choose("failures in a row", 4)]
	n := sym.Size("requests", 30, 300)
	for i := 0; i < n; i++ {
		fail := fails > 0 && i%(fails+1) != 0
		u.Fail = fail
		code := []int{200, 503, 404}[i%3]
		u.Answer = func(r *http.Request) *http.Response { return u.Resp(code, "b", http.Header{"X-B": {"1"}}) }
		rec := lib.Do(s, env.Req("GET", "h", "/p"))
		if fail {
			bad(rec, false)
			continue
		}
		sym.Assert(rec.Code == code && rec.Body == "b", "same status and body")
		headers(rec, http.Header{"X-B": {"1"}}, nil, false)
	}
}

// H_names: paths, hosts and header values a changed tree newly mentions.
func H_names() {
	env.Init()
	s := lib.Server(func(c *tuna.Config) {
		c.Proxy.Enabled = true
		c.Proxy.Rules = map[string]string{"h": "http://" + lib.WordHost("u"), "o": "http://o"}
		c.Proxy.Methods = []string{"GET", "POST"}
	})
	u := &lib.Upstream{}
	s.Transport = u
	body := []string{"", lib.WordText("b")}[sym.Case(2)]
	h, sent := http.Header{"Content-Type": {lib.WordText("a/b")}}, http.Header{}
	h[lib.WordHeader("X-Q")] = []string{lib.WordText("v")}
	for k, v := range h {
		sent[k] = append([]string(nil), v...)
	}
	code := sym.Size("status", 200, 999)
	sym.Assume(code >= 200 && code != 204 && code != 304)
	u.Answer = func(r *http.Request) *http.Response { return u.Resp(code, body, h) }
	rec := lib.Do(s, env.Req("GET", "h", lib.WordPath("/p")))
	sym.Assert(rec.Code == code && rec.Body == body, "same status and body")
	headers(rec, sent, nil, false)
}
