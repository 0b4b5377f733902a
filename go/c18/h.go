// Package c18 decides property C18: the proxy forwards requests unchanged.
package c18

import (
	"net/http"
	"net/url"
	"strings"

	"github.com/redmaner/MaguroHTTP/tuna"
	"github.com/redmaner/MaguroHTTP/verif/env"
	"github.com/redmaner/MaguroHTTP/verif/lib"
	"github.com/redmaner/MaguroHTTP/verif/sym"
)

var methods = []string{"GET", "POST", "PUT", "DELETE", "HEAD", "OPTIONS", "PATCH", "TRACE", "CONNECT"}

func server(rule string, vhost bool) (*tuna.Server, *lib.Upstream) {
	set := func(c *tuna.Config) {
		c.Proxy.Enabled = true
		c.Proxy.Rules = map[string]string{"h": rule}
		c.Proxy.Methods = []string{"GET", "POST", "PUT", "DELETE", "HEAD", "OPTIONS", "PATCH"}
		c.Proxy.Headers = map[string]string{"X-Conf": "1"}
	}
	lib.Conf("/v.hcl", set)
	s := lib.Server(func(c *tuna.Config) {
		if vhost {
			c.Core.VirtualHosting = true
			c.Core.VirtualHosts = map[string]string{"h": "/v.hcl", "g": "/v.hcl"}
		} else {
			set(c)
		}
	})
	u := &lib.Upstream{}
	s.Transport = u
	return s, u
}

// request builds a request as the server parses it.
func request(method, host, uri string) *http.Request {
	p := uri
	if i := strings.IndexByte(p, '?'); i >= 0 {
		p = p[:i]
	}
	r := env.Req(method, host, p)
	r.RequestURI = uri
	return r
}

func equal(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = sym.And(ok, sym.EqStr(a[i], b[i]))
	}
	return ok
}

// check compares what the upstream received with the request.
func check(u *lib.Upstream, scheme, host, base, method, hostname, uri, body string, hdr http.Header) {
	sym.Assert(len(u.Reqs) == 1, "exactly one request is forwarded")
	q := u.Reqs[0]
	sym.Assert(q.Method == method, "same method")
	sym.Assert(q.URL.Scheme == scheme && q.URL.Host == host, "to the configured upstream")
	got := q.URL.RequestURI()
	sym.Observe("uri", got)
	sym.Observe("body", u.Bodies[0])
	sym.Assert(sym.EqStr(got, base+uri), "same request URI appended to the upstream address")
	sym.Assert(sym.EqStr(u.Bodies[0], body), "same body")
	sym.Assert(q.ContentLength == int64(len(body)) || (q.ContentLength <= 0 && body != ""), "the length of the body")
	sym.Assert(q.Host == hostname, "the original host name without port")
	sym.Assert(len(q.Header) == len(hdr), "same header fields")
	for k, v := range hdr {
		sym.Assert(equal(q.Header[k], v), "same values of each header field")
	}
	sym.Cover("forwarded")
}

var rules = []struct{ rule, scheme, host, base string }{
	{"http://u", "http", "u", ""},
	{"https://u:8443", "https", "u:8443", ""},
	{"http://u/base", "http", "u", "/base"},
	{"http://[::1]:9", "http", "[::1]:9", ""},
	{"http://u/", "http", "u", "/"},
}

// legal restricts b to the characters of a valid request target.
func legal(b byte) {
	ok := sym.Or(sym.And(b >= 'a', b <= 'z'), sym.Or(sym.And(b >= 'A', b <= 'Z'), sym.And(b >= '0', b <= '9')))
	sym.Assume(sym.Or(ok, sym.In(b, "-._~!$&'()*+,;=:@/?")))
}

// H_uri: every short request URI.
func H_uri() {
	env.Init()
	r := rules[sym.Choose("rule", len(rules))]
	s, u := server(r.rule, false)
	n := 4
	if sym.Thorough() {
		n = 6
	}
	rest := sym.String("uri", sym.Case(n))
	for i := 0; i < len(rest); i++ {
		legal(rest[i])
	}
	uri := "/" + rest
	rec := lib.Do(s, request("GET", "h", uri))
	sym.Assert(rec.Code == 200 && rec.Body == "up:"+r.scheme+":"+r.host, "the answer of the upstream")
	check(u, r.scheme, r.host, r.base, "GET", "h", uri, "", http.Header{})
}

// H_escape: percent-encoded characters stay as they are.
func H_escape() {
	env.Init()
	s, u := server("http://u", sym.Choose("vhost", 2) == 1)
	e := sym.String("hex", 2)
	for i := 0; i < 2; i++ {
		sym.Assume(sym.In(e[i], "0123456789abcdefABCDEF"))
	}
	shapes := [][2]string{{"/", ""}, {"/a", "b/c"}, {"/a/", "?q=1"}, {"/a?q=", "&x"}, {"/..", "/x"}, {"/%2e%2e/", "//"}}
	sh := shapes[sym.Case(len(shapes))]
	uri := sh[0] + "%" + e + sh[1]
	q, err := url.ParseRequestURI(uri) // as net/http does
	if err != nil {
		return
	}
	r := env.Req("GET", "h", q.Path)
	r.URL = q
	r.RequestURI = uri
	lib.Do(s, r)
	check(u, "http", "u", "", "GET", "h", uri, "", http.Header{})
}

// H_special: request URIs of special shapes.
func H_special() {
	env.Init()
	r := rules[sym.Choose("rule", len(rules))]
	s, u := server(r.rule, sym.Choose("vhost", 2) == 1)
	us := []string{"/", "//", "//x/y", "/a/../b", "/./a", "/a/", "/a//b", "/?", "/a?", "/a?b?c", "/a?x=%20+&y", "/a;b=c", "/:80", "/@x", "/http://x/", "/a%2Fb", "/%2e%2e/", "/a%00b", "/a:b/c", "/a=b&c", "/*"}
	uri := us[sym.Case(len(us))]
	q, err := url.ParseRequestURI(uri)
	if err != nil {
		panic(err)
	}
	host := []string{"h", "h:80", "h:"}[sym.Choose("host", 3)]
	x := env.Req("POST", host, q.Path)
	x.URL = q
	x.RequestURI = uri
	x.Body = env.NewBody("b")
	lib.Do(s, x)
	check(u, r.scheme, r.host, r.base, "POST", "h", uri, "b", http.Header{})
}

// H_body: every short body and every header set, for every method.
func H_body() {
	env.Init()
	s, u := server("http://u", sym.Choose("vhost", 2) == 1)
	m := methods[sym.Choose("method", 7)]
	n := 3
	if sym.Thorough() {
		n = 6
	}
	body := sym.String("body", sym.Case(n))
	host := []string{"h", "h:80"}[sym.Choose("host", 2)]
	r := request(m, host, "/p?q")
	b := env.NewBody(body)
	if body != "" || sym.Choose("no body", 2) == 0 {
		r.Body = b
	}
	r.ContentLength = int64(len(body))
	hdr := http.Header{}
	names := []string{"X-A", "Cookie", "Accept", "Connection", "Content-Type", "User-Agent", "Authorization", "x-raw", "X-Forwarded-For", "If-None-Match", "Te"}
	k := names[sym.Choose("name", len(names))]
	for i := sym.Choose("values", 3); i > 0; i-- {
		hdr[k] = append(hdr[k], sym.String("value", 1+i%2))
	}
	if sym.Choose("more", 2) == 1 {
		hdr["X-Conf"] = []string{sym.String("other", 1)}
		hdr["X-Empty"] = []string{""}
	}
	orig := http.Header{}
	for k, v := range hdr {
		r.Header[k] = append([]string(nil), v...)
		orig[k] = append([]string(nil), v...)
	}
	ct := ""
	if v := r.Header["Content-Type"]; len(v) > 0 {
		ct = v[0]
	}
	_ = ct
	u.Answer = func(q *http.Request) *http.Response {
		check(u, "http", "u", "", m, "h", "/p?q", body, hdr)
		// what the transport does to its request must not reach the client's request
		for k := range q.Header {
			q.Header[k][0] = "changed"
		}
		q.Header["Added"] = []string{"1"}
		return u.Resp(200, "", http.Header{})
	}
	rec := lib.Do(s, r)
	sym.Assert(rec.Code == 200, "answered")
	sym.Assert(len(u.Reqs) == 1, "exactly one request is forwarded")
	sym.Assert(len(r.Header) == len(orig), "the client's headers are not modified")
	for k, v := range orig {
		sym.Assert(equal(r.Header[k], v), "the client's headers are not modified")
	}
}

// H_nobody: hosts without a rule and methods without a route are not forwarded.
func H_nobody() {
	env.Init()
	vhost := sym.Choose("vhost", 2) == 1
	s, u := server("http://u", vhost)
	host := sym.String("host", 1) + []string{"", ":80"}[sym.Choose("port", 2)]
	sym.Assume(sym.Not(sym.In(host[0], ":/[]")))
	m := methods[sym.Case(len(methods))]
	lib.Do(s, request(m, host, "/p"))
	if len(u.Reqs) > 0 {
		sym.Cover("forwarded")
		sym.Assert(host[0] == 'h', "only a host with a rule is forwarded")
		sym.Assert(m != "TRACE" && m != "CONNECT", "only configured methods are forwarded")
	} else {
		sym.Cover("not forwarded")
		sym.Assert(sym.Or(host[0] != 'h', m == "TRACE" || m == "CONNECT"), "a host with a rule is forwarded")
	}
}

// H_twice: two requests in a row are forwarded independently.
func H_twice() {
	env.Init()
	s, u := server("http://u", false)
	for i := 0; i < 2; i++ {
		u.Reqs, u.Bodies = nil, nil
		u.Fail = sym.Bool("upstream fails")
		body := sym.String("body", sym.Choose("size", 3))
		r := request("POST", "h", "/"+sym.String("uri", 1))
		legal(r.RequestURI[1])
		r.Body = env.NewBody(body)
		v := sym.String("value", 1)
		r.Header["X-A"] = []string{v}
		rec := lib.Do(s, r)
		if u.Fail {
			sym.Assert(rec.Code == 502, "no answer")
		} else {
			sym.Assert(rec.Code == 200, "answered")
		}
		check(u, "http", "u", "", "POST", "h", r.RequestURI, body, http.Header{"X-A": {v}})
	}
	_ = sym.Case(1)
}

// any is a server that proxies host to rule and accepts every method.
func any(host, rule string) (*tuna.Server, *lib.Upstream, []string) {
	ms := []string{"GET", "HEAD", "POST", "PUT", "PATCH", "DELETE", "OPTIONS", "CONNECT", "PROPFIND", "PROPPATCH", "MKCOL", "COPY", "MOVE", "LOCK", "UNLOCK"}
	s := lib.Server(func(c *tuna.Config) {
		c.Core.WebDAV = true
		c.Proxy.Enabled = true
		c.Proxy.Rules = map[string]string{"other": "http://o", host: rule}
		c.Proxy.Methods = ms
		c.Guard.Rate = 1000000
		c.Guard.RateBurst = 1000000
	})
	u := &lib.Upstream{}
	s.Transport = u
	return s, u, ms
}

// H_large: large bodies, many and long header fields, any method.
func H_large() {
	env.Init()
	s, u, ms := any("h", "http://u")
	m := ms[sym.Choose("method", len(ms))]
	kind := sym.Case(5)
	hdr := http.Header{"Content-Type": {"application/json"}, "Accept": {"*/*"}}
	body := ""
	size := -1
	switch kind {
	case 0:
		body = lib.Repeat(sym.Size("body", []int{0, 1, 5000, 70000}[sym.Choose("body size", 4)], 1<<22))
	case 1:
		n := sym.Size("values", 12, 300)
		for i := 0; i < n; i++ {
			hdr["X-V"] = append(hdr["X-V"], "v"+string(rune('a'+i%26)))
			hdr["Cookie"] = append(hdr["Cookie"], "c"+string(rune('a'+i%26)))
		}
	case 2:
		n := sym.Size("fields", 60, 300)
		for i := 0; i < n; i++ {
			hdr["X-F"+lib.Repeat(i%16+i/16+1)] = []string{"v"}
		}
	case 3:
		hdr["X-Long"] = []string{lib.Repeat(sym.Size("value", 9000, 1<<17))}
		hdr["Authorization"] = []string{"Bearer " + lib.Repeat(2000)}
	case 4:
		body = "abc"
		size = sym.Choose("length", 2)*4 - 1 // -1 is chunked
	}
	r := request(m, "h", "/p?q")
	r.Body = env.NewBody(body)
	r.ContentLength = int64(len(body))
	if kind == 4 {
		r.ContentLength = int64(size)
	}
	if sym.Choose("headers", 2) == 1 {
		for _, k := range []string{"Connection", "Keep-Alive", "Proxy-Connection", "Te", "Trailer", "Upgrade", "Proxy-Authorization", "Expect", "X-Forwarded-For", "X-Real-Ip", "Forwarded", "Via", "Accept-Encoding", "Cookie", "Range", "Referer", "Origin", "Dnt", "If-None-Match", "Content-Encoding", "Destination", "Depth", "Lock-Token", "X-Http-Method-Override"} {
			if hdr[k] == nil {
				hdr[k] = []string{"x"}
			}
		}
	}
	for k, v := range hdr {
		r.Header[k] = append([]string(nil), v...)
	}
	rec := lib.Do(s, r)
	sym.Assert(rec.Code == 200, "answered")
	check(u, "http", "u", "", m, "h", "/p?q", body, hdr)
}

// H_status: whatever the upstream answers, it is asked once.
func H_status() {
	env.Init()
	s, u, ms := any("h", "http://u")
	class := sym.Case(6)
	for i := 0; i < 3; i++ {
		m := ms[0]
		code := 0
		if i == 0 {
			m = ms[sym.Choose("method", 3)]
			code = 100*class + []int{0, 1, 3, 4, 8}[sym.Choose("code", 5)]
		}
		if i > 0 {
			code = 503
		}
		u.Reqs, u.Bodies = nil, nil
		u.Fail = code == 0
		u.Answer = func(q *http.Request) *http.Response {
			return u.Resp(code, "", http.Header{"Location": {"/other"}, "Retry-After": {"0"}, "Connection": {"close"}})
		}
		r := request(m, "h", "/p")
		r.Body = env.NewBody("b")
		lib.Do(s, r)
		check(u, "http", "u", "", m, "h", "/p", "b", http.Header{})
	}
}

// H_hosts: rules for many kinds of hosts and upstreams.
func H_hosts() {
	env.Init()
	hs := []string{"Up.Example", "localhost", "127.0.0.1", "a.b.c", "www.h", "h-1", "xn--bcher-kva.example", "h_1", lib.WordHost("q")}
	h := hs[sym.Case(len(hs))]
	up := rules[sym.Choose("rule", len(rules)-1)]
	if k := sym.Choose("upstream", 4); k > 0 {
		up.host = []string{"", "127.0.0.1:8080", "localhost", "Up.Example:80"}[k]
		up.rule, up.scheme, up.base = "http://"+up.host, "http", ""
	}
	s, u, _ := any(h, up.rule)
	r := request("POST", h+[]string{"", ":80", ":8443"}[sym.Choose("port", 3)], "/p/")
	r.Body = env.NewBody("b")
	if up.rule == "http://u" {
		r.RemoteAddr, _ = lib.AnyClient()
	}
	lib.Do(s, r)
	check(u, up.scheme, up.host, up.base, "POST", h, "/p/", "b", http.Header{})
	// a similar host without a rule
	u.Reqs, u.Bodies = nil, nil
	lib.Do(s, request("POST", []string{"x" + h, h + "x", h[1:], "www." + h, ""}[sym.Choose("similar", 5)], "/p/"))
	sym.Assert(len(u.Reqs) == 0, "no request is forwarded for a host without a rule")
}

// H_names: paths, header fields and values a changed tree newly mentions; long request URIs.
func H_names() {
	env.Init()
	s, u, ms := any("h", "http://u")
	p := "/" + lib.Repeat(sym.Size("uri", []int{10, 300, 3000}[sym.Choose("size", 3)], 1<<16))
	switch sym.Case(3) {
	case 1:
		p = lib.WordPath("/index.html")
	case 2:
		p = "/p?" + lib.WordText("a=b") + "&" + lib.WordText("c")
	}
	m := ms[[]int{0, 2, 8}[sym.Choose("method", 3)]]
	hdr := http.Header{"Accept": {lib.WordText("a/b")}}
	hdr[lib.WordHeader("X-Q")] = []string{lib.WordText("v")}
	r := request(m, "h", p)
	for k, v := range hdr {
		r.Header[k] = append([]string(nil), v...)
	}
	r.RemoteAddr, _ = lib.WordClient("10.0.0.1:9", "10.0.0.1")
	lib.Do(s, r)
	check(u, "http", "u", "", m, "h", p, "", hdr)
}
