// Package c29 decides property C29: no request can crash or hang the server.
package c29

import (
	"net/http"
	"strings"

	"github.com/redmaner/MaguroHTTP/tuna"
	"github.com/redmaner/MaguroHTTP/verif/env"
	"github.com/redmaner/MaguroHTTP/verif/lib"
	"github.com/redmaner/MaguroHTTP/verif/sym"
)

// kinds of servers
const (
	serve = iota
	download
	proxy
	guarded
	vhosts
	metrics
	webdav
	types
	kinds
)

func guard(c *tuna.Config) {
	c.Guard.Rate, c.Guard.RateBurst = 60, 100
}

func part(k int) func(c *tuna.Config) {
	return func(c *tuna.Config) {
		guard(c)
		switch k {
		case download:
			c.Serve.ServeDir, c.Serve.ServeIndex = "/w", "/i"
			c.Serve.Download.Enabled = true
			c.Serve.Download.Exts = []string{".txt", ""}
		case proxy:
			c.Proxy.Enabled = true
			c.Proxy.Rules = map[string]string{"h": "http://u", "g": "https://u:1/b"}
			c.Proxy.Methods = []string{"GET", "POST", "HEAD", "CONNECT", "OPTIONS"}
		default:
			c.Serve.ServeDir, c.Serve.ServeIndex = "/w", "i"
			c.Serve.Methods = map[string]string{"/": "GET;HEAD;CONNECT;OPTIONS", "/d": "GET", "/d/": "POST"}
			c.Serve.Headers = map[string]string{"X-A": "b"}
		}
		switch k {
		case guarded:
			c.Guard.Firewall.Enabled = true
			c.Guard.Firewall.Blacklisting = true
			c.Guard.Firewall.Subpath = true
			c.Guard.Firewall.Rules = map[string][]string{"/d": {"9.9.9.9"}, "/": {"", "::1"}, "": {"x"}}
		case types:
			c.Serve.MIMETypes.RequestTypes = map[string]string{"/": "text/a;text/b", "/d": ";"}
			c.Serve.MIMETypes.ResponseTypes = map[string]string{"/a": "text/a"}
		}
	}
}

func server(k int) (*tuna.Server, *lib.Upstream) {
	env.PutDir("/w")
	env.Put("/w/a", "A")
	env.Put("/w/a.txt", "T")
	env.PutDir("/w/d")
	env.Put("/w/d/i", "I")
	env.PutDir("/f")
	if k == metrics {
		env.PutDir("/m")
		env.Put("/c", "pem")
		env.Put("/k", "pem")
	}
	lib.Conf("/h.hcl", part(serve))
	lib.Conf("/g.hcl", part(proxy))
	s := lib.Server(func(c *tuna.Config) {
		part(k)(c)
		switch k {
		case vhosts:
			c.Core.VirtualHosting = true
			c.Core.VirtualHosts = map[string]string{"h": "/h.hcl", "g": "/g.hcl"}
		case metrics:
			lib.WithMetrics(c)
		case webdav:
			c.Core.WebDAV = true
			c.Serve.Methods = map[string]string{"/": "GET;PROPFIND;LOCK"}
		}
	})
	u := &lib.Upstream{}
	s.Transport = u
	return s, u
}

// state shows the configuration of a server.
func state(s *tuna.Server) string {
	return sym.JSONMarshal(s.Cfg, "", "") + sym.JSONMarshal(s.Vhosts, "", "")
}

type life struct {
	s     *tuna.Server
	u     *lib.Upstream
	k     int
	conf  string
	first []*env.Rec
}

func start(k int) *life {
	l := &life{k: k}
	l.s, l.u = server(k)
	l.conf = state(l.s)
	l.first = l.usual()
	return l
}

// usual sends ordinary requests.
func (l *life) usual() []*env.Rec {
	var r []*env.Rec
	for _, p := range []string{"/a", "/gone"} {
		for _, h := range []string{"h", "g"} {
			q := env.Req("GET", h, p)
			q.RemoteAddr = "192.0.2.9:7"
			r = append(r, lib.Do(l.s, q))
		}
	}
	return r
}

// do sends a request and checks everything the property says about it.
func (l *life) do(r *http.Request, rec *env.Rec) {
	l.s.Router.ServeHTTP(rec, r)
	rec.Done()
	sym.Observe("code", rec.Code)
	sym.Assert(rec.Code >= 100 && rec.Code <= 999 && rec.Extra == 0, "exactly one status")
	l.after()
}

// after checks that the server is as good as before.
func (l *life) after() {
	sym.Assert(state(l.s) == l.conf, "the configuration is not modified")
	for i, x := range l.usual() {
		y := l.first[i]
		sym.Assert(x.Code == y.Code && sym.EqStr(x.Body, y.Body), "later requests are answered as before")
	}
	if l.k == metrics {
		rec := env.NewRec()
		lib.View(l.s, rec)
		sym.Assert(rec.Code == 200, "metrics are still shown")
	}
	sym.Cover("answered")
}

var methods = []string{"GET", "HEAD", "CONNECT", "OPTIONS", "POST", "PROPFIND", "BREW", ""}
var hosts = []string{"h", "", "g", "h:80", "[::1]:80", ":", "DEFAULT", "h:"}

// H_path: every short path, with each prefix.
func H_path() {
	env.Init()
	c := sym.Case(kinds * 4)
	l := start(c % kinds)
	pre := []string{"", "/", "/d/", "/metrics"}[c/kinds]
	n := 3
	if sym.Thorough() {
		n = 4
	}
	r := env.Req("GET", "h", pre+sym.String("path", sym.Choose("length", n)))
	l.do(r, env.NewRec())
}

// H_odd: odd paths, methods and hosts.
func H_odd() {
	env.Init()
	l := start(sym.Case(kinds))
	paths := []string{"", "*", "/", "//", "/.", "/..", "/d", "/d/", "/d//", "/../../w/a", "a", "h:443", "/metrics/", "/a.txt/", "/%2e%2e/", "/\x00", "/\xff", "/d/i"}
	m, h := methods[0], hosts[0]
	if k := sym.Choose("method", len(methods)+len(hosts)-1); k < len(methods) {
		m = methods[k]
	} else {
		h = hosts[k-len(methods)+1]
	}
	l.do(env.Req(m, h, paths[sym.Choose("path", len(paths))]), env.NewRec())
}

// H_host: every short host.
func H_host() {
	env.Init()
	l := start(sym.Case(kinds))
	n := 3
	if sym.Thorough() {
		n = 4
	}
	r := env.Req("GET", sym.String("host", sym.Choose("length", n+1)), "/a")
	l.do(r, env.NewRec())
}

// H_method: every short method.
func H_method() {
	env.Init()
	l := start(sym.Case(kinds))
	n := 4
	if sym.Thorough() {
		n = 8
	}
	r := env.Req(sym.String("method", sym.Choose("length", n)), "h", "/a")
	l.do(r, env.NewRec())
}

// H_header: every short value of the headers the server reads.
func H_header() {
	env.Init()
	l := start(sym.Case(kinds))
	names := []string{"Content-Type", "User-Agent", "Authorization", "X-Forwarded-For", "X-Real-Ip", "Connection", "Te", "Range", "If-Modified-Since", "Upgrade"}
	name := names[sym.Choose("name", len(names))]
	path := "/a"
	if l.k == metrics && name == "Authorization" {
		path = "/metrics"
	}
	r := env.Req("GET", "h", path)
	switch sym.Choose("values", 3) {
	case 0:
		r.Header[name] = []string{}
	case 1:
		n := 3
		if name == "Range" || name == "If-Modified-Since" {
			n = 0
		}
		r.Header[name] = []string{sym.String("value", sym.Choose("length", n+1))}
	case 2:
		r.Header[name] = []string{"", "Basic dTpw"}
	}
	l.do(r, env.NewRec())
}

// H_client: every short remote address.
func H_client() {
	env.Init()
	l := start(sym.Case(kinds))
	r := env.Req("GET", "h", "/d/i")
	special := []string{"@", "[::1]:9", "[fe80::1%eth0]:9", "9.9.9.9:1", "pipe"}
	if k := sym.Choose("address", 4+len(special)); k < 4 {
		r.RemoteAddr = sym.String("bytes", k)
	} else {
		r.RemoteAddr = special[k-4]
	}
	l.do(r, env.NewRec())
}

// H_fault: file-system errors.
func H_fault() {
	env.Init()
	l := start(sym.Case(kinds))
	env.ReadFaultAt = env.Reads + sym.IntRange("at", 1, 12)
	r := env.Req("GET", "h", []string{"/a", "/", "/d", "/gone", "/i", "/a.txt", "/metrics"}[sym.Choose("path", 7)])
	if l.k == metrics {
		r.Header.Set("Authorization", lib.MetricsUser)
	}
	rec := env.NewRec()
	l.s.Router.ServeHTTP(rec, r)
	rec.Done()
	if env.Reads >= env.ReadFaultAt {
		sym.Cover("fault")
	}
	env.ReadFaultAt = 0
	sym.Assert(rec.Code >= 100 && rec.Code <= 999 && rec.Extra == 0, "exactly one status")
	l.after()
}

// H_tree: the served directory in other states.
func H_tree() {
	env.Init()
	c := sym.Case(kinds * 6)
	l := start(c % kinds)
	path := []string{"/a", "/", "/d", "/d/", "/i", "/a.txt"}[sym.Choose("path", 6)]
	switch c / kinds {
	case 0:
		for _, n := range []string{"/w/a", "/w/a.txt", "/w/d/i", "/w/d", "/w"} {
			env.Del(n)
		}
	case 1:
		env.Del("/w/a")
		env.PutDir("/w/a")
		env.Del("/w/a.txt")
		env.PutDir("/w/a.txt")
	case 2:
		env.DenyRead = "/w/a"
	case 3:
		env.DenyRead = "/w"
	case 4:
		env.Del("/w/d/i")
		env.PutDir("/w/d/i")
	case 5:
		env.WalkErr = "/w/d"
	}
	rec := env.NewRec()
	l.s.Router.ServeHTTP(rec, env.Req("GET", "h", path))
	rec.Done()
	sym.Assert(rec.Code >= 100 && rec.Code <= 999 && rec.Extra == 0, "exactly one status")
	sym.Assert(state(l.s) == l.conf, "the configuration is not modified")
	env.DenyRead, env.WalkErr = "", ""
	for _, n := range []string{"/w/a", "/w/a.txt", "/w/d/i", "/w/d"} {
		env.Del(n)
	}
	env.PutDir("/w")
	env.PutDir("/w/d")
	env.Put("/w/a", "A")
	env.Put("/w/a.txt", "T")
	env.Put("/w/d/i", "I")
	l.after()
}

// H_gone: clients that go away.
func H_gone() {
	env.Init()
	l := start(sym.Case(kinds))
	rec := env.NewRec()
	rec.FailAt = 1 + sym.Choose("write", 3)
	path := []string{"/a", "/", "/gone", "/i", "/metrics"}[sym.Choose("path", 5)]
	r := env.Req(methods[sym.Choose("method", 5)], "h", path)
	if sym.Choose("user", 2) == 1 {
		r.Header.Set("Authorization", lib.MetricsUser)
	}
	l.do(r, rec)
}

// H_body: request bodies.
func H_body() {
	env.Init()
	l := start(sym.Case(kinds))
	b := env.NewBody(sym.String("body", sym.Choose("length", 3)))
	if sym.Choose("fails", 2) == 1 {
		b.FailAt = sym.Choose("after", 3)
	}
	r := env.Req(methods[sym.Choose("method", 6)], hosts[sym.Choose("host", 3)], "/a")
	r.Body = b
	l.do(r, env.NewRec())
}

// H_upstream: answers of upstreams.
func H_upstream() {
	env.Init()
	c := sym.Case(4)
	l := start([]int{proxy, vhosts}[c%2])
	code, fail, method := 0, 0, "GET"
	if c < 2 {
		code = sym.IntRange("code", 0, 999)
		sym.Assume(code < 100 || code >= 200 || code == 101)
	} else {
		code = []int{200, 204, 304, 101, 500, 99}[sym.Choose("code", 6)]
		fail = sym.Choose("fails", 3)
		method = methods[sym.Choose("method", 3)]
	}
	l.u.Answer = func(r *http.Request) *http.Response {
		x := l.u.Resp(code, "text", http.Header{"Content-Type": {}, "X": {"a", "b"}, "": {""}})
		if fail == 1 {
			l.u.Body.FailAt = sym.Choose("after", 3)
		}
		return x
	}
	l.u.Fail = fail == 2
	rec := env.NewRec()
	l.s.Router.ServeHTTP(rec, env.Req(method, "g", "/a"))
	rec.Done()
	sym.Assert(rec.Code >= 100 && rec.Code <= 999 && rec.Extra == 0, "exactly one status")
	l.u.Answer, l.u.Fail = nil, false
	l.after()
}

// H_conc: two requests at once.
func H_conc() {
	env.Init()
	c := sym.Case(kinds * 2)
	l := start(c % kinds)
	paths := []string{"/a", "/gone", "", "/d/i"}
	if c >= kinds {
		paths = []string{"/", "/metrics", "*", "//"}
	}
	for i := 0; i < 2; i++ {
		p := paths[sym.Choose("path", 4)]
		rec := env.NewRec()
		sym.Go(func() {
			r := env.Req("GET", "h", p)
			r.Header.Set("Authorization", lib.MetricsUser)
			l.s.Router.ServeHTTP(rec, r)
			rec.Done()
			sym.Assert(rec.Code >= 100 && rec.Code <= 999 && rec.Extra == 0, "exactly one status")
		})
	}
	sym.Wait()
	l.after()
}

// H_known: well-known paths, agents, addresses and hosts.
func H_known() {
	env.Init()
	c := sym.Case(kinds * 2)
	l := start(c % kinds)
	paths := []string{"/~", "/~a", "/a~", "/.git/config", "/index.php?x=1", "/a;b", "/a,b", "/a=b&c", "/+", "/%", "/%zz", "/a%00", "/{}", "/<script>", "/a|b", "/a\\b", "/a\nb", "/ ", "/é", "/.well-known/acme-challenge/x", "/a:b", "/$(x)", "/%s%d", "/a.", "/.a", "/..a", "/a.tar.gz", "/-"}
	if c >= kinds {
		paths = []string{"", ""}
		paths[0] = lib.WordPath("/q")
		paths[1] = "/a"
		vary := sym.Choose("vary", 5)
		p := paths[0]
		if vary > 0 {
			p = paths[1]
		}
		r := env.Req("GET", "h", p)
		switch vary {
		case 1:
			as := []string{"", "Mozilla/", "Mozilla/5.0 (X11)", "-", "curl", "a/b/c/d/e/f", "()", "%s%n", lib.WordText("x")}
			r.Header["User-Agent"] = []string{as[sym.Choose("agent", len(as))]}
		case 2:
			r.RemoteAddr, _ = lib.AnyClient()
		case 3:
			hs := []string{"localhost", "[::1]", "[::1]:1", "[", "]", "h:port", "h:80:80", ".", "h.", "*", "%", "xn--", "h/", "h?", "@h", lib.WordHost("q")}
			r.Host = hs[sym.Choose("host", len(hs))]
		case 4:
			r.Method = lib.AnyMethod()
			if sym.Choose("proxied", 2) == 1 {
				r.Host = "g"
			}
		}
		l.do(r, env.NewRec())
		return
	}
	r := env.Req("GET", "h", "/x")
	p := paths[sym.Choose("path", len(paths))]
	r.URL.Path = p
	r.RequestURI = p
	switch sym.Choose("shape", 3) {
	case 1:
		r.URL.Path = "/d" + p
		r.RequestURI = "/d" + p
	case 2:
		r.URL.RawQuery = []string{"", "a", "=", "&&", "a=1;b", "%", "%zz=%", "a=1&a=2"}[sym.Choose("query", 8)]
		r.RequestURI += "?" + r.URL.RawQuery
	}
	l.do(r, env.NewRec())
}

// H_long: long parts of requests.
func H_long() {
	env.Init()
	c := sym.Case(kinds * 2)
	l := start(c % kinds)
	n := sym.Size("length", []int{64, 260, 2100, 9000}[sym.Choose("size", 4)], 1<<16)
	x := lib.Repeat(n)
	r := env.Req("GET", "h", "/a")
	vary := sym.Choose("vary", 4)
	if c < kinds {
		vary += 4
	}
	switch vary {
	case 0:
		r = env.Req("GET", "h", "/"+x)
	case 1:
		r = env.Req("GET", "h", "/"+strings.Repeat("d/", n/20)+"a")
	case 2:
		r = env.Req("GET", "g", "/a")
		r.URL.RawQuery = "q=" + x
		r.RequestURI = "/a?q=" + x
	case 3:
		r.Host = x
	case 4:
		r.Header["User-Agent"] = []string{x}
	case 5:
		r.Header["Cookie"] = []string{x, x}
	case 6:
		r.Method = strings.Repeat("G", n)
	case 7:
		r = env.Req("POST", "g", "/a")
		r.Body = env.NewBody(x)
	}
	l.do(r, env.NewRec())
}
