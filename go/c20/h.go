// Package c20 decides property C20: clients cannot steer the proxy.
package c20

import (
	"net/http"
	"net/url"

	"github.com/redmaner/MaguroHTTP/tuna"
	"github.com/redmaner/MaguroHTTP/verif/env"
	"github.com/redmaner/MaguroHTTP/verif/lib"
	"github.com/redmaner/MaguroHTTP/verif/sym"
)

type up struct{ rule, scheme, host, user string }

var ups = []up{
	{"http://u", "http", "u", ""},
	{"https://u:8443", "https", "u:8443", ""},
	{"http://u/base", "http", "u", ""},
	{"http://a:b@u", "http", "u", "a:b"},
	{"http://u:8", "http", "u:8", ""},
}

func server(a up, vhost bool) (*tuna.Server, *lib.Upstream) {
	one := func(host, rule string) func(c *tuna.Config) {
		return func(c *tuna.Config) {
			c.Proxy.Enabled = true
			if c.Proxy.Rules == nil {
				c.Proxy.Rules = map[string]string{}
			}
			c.Proxy.Rules[host] = rule
			c.Proxy.Methods = []string{"GET", "POST", "HEAD", "OPTIONS", "CONNECT"}
		}
	}
	h, g := one("h", a.rule), one("g", "ftp://other:1")
	lib.Conf("/h.hcl", h)
	lib.Conf("/g.hcl", g)
	s := lib.Server(func(c *tuna.Config) {
		if vhost {
			c.Core.VirtualHosting = true
			c.Core.VirtualHosts = map[string]string{"h": "/h.hcl", "g": "/g.hcl"}
		} else {
			h(c)
			g(c)
		}
	})
	u := &lib.Upstream{}
	u.Answer = func(r *http.Request) *http.Response {
		// an upstream that sends the client elsewhere
		return u.Resp(302, "moved", http.Header{"Location": {"http://evil/"}, "X-Accel-Redirect": {"http://evil/"}})
	}
	s.Transport = u
	return s, u
}

func check(rec *env.Rec, u *lib.Upstream, a up) {
	sym.Observe("code", rec.Code)
	if len(u.Reqs) == 0 {
		sym.Cover("refused")
		sym.Assert(rec.Code >= 400, "a request that is not forwarded is answered with an error")
		return
	}
	sym.Cover("forwarded")
	for _, q := range u.Reqs {
		sym.Observe("url host", q.URL.Host)
		sym.Assert(q.URL.Scheme == a.scheme, "scheme of the configured upstream")
		sym.Assert(sym.EqStr(q.URL.Host, a.host), "host and port of the configured upstream")
		user := ""
		if q.URL.User != nil {
			user = q.URL.User.String()
		}
		sym.Assert(sym.EqStr(user, a.user), "user of the configured upstream")
		sym.Assert(q.URL.Opaque == "", "no opaque address")
	}
	sym.Assert(len(u.Reqs) == 1, "redirects of the upstream are not followed")
	sym.Assert(rec.Code == 302, "the answer of the configured upstream")
}

// deliver builds the request as net/http's server does; nil if it refuses it.
func deliver(method, host, uri string) *http.Request {
	raw := uri
	just := method == "CONNECT" && uri[0] != '/'
	if just {
		raw = "http://" + raw
	}
	x, err := url.ParseRequestURI(raw)
	if err != nil {
		return nil
	}
	if just {
		x.Scheme = ""
	}
	r := env.Req(method, host, x.Path)
	r.URL = x
	r.RequestURI = uri
	if x.Host != "" {
		r.Host = x.Host
	}
	return r
}

var prefixes = []string{
	"/", "//", "/@", "/:8", "/\\", "*", "@e", ":80@e/", ".e/", ":1", "http://h/", "http://h@e/", "http:", "a:", "//e", "http://", "/a?@e", "/a#@e", "?@e", "/http://e", "/..//e", "e:80", "",
}

// H_line: every request line with the prefixes above.
func H_line() {
	env.Init()
	pre := prefixes[sym.Case(len(prefixes))]
	a := ups[sym.Choose("upstream", 2)]
	n := 3
	if sym.Thorough() {
		n = 4
	}
	rest := sym.String("uri", sym.Choose("length", n))
	for i := 0; i < len(rest); i++ {
		sym.Assume(sym.And(rest[i] > ' ', rest[i] != 127))
	}
	uri := pre + rest
	if uri == "" {
		return
	}
	r := deliver("GET", "h", uri)
	if r == nil {
		sym.Cover("refused by net/http")
		return
	}
	s, u := server(a, false)
	rec := lib.Do(s, r)
	if len(u.Reqs) > 0 {
		// absolute request lines name the host
		sym.Assert(sym.Or(sym.EqStr(r.Host, "h"), lib.Prefix(r.Host, "h:")), "only proxied hosts are forwarded")
	}
	check(rec, u, a)
}

// H_raw: request lines that net/http does not let through either reach the upstream or nobody.
func H_raw() {
	env.Init()
	pre := prefixes[sym.Case(len(prefixes))]
	a := ups[sym.Choose("upstream", len(ups))]
	uri := pre + sym.String("uri", sym.Choose("length", 3))
	s, u := server(a, sym.Choose("vhost", 2) == 1)
	r := env.Req("GET", "h", "/p")
	r.RequestURI = uri
	check(lib.Do(s, r), u, a)
}

// H_forms: all forms with every upstream and method.
func H_forms() {
	env.Init()
	uris := []string{"/", "*", "@evil/", ":80@evil/", ".evil/", "//evil/x", "http://evil/", "http://h/x", "http://h:80/x", "evil:443", "h:443", "h", "/..//evil", "/%2f%2fevil", "/\\evil", "/a@evil", "/:1", "?x", "/?http://evil/", "https://h/", "ftp://g/"}
	uri := uris[sym.Case(len(uris))]
	m := []string{"GET", "OPTIONS", "CONNECT", "POST"}[sym.Choose("method", 4)]
	a := ups[sym.Choose("upstream", len(ups))]
	host := []string{"h", "h:80", "h:"}[sym.Choose("host", 3)]
	r := deliver(m, host, uri)
	if r == nil {
		sym.Cover("refused by net/http")
		return
	}
	s, u := server(a, sym.Choose("vhost", 2) == 1)
	rec := lib.Do(s, r)
	if r.Host == "g" {
		a = up{"", "ftp", "other:1", ""}
	}
	check(rec, u, a)
}

// H_steer: headers and host names.
func H_steer() {
	env.Init()
	a := ups[sym.Choose("upstream", len(ups))]
	names := []string{"X-Forwarded-Host", "X-Forwarded-Proto", "X-Forwarded-Port", "X-Forwarded-For", "Forwarded", "X-Original-Url", "X-Rewrite-Url", "X-Host", "Host", "Location", "Referer", "Origin", "Proxy-Connection", "Upgrade", "Via", "X-Http-Method-Override", "Destination"}
	k := names[sym.Case(len(names))]
	vals := []string{"evil", "http://evil/", "evil:80", "g", "other:1", "https", "websocket", ""}
	v := vals[sym.Choose("value", len(vals))]
	host := "h"
	switch sym.Choose("host", 3) {
	case 1:
		host = "h:" + sym.String("port", 2)
		sym.Assume(sym.Not(sym.Or(host[2] == ']', host[3] == ']', host[2] == ':', host[3] == ':')))
	case 2:
		host = "g"
		a = up{"", "ftp", "other:1", ""}
	}
	s, u := server(a, sym.Choose("vhost", 2) == 1)
	r := env.Req([]string{"GET", "POST", "OPTIONS"}[sym.Choose("method", 3)], host, "/p")
	if v != "" {
		r.Header[k] = []string{v}
	}
	rec := lib.Do(s, r)
	if len(host) < 3 {
		sym.Assert(len(u.Reqs) == 1, "forwarded")
	}
	check(rec, u, a)
}

// H_host: every short host name.
func H_host() {
	env.Init()
	a := ups[0]
	s, u := server(a, sym.Choose("vhost", 2) == 1)
	host := sym.String("host", sym.Case(4))
	r := env.Req("GET", host, "/p")
	rec := lib.Do(s, r)
	if len(u.Reqs) > 0 && host[0] == 'g' {
		a = up{"", "ftp", "other:1", ""}
	}
	check(rec, u, a)
}

// H_pair: concurrent requests for two hosts stay apart.
func H_pair() {
	env.Init()
	s, _ := server(ups[sym.Case(2)], sym.Choose("vhost", 2) == 1)
	s.Transport = router{}
	sym.Go(func() { one(s, "h", "u") })
	sym.Go(func() { one(s, "g", "o") })
	sym.Wait()
}

func one(s *tuna.Server, host, first string) {
	rec := lib.Do(s, env.Req("GET", host, "/p"))
	sym.Assert(rec.Code == 200 && rec.Body[:1] == first, "each host has its own upstream")
	sym.Cover("forwarded")
}

type router struct{}

func (router) RoundTrip(r *http.Request) (*http.Response, error) {
	return &http.Response{StatusCode: 200, Header: http.Header{}, Body: env.NewBody(r.URL.Host), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1}, nil
}

// H_dav: further methods and header fields.
func H_dav() {
	env.Init()
	names := []string{"Destination", "X-Forwarded-Host", "Forwarded", "X-Forwarded-Server", "X-Upstream", "X-Backend", "X-Real-Ip", "X-Proxy-Url", "X-Target", "If", "Upgrade-Insecure-Requests", "X-Forwarded-Ssl", "Front-End-Https", "X-Accel-Redirect", "Cookie", "Te", ""}
	k := names[sym.Case(len(names))]
	if k == "" {
		k = lib.WordHeader("X-Route")
	}
	v := []string{"http://evil/x", "evil", "g", "1", "on", lib.WordText("https")}[sym.Choose("value", 6)]
	ms := []string{"GET", "HEAD", "POST", "PUT", "PATCH", "DELETE", "OPTIONS", "CONNECT", "PROPFIND", "PROPPATCH", "MKCOL", "COPY", "MOVE", "LOCK", "UNLOCK"}
	a := ups[sym.Choose("upstream", 2)]
	s := lib.Server(func(c *tuna.Config) {
		c.Core.WebDAV = true
		c.Proxy.Enabled = true
		c.Proxy.Rules = map[string]string{"h": a.rule, "g": "ftp://other:1"}
		c.Proxy.Methods = ms
	})
	u := &lib.Upstream{}
	u.Answer = func(r *http.Request) *http.Response {
		return u.Resp(302, "moved", http.Header{"Location": {"http://evil/"}, "X-Accel-Redirect": {"http://evil/"}})
	}
	s.Transport = u
	r := env.Req(ms[sym.Choose("method", len(ms))], "h", []string{"/p", "/evil/x", lib.WordPath("/http:/evil")}[sym.Choose("path", 3)])
	r.Header[k] = []string{v}
	r.RemoteAddr, _ = lib.WordClient("10.0.0.1:9", "10.0.0.1")
	rec := lib.Do(s, r)
	sym.Assert(len(u.Reqs) == 1, "forwarded")
	check(rec, u, a)
}

// H_later: what one request tries does not show in later ones.
func H_later() {
	env.Init()
	a := ups[sym.Choose("upstream", len(ups))]
	uris := []string{"@evil/", "http://evil/", ":80@evil/", "//evil/x", ".evil/", "*", "/p"}
	s, u := server(a, sym.Choose("vhost", 2) == 1)
	uri := uris[sym.Case(len(uris))]
	n := sym.Size("requests", 3, 300)
	for i := 0; i < n; i++ {
		u.Reqs, u.Bodies = nil, nil
		r := env.Req("GET", "h", "/p")
		b := a
		switch {
		case i%3 == 0:
			r.RequestURI = uri
			r.Header["X-Forwarded-Host"] = []string{"evil"}
		case i%3 == 1 && sym.Choose("other host", 2) == 1:
			r.Host = "g"
			b = up{"", "ftp", "other:1", ""}
		}
		u.Fail = i == 0 && sym.Choose("fails", 2) == 1
		rec := lib.Do(s, r)
		if u.Fail {
			continue
		}
		check(rec, u, b)
		if i%3 > 0 {
			sym.Assert(len(u.Reqs) == 1, "forwarded")
		}
	}
}
