// Package c22 decides property C22: who sees the metrics and what they contain.
package c22

import (
	"encoding/base64"
	"net/http"
	"strings"

	"github.com/redmaner/MaguroHTTP/tuna"
	"github.com/redmaner/MaguroHTTP/verif/env"
	"github.com/redmaner/MaguroHTTP/verif/lib"
	"github.com/redmaner/MaguroHTTP/verif/sym"
)

func server(vhost, proxy bool, users map[string]string) *tuna.Server {
	env.Put("/w/a", "A")
	set := func(c *tuna.Config) {
		c.Guard.Rate = 0
		c.Guard.RateBurst = 100
		if proxy {
			c.Proxy.Enabled = true
			c.Proxy.Rules = map[string]string{"h": "http://u"}
			c.Proxy.Methods = []string{"GET", "POST"}
		} else {
			c.Serve.ServeDir = "/w"
			c.Serve.ServeIndex = "i.txt"
			c.Serve.Methods = map[string]string{"/": "GET;POST"}
		}
	}
	lib.Conf("/v.hcl", set)
	s := lib.Server(func(c *tuna.Config) {
		if vhost {
			c.Core.VirtualHosting = true
			c.Core.VirtualHosts = map[string]string{"h": "/v.hcl"}
		} else {
			set(c)
		}
		lib.WithMetrics(c)
		c.Core.Metrics.Users = users
	})
	s.Transport = &lib.Upstream{}
	return s
}

const secret = "h/seen"

// answered checks the answer to a request for the metrics.
func answered(rec *env.Rec, allowed bool) {
	sym.Observe("code", rec.Code)
	shown := strings.Contains(rec.Body, "Total requests") || strings.Contains(rec.Body, secret)
	if allowed {
		sym.Assert(rec.Code == 200, "a metrics user is let in")
		sym.Assert(shown, "a metrics user sees the metrics")
		sym.Cover("shown")
		return
	}
	sym.Assert(rec.Code == 401, "everybody else is answered 401")
	sym.Assert(!shown, "without any metrics")
	sym.Assert(rec.Get("Www-Authenticate") != "", "and asked for credentials")
	sym.Cover("refused")
}

func metrics(s *tuna.Server, auth ...string) *env.Rec {
	r := env.Req("GET", []string{"h", "other", "h:443"}[sym.Choose("host", 3)], "/metrics")
	for _, a := range auth {
		r.Header["Authorization"] = append(r.Header["Authorization"], a)
	}
	return lib.Do(s, r)
}

var userSets = []map[string]string{{"u": "p"}, {}, {"u": "p", "v": "q"}, {"u": ""}, nil, {"": "p"}}

// H_pairs: every short pair of user and password.
func H_pairs() {
	env.Init()
	users := userSets[sym.Case(len(userSets))]
	s := server(sym.Choose("vhost", 2) == 1, sym.Choose("proxy", 2) == 1, users)
	lib.Do(s, env.Req("GET", "h", "/seen"))
	u, p := sym.String("user", sym.Choose("user size", 3)), sym.String("password", sym.Choose("password size", 3))
	for i := 0; i < len(u); i++ {
		sym.Assume(u[i] != ':')
	}
	ok := false
	for k, v := range users {
		ok = sym.Or(ok, sym.And(sym.EqStr(u, k), sym.EqStr(p, v)))
	}
	rec := metrics(s, "Basic "+base64.StdEncoding.EncodeToString([]byte(u+":"+p)))
	if rec.Code == 200 {
		sym.Assert(ok, "only metrics users are let in")
		answered(rec, true)
	} else {
		sym.Assert(sym.Not(ok), "metrics users are let in")
		answered(rec, false)
	}
}

// H_header: every short Authorization header.
func H_header() {
	env.Init()
	s := server(sym.Choose("vhost", 2) == 1, false, map[string]string{"u": "p"})
	lib.Do(s, env.Req("GET", "h", "/seen"))
	var a string
	switch sym.Case(5) {
	case 0:
		a = "Basic " + sym.String("credentials", 4)
	case 1:
		a = sym.String("scheme", 6) + "dTpw"
	case 2:
		a = sym.String("header", sym.Choose("size", 5))
	case 3:
		a = "Basic dTpw" + sym.String("more", 1)
	case 4:
		a = "Basic dTp" + sym.String("more", 1)
	}
	ok := sym.EqStr(a, "Basic dTpw")
	if len(a) == 11 {
		// line breaks are ignored in base64
		ok = sym.Or(sym.EqStr(a, "Basic dTpw\r"), sym.EqStr(a, "Basic dTpw\n"))
	}
	rec := metrics(s, a)
	if rec.Code == 200 {
		sym.Assert(ok, "only metrics users are let in")
		answered(rec, true)
	} else {
		sym.Assert(sym.Not(ok), "metrics users are let in")
		answered(rec, false)
	}
}

// H_ways: other ways to ask for the metrics.
func H_ways() {
	env.Init()
	s := server(sym.Choose("vhost", 2) == 1, sym.Choose("proxy", 2) == 1, map[string]string{"u": "p"})
	lib.Do(s, env.Req("GET", "h", "/seen"))
	paths := []string{"/metrics", "/metrics/", "//metrics", "/./metrics", "/x/../metrics", "metrics", "/metrics/x", "/metricsx", "/METRICS", "/metrics//", "/metrics/."}
	p := paths[sym.Case(len(paths))]
	m := []string{"GET", "HEAD", "POST", "PUT", "OPTIONS", "CONNECT"}[sym.Choose("method", 6)]
	r := env.Req(m, []string{"h", "other", "h:443", ""}[sym.Choose("host", 4)], p)
	auth := sym.Choose("authorized", 4)
	switch auth {
	case 1:
		r.Header.Set("Authorization", lib.MetricsUser)
	case 2:
		r.Header["Authorization"] = []string{"Basic eDp5", lib.MetricsUser}
	case 3:
		r.Header["authorization"] = []string{lib.MetricsUser}
		r.Header["Proxy-Authorization"] = []string{lib.MetricsUser}
	}
	rec := lib.Do(s, r)
	shown := strings.Contains(rec.Body, "Total requests") || strings.Contains(rec.Body, secret)
	if auth != 1 {
		sym.Assert(!shown, "nobody else sees metrics")
		if m == "GET" && (p == "/metrics" || p == "//metrics" || p == "/x/../metrics") {
			sym.Assert(rec.Code == 401, "everybody else is answered 401")
			sym.Cover("refused")
		}
	} else if shown {
		sym.Cover("shown")
	} else {
		sym.Assert(p != "/metrics" || m != "GET", "a metrics user sees the metrics")
	}
}

// H_twice: being let in once lets nobody else in.
func H_twice() {
	env.Init()
	s := server(sym.Case(2) == 1, false, map[string]string{"u": "p", "v": "q"})
	lib.Do(s, env.Req("GET", "h", "/seen"))
	auth := []string{"", lib.MetricsUser, "Basic djpx", "Basic dTpx", "Basic djpw", "Basic Og=="}
	for i := 0; i < 3; i++ {
		a := sym.Choose("credentials", len(auth))
		if a == 0 {
			answered(metrics(s), false)
		} else {
			answered(metrics(s, auth[a]), a == 1 || a == 2)
		}
	}
}

// H_pair: the same at once.
func H_pair() {
	env.Init()
	s := server(false, false, map[string]string{"u": "p", "v": "q"})
	lib.Do(s, env.Req("GET", "h", "/seen"))
	bad := []string{"Basic dTpx", "Basic djpw", "Basic Og==", ""}[sym.Case(4)]
	ask := func(a string, ok bool) {
		r := env.Req("GET", "h", "/metrics")
		if a != "" {
			r.Header["Authorization"] = []string{a}
		}
		answered(lib.Do(s, r), ok)
	}
	sym.Go(func() { ask(lib.MetricsUser, true) })
	sym.Go(func() { ask(bad, false) })
	sym.Wait()
}

// safe checks that the text has no markup and returns what a browser shows.
func safe(t string) string {
	out := ""
	for i := 0; i < len(t); i++ {
		sym.Assert(sym.And(t[i] != '<', t[i] != '>'), "no markup of clients")
		if sym.IsConcrete(t[i]) && t[i] == '&' {
			for _, e := range []string{"&lt;<", "&gt;>", "&amp;&", "&#34;\"", "&#39;'", "&quot;\"", "&apos;'"} {
				n := len(e) - 1
				if len(t)-i >= n && sym.IsConcrete(t[i:i+n]) && t[i:i+n] == e[:n] {
					out += e[n:]
					i += n - 1
					n = -1
				}
				if n < 0 {
					break
				}
			}
			continue
		}
		sym.Assert(t[i] != '&', "no entities of clients")
		out += t[i : i+1]
	}
	return out
}

// H_markup: text that clients chose.
func H_markup() {
	env.Init()
	c := sym.Case(5)
	s := server(c == 3, false, map[string]string{"u": "p"})
	host, path := "h", "/"
	n := 2
	if sym.Thorough() {
		n = 3
	}
	text := sym.String("text", n)
	for i := 0; i < n; i++ {
		sym.Assume(sym.And(text[i] < 0x80, text[i] != 0))
		sym.Assume(sym.Not(sym.In(text[i], "/:[].")))
	}
	code := 404
	switch c {
	case 0:
		path = "/" + text
	case 1:
		host = text
	case 2:
		path = "/<" + text + ">/&" + text[:1]
	case 3:
		path = "/" + text + "'\""
	case 4:
		path = "/" + text
		code = 405
	}
	r := env.Req([]string{"GET", "PUT"}[c/4], host, path)
	r.Header = http.Header{"User-Agent": {"<b>"}, "Referer": {"<b>"}}
	r.URL.RawQuery = "<b>"
	rec := lib.Do(s, r)
	sym.Assert(rec.Code == code, "not found")
	v := env.NewRec()
	lib.View(s, v)
	b := lib.Main(v.Body)
	pre, post := "Path: ", "</li></ul>"
	i, j := strings.Index(b, pre), len(b)-len(post)
	sym.Assert(i >= 0 && i+len(pre) < j && b[j:] == post, "the page shows the path")
	if i < 0 || i+len(pre) >= j {
		return
	}
	sym.Assert(strings.Index(b[:i], "<li>") >= 0, "in the list")
	sym.Assert(sym.EqStr(safe(b[i+len(pre):j]), host+path), "the text is what the client sent")
	sym.Cover("escaped")
}

// H_saved: text of clients in saved metrics.
func H_saved() {
	env.Init()
	env.Put("/m/out.json", []string{
		`{"TotalRequests": 1, "Paths": {"404": {"h/<b>": 1}}}`,
		`{"TotalRequests": 1, "Paths": {"404": {"h/\u003cscript\u003e": 1}}}`,
		`{"TotalRequests": 1, "Paths": {"404": {"</ul><img src=x>": 1}}}`,
	}[sym.Case(3)])
	s := server(sym.Choose("vhost", 2) == 1, sym.Choose("proxy", 2) == 1, map[string]string{"u": "p"})
	v := env.NewRec()
	lib.View(s, v)
	b := lib.Main(v.Body)
	sym.Assert(strings.Contains(b, "Amount: 1"), "loaded")
	sym.Assert(!strings.Contains(b, "<b>:") && !strings.Contains(b, "<script") && !strings.Contains(b, "<img") && !strings.Contains(b, "h/<b>"), "no markup of clients")
	sym.Cover("escaped")
}

// H_users: every short configured password.
func H_users() {
	env.Init()
	n := sym.Case(9)
	cu, cp := sym.String("configured user", 1), sym.String("configured password", n%3)
	for _, x := range []string{cu, cp} {
		for i := 0; i < len(x); i++ {
			sym.Assume(x[i] < 0x80)
		}
	}
	sym.Assume(cu[0] != 'v')
	s := server(sym.Choose("vhost", 2) == 1, false, map[string]string{cu: cp, "v": "q"})
	lib.Do(s, env.Req("GET", "h", "/seen"))
	u, p := sym.String("user", 1), sym.String("password", n/3)
	sym.Assume(u[0] != ':')
	ok := sym.Or(sym.And(sym.EqStr(u, cu), sym.EqStr(p, cp)), sym.And(sym.EqStr(u, "v"), sym.EqStr(p, "q")))
	rec := metrics(s, "Basic "+base64.StdEncoding.EncodeToString([]byte(u+":"+p)))
	if rec.Code == 200 {
		sym.Assert(ok, "only metrics users are let in")
		answered(rec, true)
	} else {
		sym.Assert(sym.Not(ok), "metrics users are let in")
		answered(rec, false)
	}
}

// H_long: long text of clients with markup at its beginning, in the middle and at its end.
func H_long() {
	env.Init()
	s := server(sym.Choose("vhost", 2) == 1, false, map[string]string{"u": "p"})
	n := sym.Size("length", []int{5, 60, 130, 300, 3000}[sym.Case(5)], 1<<16)
	mark := []string{"<script>alert(1)</script>", "<img src=x onerror=y>", "'\"><b>", "&lt;b&gt;", "</ul></li>", "<!--", "javascript:<a href='x'>"}[sym.Choose("markup", 7)]
	var path string
	switch sym.Choose("place", 3) {
	case 0:
		path = "/" + mark + lib.Repeat(n)
	case 1:
		path = "/" + lib.Repeat(n) + mark
	case 2:
		path = "/" + lib.Repeat(n/2) + mark + lib.Repeat(n-n/2)
	}
	r := env.Req("GET", "h", path)
	rec := lib.Do(s, r)
	path = r.URL.Path
	sym.Assert(rec.Code == 404, "not found")
	v := env.NewRec()
	lib.View(s, v)
	b := lib.Main(v.Body)
	pre, post := "Path: ", "</li></ul>"
	i, j := strings.Index(b, pre), len(b)-len(post)
	sym.Assert(i >= 0 && i+len(pre) < j && b[j:] == post, "the page shows the path")
	t := b[i+len(pre) : j]
	sym.Assert(!strings.ContainsAny(t, "<>\"'"), "no markup of clients")
	for _, e := range [][2]string{{"&lt;", "<"}, {"&gt;", ">"}, {"&#34;", "\""}, {"&#39;", "'"}, {"&quot;", "\""}} {
		t = strings.Replace(t, e[0], e[1], -1)
	}
	t = strings.Replace(t, "&amp;", "&", -1)
	want := strings.Replace(strings.Replace(path, "&lt;", "<", -1), "&gt;", ">", -1)
	sym.Assert(t == "h"+path || path != want, "the text is what the client sent")
}

// H_view: what the request for the page carries does not show up in it.
func H_view() {
	env.Init()
	s := server(sym.Choose("vhost", 2) == 1, sym.Choose("proxy", 2) == 1, map[string]string{"u": "p"})
	lib.Do(s, env.Req("GET", "h", "/seen"))
	places := []string{"query", "encoded query", "User-Agent", "Referer", "Accept", "Accept-Language", "Cookie", "X-Forwarded-For", "X-Forwarded-Host", "Origin", "client", "word"}
	pl := places[sym.Case(len(places))]
	x := []string{"<xss>", "\"><xss>", "'<xss"}[sym.Choose("text", 3)]
	r := env.Req("GET", []string{"h", "other", "<xss>"}[sym.Choose("host", 3)], "/metrics")
	r.Header["Authorization"] = []string{lib.MetricsUser}
	switch pl {
	case "query":
		k := []string{"q", "path", "raw", "callback", "filter", "sort", "theme", "lang", lib.WordText("code")}[sym.Choose("key", 9)]
		r.URL.RawQuery = k + "=" + x
	case "encoded query":
		k := []string{"q", "path", "raw", "callback", "filter", "sort", "theme", "lang", lib.WordText("code")}[sym.Choose("key", 9)]
		r.URL.RawQuery = k + "=%3Cxss%3E"
	case "client":
		r.RemoteAddr = x + ":80"
	case "word":
		r.Header[lib.WordHeader("X-Q")] = []string{x}
	default:
		r.Header[pl] = []string{x}
	}
	rec := lib.Do(s, r)
	sym.Assert(rec.Code == 200, "a metrics user is let in")
	sym.Assert(!strings.Contains(rec.Body, "<xss"), "no markup of clients")
	for _, vs := range rec.Sent {
		for _, v := range vs {
			sym.Assert(!strings.Contains(v, "<xss"), "no markup of clients")
		}
	}
	// nor in later pages
	v := env.NewRec()
	lib.View(s, v)
	sym.Assert(!strings.Contains(v.Body, "<xss"), "no markup of clients")
}

// H_names: paths near the metrics path, clients and header fields a changed tree newly mentions.
func H_names() {
	env.Init()
	k := sym.Choose("server", 6)
	s := server(k%2 == 1, k%3 == 1, userSets[k])
	lib.Do(s, env.Req("GET", "h", "/seen"))
	ps := []string{"/metrics", "/metrics.json", "/metrics.txt", "/api/metrics", "/status", "/debug/vars", "/debug/pprof/", "/stats", "/m/out.json", "/out.json", "/healthz", lib.WordPath("/metrics")}
	p := ps[sym.Case(len(ps))]
	r := env.Req("GET", "h", p)
	switch sym.Choose("vary", 5) {
	case 4:
		r.Host = []string{"localhost", "127.0.0.1", "metrics", "", lib.WordHost("q")}[sym.Choose("host", 5)]
	case 0:
		r.Method = lib.AnyMethod()
	case 1:
		r.RemoteAddr, _ = lib.AnyClient()
	case 2:
		k := []string{"X-Forwarded-For", "X-Real-Ip", "Authorization", "X-Api-Key", "X-Token", "Cookie", "Origin", lib.WordHeader("X-Admin")}[sym.Choose("name", 8)]
		r.Header[k] = []string{[]string{"127.0.0.1", "1", "true", "token", "user=u", lib.WordText("Bearer p")}[sym.Choose("value", 6)]}
	case 3:
		r.URL.RawQuery = []string{"user=u&password=p", "token=p", "auth=u:p", lib.WordText("debug") + "=1"}[sym.Choose("query", 4)]
	}
	rec := lib.Do(s, r)
	sym.Assert(!strings.Contains(rec.Body, "Total requests") && !strings.Contains(rec.Body, secret), "nobody else sees metrics")
	if p == "/metrics" && r.Method == "GET" {
		sym.Assert(rec.Code == 401, "everybody else is answered 401")
	}
}
