// Package c33 decides property C33: the configuration alone decides which requests are served.
package c33

import (
	"net/http"
	"strconv"
	"strings"

	"github.com/redmaner/MaguroHTTP/tuna"
	"github.com/redmaner/MaguroHTTP/verif/env"
	"github.com/redmaner/MaguroHTTP/verif/lib"
	"github.com/redmaner/MaguroHTTP/verif/sym"
)

// entry is one configured path.
type entry struct{ path, methods, types string }

func node(p string) string {
	if p != "/" && p[len(p)-1] == '/' {
		return p[:len(p)-1]
	}
	return p
}

func listed(methods, m string) bool {
	for _, x := range lib.Split(methods, ';') {
		if x == m {
			return true
		}
	}
	return false
}

// decide is the reference: the code with which a request is refused, or 200.
func decide(es []entry, method, p, ct string) int {
	for i, a := range lib.Ancestors(p) {
		found := false
		var e *entry
		for j := range es {
			x := &es[j]
			if node(x.path) != a {
				continue
			}
			found = true
			// /a/ replaces what /a has for the same method
			if listed(x.methods, method) && (e == nil || len(x.path) > len(e.path)) {
				e = x
			}
		}
		if !found {
			continue
		}
		if e == nil {
			return 405
		}
		types := e.types
		if types == "-" {
			types = ";"
		}
		if !lib.Accepts(types, ct) {
			return 406
		}
		if i > 0 && e.path[len(e.path)-1] != '/' {
			return 404
		}
		return 200
	}
	return 404
}

func set(c *tuna.Config, es []entry) {
	c.Serve.ServeDir = "/w"
	c.Serve.ServeIndex = "i"
	c.Guard.RateBurst = 1 << 20
	c.Serve.Methods = map[string]string{}
	c.Serve.MIMETypes.RequestTypes = map[string]string{}
	for _, e := range es {
		c.Serve.Methods[e.path] = e.methods
		if e.types != "-" {
			c.Serve.MIMETypes.RequestTypes[e.path] = e.types
		}
	}
}

// create starts a server, or one with that content as virtual host h.
func create(vhost, order bool, more func(c *tuna.Config), es []entry) *tuna.Server {
	lib.Conf("/v.hcl", func(c *tuna.Config) { set(c, es) })
	lib.Conf("/g.hcl", func(c *tuna.Config) { set(c, []entry{{"/", "GET;HEAD;POST", "*"}}) })
	sym.MapOrder(order)
	s := lib.Server(func(c *tuna.Config) {
		if more != nil {
			more(c)
		}
		if vhost {
			c.Core.VirtualHosting = true
			c.Core.VirtualHosts = map[string]string{"h": "/v.hcl", "g": "/g.hcl"}
		} else {
			set(c, es)
		}
	})
	sym.MapOrder(false)
	return s
}

var files = []string{"/f", "/a/f", "/a/b/f", "/b/f", "/a/b/c/f", "/ab"}

func tree() {
	for _, f := range files {
		env.Put("/w"+f, "data "+f)
	}
	env.Put("/w/i", "data i")
}

// ask sends a request and compares the answer with the reference.
func ask(s *tuna.Server, es []entry, method, p, ct string) {
	r := env.Req(method, "h", p)
	if ct != "" {
		r.Header["Content-Type"] = []string{ct}
	} else {
		r.Header["Content-Type"] = nil
	}
	rec := lib.Do(s, r)
	sym.Observe("code", rec.Code)
	q := lib.Resolve(p)
	want := decide(es, method, q, ct)
	sent := strings.Contains(rec.Body, "data ")
	if want != 200 {
		sym.Assert(rec.Code == want && !sent, "refused with the status that the configuration implies")
		sym.Cover("refused " + strconv.Itoa(want))
		return
	}
	name := q
	if q[len(q)-1] == '/' {
		name = q + "i"
	}
	data, ok := env.Data("/w" + name)
	if !ok {
		// missing, or a directory
		sym.Assert(!sent && rec.Code != 405 && rec.Code != 406, "no such file")
		sym.Cover("missing")
		return
	}
	sym.Assert(rec.Code == 200 && (method == "HEAD" || rec.Body == data), "served")
	sym.Cover("served")
}

var methods = []string{"GET", "POST", "HEAD", "PUT"}

// H_one: one configured path, every short request path, every method.
func H_one() {
	env.Init()
	tree()
	paths := []string{"/", "/a", "/a/", "/a/b", "/a/b/", "/f", "/f/", "/x"}
	c := sym.Case(len(paths) * 2)
	ms, ty, m, ct := "GET;POST", "-", "GET", ""
	switch sym.Choose("vary", 2) {
	case 0:
		ms = []string{"GET", "GET;POST", "POST;HEAD;GET", "PUT"}[sym.Choose("methods", 4)]
		m = methods[sym.Choose("method", 4)]
	default:
		ty = []string{"-", "t/a"}[sym.Choose("types", 2)]
		ct = []string{"", "t/a"}[sym.Choose("content type", 2)]
	}
	es := []entry{{paths[c%len(paths)], ms, ty}}
	s := create(c >= len(paths), false, nil, es)
	n := 4
	if sym.Thorough() {
		n = 6
	}
	p := "/" + sym.String("path", sym.Choose("length", n))
	sym.Assume(!strings.Contains(p, "\\") && !strings.Contains(p, "\x00"))
	ask(s, es, m, p, ct)
}

// H_types: content types.
func H_types() {
	env.Init()
	tree()
	ts := []string{"-", "", ";", "*", "t/a", "t/a;t/b", "t/a;", ";t/b", "t/a;*", "t/"}
	c := sym.Case(len(ts))
	es := []entry{{"/", "GET;POST", ts[c]}, {"/a/", "GET;POST", []string{"-", "t/c", "*"}[sym.Choose("other", 3)]}}
	s := create(sym.Choose("vhost", 2) == 1, false, nil, es)
	n := 5
	if sym.Thorough() {
		n = 7
	}
	ct := ""
	known := []string{"t/a", "t/a; charset=utf-8", "t/a;", "t/b", "T/A", "t/c", "*", ";", lib.WordText("t/d")}
	if k := sym.Choose("content type", n+len(known)); k < n {
		ct = sym.String("content type", k)
	} else {
		ct = known[k-n]
	}
	p := []string{"/f", "/a/f"}[sym.Choose("path", 2)]
	ask(s, es, methods[sym.Choose("method", 2)], p, ct)
}

// H_pairs: two or three configured paths, in every order of the maps.
func H_pairs() {
	env.Init()
	tree()
	paths := []string{"/", "/a", "/a/", "/a/b", "/a/b/", "/ab", "/b/", "/a/b/c/"}
	ps := []string{"/f", "/a", "/a/", "/a/f", "/a/b", "/a/b/", "/a/b/f", "/a/b/c/f", "/ab", "/b/f", "/abc"}
	k := sym.Case(len(paths) * len(paths))
	c := k % len(paths)
	k /= len(paths)
	sym.Assume(k != c)
	p := ps[sym.Choose("path", len(ps))]
	es := []entry{{paths[c], "GET", "-"}, {paths[k], "GET;POST", "t/a"}}
	m, ct := "GET", []string{"", "t/a"}[sym.Choose("content type", 2)]
	vhost := false
	n := 3
	if sym.Thorough() {
		n = 4
	}
	switch sym.Choose("vary", n) {
	case 0:
		vhost = true
	case 1:
		es[1].methods = []string{"GET", "POST"}[sym.Choose("methods", 2)]
		es[0].types = []string{"-", "t/a"}[sym.Choose("types", 2)]
	case 2:
		m = "POST"
		es[0].methods = []string{"GET", "POST", "GET;POST"}[sym.Choose("methods", 3)]
	default:
		es = append(es, entry{"/", "GET", "t/c"})
		sym.Assume(c != 0 && k != 0)
	}
	s := create(vhost, true, nil, es)
	ask(s, es, m, p, ct)
}

// H_many: many configured paths, long and well-known ones.
func H_many() {
	env.Init()
	tree()
	n := sym.Size("paths", []int{3, 40}[sym.Case(2)], 300)
	var es []entry
	for i := 0; i < n; i++ {
		es = append(es, entry{"/p" + strconv.Itoa(i) + []string{"", "/"}[i%2], methods[i%4], "-"})
	}
	extra := []string{"/.well-known/", "/favicon.ico", "/api/v1/", "/index.html", "/a b", "/" + lib.Repeat(200) + "/", "/x/x/x/x/x/x/x/x/x/x/x/x/", "/%41/", "/*", lib.WordPath("/q")}
	for _, x := range extra {
		es = append(es, entry{x, "GET;POST", "-"})
	}
	s := create(sym.Choose("vhost", 2) == 1, false, nil, es)
	k := sym.Choose("path", len(extra)+3)
	p := ""
	switch {
	case k < len(extra):
		p = extra[k]
	case k == len(extra):
		p = "/p0"
	case k == len(extra)+1:
		p = "/p1"
	default:
		p = "/p" + strconv.Itoa(n-1)
	}
	switch sym.Choose("shape", 4) {
	case 0:
		p = node(p)
	case 1:
		p = node(p) + "/"
	case 2:
		p = node(p) + "/sub/x"
	case 3:
		p = node(p) + "x"
	}
	// index.html is redirected to its directory
	sym.Assume(lib.Resolve(p) == p && !strings.HasSuffix(p, "/index.html") && p != "/")
	env.Put("/w"+node(p), "data p")
	ask(s, es, methods[sym.Choose("method", 4)], p, "")
}

// H_proxy: hosts, methods and content types of proxies.
func H_proxy() {
	env.Init()
	k := sym.Case(4)
	c := k
	lists := [][]string{{"GET"}, {"GET", "POST"}, {"PUT", "GET", "GET"}, {"OPTIONS", "CONNECT"}}
	list := lists[sym.Choose("methods", 4)]
	rules := map[string]string{"p": "http://u", "q.p": "https://v:8"}
	conf := func(c *tuna.Config) {
		c.Guard.RateBurst = 1 << 20
		c.Proxy.Enabled = true
		c.Proxy.Rules = rules
		c.Proxy.Methods = list
		if k < 2 {
			// ignored
			c.Serve.ServeDir = "/w"
			c.Serve.Methods = map[string]string{"/": "HEAD", "/a": "DELETE;GET"}
			c.Serve.MIMETypes.RequestTypes = map[string]string{"/": "t/a", "/a": "t/a"}
			c.Serve.Download.Enabled = true
		}
	}
	lib.Conf("/v.hcl", conf)
	lib.Conf("/g.hcl", func(c *tuna.Config) { set(c, []entry{{"/", "GET", "-"}}) })
	tree()
	sym.MapOrder(true)
	s := lib.Server(func(cf *tuna.Config) {
		if c%2 == 1 {
			cf.Core.VirtualHosting = true
			cf.Core.VirtualHosts = map[string]string{"p": "/v.hcl", "g": "/g.hcl"}
		} else {
			conf(cf)
		}
	})
	sym.MapOrder(false)
	u := &lib.Upstream{}
	u.Answer = func(r *http.Request) *http.Response { return u.Resp(207, "up", http.Header{}) }
	s.Transport = u
	hosts := []string{"p", "q.p", "x.p", "p:8", "q", "P", "g", ""}
	h := ""
	if c < 2 {
		h = hosts[sym.Choose("host", len(hosts))]
	} else {
		h = sym.String("host", 1+2*sym.Choose("length", 2))
		sym.Assume(!strings.Contains(h, ":") && h != "g")
	}
	ms := []string{"GET", "POST", "PUT", "OPTIONS", "HEAD", "CONNECT", "DELETE"}
	m := ms[sym.Choose("method", len(ms))]
	pt := [][2]string{{"/", ""}, {"/a", ""}, {"/a/b/", "t/a"}, {"/", "x"}}[sym.Choose("path and type", 4)]
	r := env.Req(m, h, pt[0])
	if pt[1] != "" {
		r.Header["Content-Type"] = []string{pt[1]}
	}
	rec := lib.Do(s, r)
	sym.Observe("code", rec.Code)
	if h == "g" && c%2 == 1 {
		sym.Assert(rec.Code != 207, "another virtual host")
		return
	}
	if h == "q.p" && c%2 == 1 {
		return // not the name of a virtual host
	}
	known := h == "p" || h == "q.p" || h == "p:8"
	ok := false
	for _, x := range list {
		ok = ok || x == m
	}
	switch {
	case !known:
		sym.Assert(rec.Code == 404, "only hosts with a rule")
		sym.Cover("unknown")
	case !ok:
		sym.Assert(rec.Code == 405, "only listed methods")
		sym.Cover("refused")
	default:
		sym.Assert(rec.Code == 207, "every listed method with any content type")
		sym.Cover("proxied")
	}
}

// H_download: requests to download servers.
func H_download() {
	env.Init()
	env.Put("/w/f", "data f")
	env.Put("/w/d/f", "data d")
	vhost := sym.Case(2) == 1
	conf := func(c *tuna.Config) {
		c.Guard.RateBurst = 1 << 20
		c.Serve.ServeDir = "/w"
		c.Serve.ServeIndex = "/i"
		c.Serve.Download.Enabled = true
		c.Serve.Download.Exts = []string{""}
		// ignored
		c.Serve.Methods = map[string]string{"/": "POST", "/f": "PUT"}
		c.Serve.MIMETypes.RequestTypes = map[string]string{"/": "t/a"}
	}
	lib.Conf("/v.hcl", conf)
	s := lib.Server(func(c *tuna.Config) {
		if vhost {
			c.Core.VirtualHosting = true
			c.Core.VirtualHosts = map[string]string{"h": "/v.hcl"}
		} else {
			conf(c)
		}
	})
	m := ""
	if k := sym.Choose("method", 4); k < 3 {
		m = []string{"GET", "POST", "PUT"}[k]
	} else {
		m = sym.String("method", 3)
	}
	p := []string{"/", "/f", "/d/f", "/i", "/zz"}[sym.Choose("path", 5)]
	r := env.Req(m, "h", p)
	ct := sym.String("content type", sym.Choose("length", 3))
	if ct != "" {
		r.Header["Content-Type"] = []string{ct}
	}
	rec := lib.Do(s, r)
	sym.Observe("code", rec.Code)
	switch {
	case m != "GET":
		sym.Assert(rec.Code == 405, "only GET")
		sym.Cover("refused")
	case ct != "" && ct[0] != ';':
		sym.Assert(rec.Code == 406, "no request content")
		sym.Cover("content")
	case p == "/zz":
		sym.Assert(rec.Code == 404, "missing")
	default:
		sym.Assert(rec.Code == 200, "served")
		sym.Cover("served")
	}
}

// H_metrics: the path of metrics.
func H_metrics() {
	env.Init()
	tree()
	env.Put("/c", "pem")
	env.Put("/k", "pem")
	vhost := sym.Case(2) == 1
	mp := []string{"/m", "/a/m", "/metrics", lib.WordPath("/mm")}[sym.Choose("metrics", 4)]
	es := []entry{{"/", "GET;POST", "*"}, {"/a/", "GET", "t/a"}}
	sym.Assume(lib.Resolve(mp) == mp && mp != "/" && mp != "/a" && mp[len(mp)-1] != '/')
	s := create(vhost, false, func(c *tuna.Config) {
		lib.WithMetrics(c)
		c.Core.Metrics.Path = mp
	}, es)
	env.Put("/w"+mp, "data m")
	host := []string{"h", "g", "other"}[sym.Choose("host", 3)]
	p := []string{mp, mp + "/", mp + "/x", mp + "x", "//" + mp[1:], mp + "/../" + mp[1:], "/f", "/a/f"}[sym.Choose("path", 8)]
	r := env.Req([]string{"GET", "POST", "HEAD"}[sym.Choose("method", 3)], host, p)
	if sym.Choose("content type", 2) == 1 {
		r.Header["Content-Type"] = []string{"t/a"}
	}
	user := sym.Choose("user", 2) == 1
	if user {
		r.Header["Authorization"] = []string{lib.MetricsUser}
	}
	rec := lib.Do(s, r)
	sym.Observe("code", rec.Code)
	page := strings.Contains(rec.Body, "Total requests")
	if lib.Resolve(p) != mp {
		sym.Assert(!page, "metrics are shown at their path only")
		return
	}
	switch {
	case r.Method != "GET":
		sym.Assert(rec.Code == 405 && !page, "only GET")
	case len(r.Header["Content-Type"]) > 0:
		sym.Assert(rec.Code == 406 && !page, "no request content")
	case !user:
		sym.Assert(rec.Code == 401 && !page, "only for users")
	default:
		sym.Assert(rec.Code == 200 && page, "on every host")
		sym.Cover("shown")
	}
}
