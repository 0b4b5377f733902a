// Package c24 decides property C24: every configured route is behind its host's firewall and rate limiter.
package c24

import (
	"strconv"
	"strings"

	"github.com/redmaner/MaguroHTTP/tuna"
	"github.com/redmaner/MaguroHTTP/verif/env"
	"github.com/redmaner/MaguroHTTP/verif/lib"
	"github.com/redmaner/MaguroHTTP/verif/sym"
)

const (
	serve = iota
	download
	proxy
)

// host is the reference of what guards one host.
type host struct {
	name   string
	mode   int
	fw     bool
	black  bool
	sub    bool
	rules  map[string][]string
	rate   float64
	burst  int
	filter bool
	// used is the number of requests of each client.
	used map[string]int
}

func (h *host) set(c *tuna.Config) {
	c.Guard.Rate = h.rate
	c.Guard.RateBurst = h.burst
	c.Guard.FilterOnIP = h.filter
	c.Guard.Firewall.Enabled = h.fw
	c.Guard.Firewall.Blacklisting = h.black
	c.Guard.Firewall.Subpath = h.sub
	c.Guard.Firewall.Rules = h.rules
	switch h.mode {
	case serve:
		c.Serve.ServeDir = "/w/" + h.name
		c.Serve.ServeIndex = "i.txt"
		c.Serve.Methods = map[string]string{"/": "GET"}
	case download:
		c.Serve.ServeDir = "/w/" + h.name
		c.Serve.ServeIndex = "/i"
		c.Serve.Download.Enabled = true
		c.Serve.Download.Exts = []string{".txt"}
	case proxy:
		c.Proxy.Enabled = true
		c.Proxy.Rules = map[string]string{h.name: "http://up"}
		c.Proxy.Methods = []string{"GET"}
	}
}

func files(n string) {
	env.PutDir("/w/" + n)
	env.Put("/w/"+n+"/a", "A")
	env.Put("/w/"+n+"/i.txt", "I")
}

// start starts a server for hosts; without virtual hosts there is one host.
func start(vhost bool, hosts ...*host) (*tuna.Server, *lib.Upstream) {
	s := lib.Server(func(c *tuna.Config) {
		if !vhost {
			hosts[0].set(c)
			return
		}
		c.Core.VirtualHosting = true
		c.Core.VirtualHosts = map[string]string{}
		// the main configuration must not matter
		c.Guard.Rate, c.Guard.RateBurst = 6000, 77
		c.Guard.Firewall.Enabled = true
		c.Guard.Firewall.Blacklisting = true
		c.Guard.Firewall.Rules = map[string][]string{"/": {"1", "2"}}
		for _, h := range hosts {
			files(h.name)
			lib.Conf("/"+h.name+".hcl", h.set)
			c.Core.VirtualHosts[h.name] = "/" + h.name + ".hcl"
		}
	})
	u := &lib.Upstream{}
	s.Transport = u
	return s, u
}

// send sends one request and returns the status code and whether a handler was reached.
func send(s *tuna.Server, u *lib.Upstream, name, path, client, agent string) (int, bool) {
	r := env.Req("GET", name, path)
	r.RemoteAddr = client + ":1"
	if agent != "" {
		r.Header["User-Agent"] = []string{agent}
	}
	env.Accesses = nil
	n := len(u.Reqs)
	rec := lib.Do(s, r)
	reached := len(u.Reqs) > n
	for _, a := range env.Accesses {
		if lib.Prefix(a.Name, "/w") {
			reached = true
		}
	}
	return rec.Code, reached
}

// do sends one request to a host and compares with the reference.
func (h *host) do(s *tuna.Server, u *lib.Upstream, path, client, agent string) {
	code, reached := send(s, u, h.name, path, client, agent)
	sym.Observe("code", code)
	if h.fw {
		listed := lib.FwListed(h.rules, h.sub, path, client)
		if sym.Iff(h.black, listed) {
			sym.Assert(code == 403 && !reached, "what the firewall refuses reaches no handler")
			sym.Cover("firewall")
			return
		}
	}
	if h.used == nil {
		h.used = map[string]int{}
	}
	k := client
	if !h.filter {
		k += " " + agent
	}
	h.used[k]++
	if h.used[k] > h.burst {
		sym.Assert(code == 429 && !reached, "what the limiter refuses reaches no handler")
		sym.Cover("limiter")
		return
	}
	sym.Assert(reached, "what is allowed is handled")
	want := 200
	if h.mode != proxy && path != "/a" && path != "/" {
		want = 404
	}
	sym.Assert(code == want, "answered by the handler")
	sym.Cover("handled")
}

func (h *host) firewall(k int) {
	switch k {
	case 1:
		h.fw, h.black = true, true
		h.rules = map[string][]string{"/a": {"2", "3"}}
	case 2:
		h.fw = true
		h.rules = map[string][]string{"/a": {"1"}, "/": {"2"}}
	case 3:
		h.fw, h.black, h.sub = true, true, true
		h.rules = map[string][]string{"/": {"*"}}
	case 4:
		// disabled
		h.black = true
		h.rules = map[string][]string{"/": {"*"}}
	}
}

var clients = [][2]string{{"1", "a"}, {"1", "b"}, {"2", "a"}}

// H_seq: any sequence of requests to one host.
func H_seq() {
	env.Init()
	c := sym.Case(30)
	h := &host{name: "h", mode: c % 3, rate: 60, burst: 1 + sym.Choose("burst", 2), filter: sym.Choose("filter on address only", 2) == 1}
	h.firewall(c / 6)
	if c/3%2 == 0 {
		files("h")
	}
	s, u := start(c/3%2 == 1, h)
	n := 3
	if sym.Thorough() {
		n = 4
	}
	for i := 0; i < n; i++ {
		cl := clients[sym.Choose("client", 3)]
		h.do(s, u, []string{"/a", "/b"}[sym.Choose("path", 2)], cl[0], cl[1])
	}
}

// H_rules: any client and any flags.
func H_rules() {
	env.Init()
	c := sym.Case(6)
	h := &host{name: "h", mode: c % 3, rate: 60, burst: 1}
	h.fw = sym.Bool("firewall")
	h.black = sym.Bool("blacklisting")
	h.sub = sym.Bool("subpath")
	h.filter = sym.Bool("filter on address only")
	h.rules = map[string][]string{}
	key := []string{"/", "/a", "/a/b"}[sym.Choose("rule", 3)]
	h.rules[key] = []string{"x", sym.String("listed", 1)}
	if key != "/" && sym.Choose("root rule", 2) == 1 {
		h.rules["/"] = []string{sym.String("listed at root", 1)}
	}
	if c/3 == 0 {
		files("h")
	}
	s, u := start(c/3 == 1, h)
	cl := sym.String("client", 1)
	sym.Assume(sym.Not(sym.In(cl[0], ":[]* ")))
	h.do(s, u, []string{"/", "/a", "/a/b", "/b", "/a/b/c"}[sym.Choose("path", 5)], cl, "a")
}

// H_path: no spelling of a path gets around the firewall.
func H_path() {
	env.Init()
	c := sym.Case(6)
	h := &host{name: "h", mode: c % 3, rate: 60, burst: 9}
	h.fw = true
	h.black = sym.Bool("blacklisting")
	h.rules = map[string][]string{"/a": {"1"}}
	if c/3 == 0 {
		files("h")
	}
	s, u := start(c/3 == 1, h)
	n := 3
	if sym.Thorough() {
		n = 5
	}
	p := "/" + sym.String("path", sym.Choose("length", n+1))
	for i := 1; i < len(p); i++ {
		sym.Assume(sym.In(p[i], "/.ab%\\"))
	}
	q := lib.Resolve(p)
	listed := lib.FwListed(h.rules, false, q, "1")
	code, reached := send(s, u, "h", p, "1", "a")
	if sym.Iff(h.black, listed) {
		sym.Assert(code == 403 && !reached, "what the firewall refuses reaches no handler")
		sym.Cover("firewall")
	} else {
		sym.Assert(code != 403 && code != 429, "what is allowed is handled")
		sym.Cover("handled")
	}
}

// H_vhosts: hosts do not share rules or budgets.
func H_vhosts() {
	env.Init()
	c := sym.Case(9)
	a := &host{name: "h", mode: c % 3, rate: 60, burst: 1}
	b := &host{name: "g", mode: c / 3, rate: 60, burst: 2, filter: true}
	switch sym.Choose("firewalls", 4) {
	case 1:
		a.fw, a.black, a.rules = true, true, map[string][]string{"/a": {"1"}}
	case 2:
		b.fw, b.rules = true, map[string][]string{"/": {"2"}}
	case 3:
		a.fw, a.black, a.rules = true, true, map[string][]string{"/a": {"1"}}
		b.fw, b.black, b.rules = true, true, map[string][]string{"/a": {"2"}}
	}
	s, u := start(true, a, b)
	n := 4
	if sym.Thorough() {
		n = 5
	}
	for i := 0; i < n; i++ {
		h := a
		if sym.Choose("host", 2) == 1 {
			h = b
		}
		h.do(s, u, "/a", []string{"1", "2"}[sym.Choose("client", 2)], "a")
	}
	// names that are not configured
	for _, x := range []string{"x", "", "DEFAULT", "hg"} {
		code, reached := send(s, u, x, "/a", "9", "a")
		sym.Assert(code == 404 && !reached, "other hosts are not served")
	}
}

// H_names: other spellings of a host name share its rules and budget.
func H_names() {
	env.Init()
	c := sym.Case(3)
	h := &host{name: "h", mode: c, rate: 60, burst: 1}
	h.fw, h.black, h.rules = true, true, map[string][]string{"/a": {"2"}}
	g := &host{name: "g", mode: sym.Choose("other", 3), rate: 60, burst: 5}
	s, u := start(true, h, g)
	names := []string{"h", "h:80", "h:", "h:1"}
	x := names[sym.Choose("first", 4)]
	y := names[sym.Choose("second", 4)]
	code, reached := send(s, u, x, "/a", "1", "a")
	sym.Assert(code == 200 && reached, "handled")
	code, reached = send(s, u, y, "/a", "1", "a")
	sym.Assert(code == 429 && !reached, "one budget")
	code, reached = send(s, u, y, "/a", "2", "a")
	sym.Assert(code == 403 && !reached, "one firewall")
	sym.Cover("guarded")
}

// H_routes: each route of a host is guarded, and they share the budget.
func H_routes() {
	env.Init()
	h := &host{name: "h", rate: 60, burst: 1}
	c := sym.Case(12)
	vhost := c%2 == 1
	files("h")
	env.PutDir("/w/h/d")
	env.Put("/w/h/d/x", "X")
	h.fw, h.black = true, sym.Choose("blacklisting", 2) == 1
	h.sub = sym.Choose("subpath", 2) == 1
	h.rules = []map[string][]string{
		{"/d": {"2"}},
		{"/": {"2"}},
		{"/d/x": {"2"}},
		{"/d": {"2"}, "/a": {"1"}, "/": {"3"}},
		{"/d/": {"2"}, "/a": {"*"}},
		{},
	}[c/2]
	set := func(c *tuna.Config) {
		h.set(c)
		c.Serve.Methods = map[string]string{"/": "GET;POST", "/d/": "GET;PUT", "/a": "HEAD;DELETE;GET", "/d/x": "GET", "/e/f/g": "GET"}
		c.Serve.MIMETypes.RequestTypes = map[string]string{"/d/": ";text/plain"}
	}
	s := lib.Server(func(c *tuna.Config) {
		if vhost {
			lib.Conf("/h.hcl", set)
			c.Core.VirtualHosting = true
			c.Core.VirtualHosts = map[string]string{"h": "/h.hcl"}
		} else {
			set(c)
		}
	})
	all := [][2]string{{"GET", "/"}, {"POST", "/"}, {"GET", "/d/x"}, {"GET", "/d/y"}, {"PUT", "/d/y"}, {"HEAD", "/a"}, {"DELETE", "/a"}, {"GET", "/a"}, {"GET", "/other"}, {"GET", "/e/f/g"}}
	n := 2
	if sym.Thorough() {
		n = 3
	}
	used := map[string]int{}
	for i := 0; i < n; i++ {
		k := sym.Choose("route", len(all))
		cl := []string{"1", "2"}[sym.Choose("client", 2)]
		r := env.Req(all[k][0], "h", all[k][1])
		r.RemoteAddr = cl + ":1"
		env.Accesses = nil
		rec := lib.Do(s, r)
		reached := false
		for _, a := range env.Accesses {
			reached = reached || lib.Prefix(a.Name, "/w")
		}
		listed := lib.FwListed(h.rules, h.sub, all[k][1], cl)
		if listed == h.black {
			sym.Assert(rec.Code == 403 && !reached, "what the firewall refuses reaches no handler")
			sym.Cover("firewall")
			continue
		}
		used[cl]++
		if used[cl] > h.burst {
			sym.Assert(rec.Code == 429 && !reached, "what the limiter refuses reaches no handler")
			sym.Cover("limiter")
		} else {
			sym.Assert(rec.Code != 403 && rec.Code != 429 && reached, "what is allowed is handled")
			sym.Cover("handled")
		}
	}
}

// H_rate: each host refills budgets at its own rate.
func H_rate() {
	env.Init()
	vhost := sym.Case(2) == 1
	a := &host{name: "h", mode: sym.Choose("mode", 3), rate: 60, burst: 1}
	b := &host{name: "g", mode: sym.Choose("mode", 3), rate: 30, burst: 1}
	if !vhost {
		files("h")
	}
	s, u := start(vhost, a, b)
	ok := func(h *host) bool {
		code, reached := send(s, u, h.name, "/a", "1", "a")
		sym.Assert(reached == (code != 429) && (code == 200 || code == 429), "handled or refused")
		return reached
	}
	second := int64(1000000000)
	sym.Assert(ok(a) && !ok(a), "burst")
	if vhost {
		sym.Assert(ok(b) && !ok(b), "burst")
	}
	env.Clock += second/2 + int64(sym.Choose("early", 2))*(second/2-1000)
	sym.Assert(!ok(a), "not yet")
	if vhost {
		sym.Assert(!ok(b), "not yet")
	}
	env.Clock += second
	sym.Assert(ok(a), "refilled at the rate of the host")
	if vhost {
		sym.Assert(!ok(b), "not yet")
		env.Clock += second
		sym.Assert(ok(b), "refilled at the rate of the host")
	}
	sym.Cover("refilled")
}

// H_default: hosts without guard settings have the documented budget.
func H_default() {
	env.Init()
	vhost := sym.Case(2) == 1
	files("h")
	h := &host{name: "h"}
	set := func(c *tuna.Config) {
		g := c.Guard
		h.set(c)
		c.Guard = g
	}
	s := lib.Server(func(c *tuna.Config) {
		if vhost {
			lib.Conf("/h.hcl", set)
			c.Core.VirtualHosting = true
			c.Core.VirtualHosts = map[string]string{"h": "/h.hcl"}
		} else {
			set(c)
		}
	})
	for i := 0; i < 52; i++ {
		code, reached := send(s, &lib.Upstream{}, "h", "/a", "1", "a")
		sym.Assert(code == 200 && reached || code == 429 && !reached, "handled or refused")
		sym.Assert(reached == (i < 50), "50 requests at once")
	}
	sym.Cover("refused")
}

// H_conc: requests at once share the budget, and those the firewall refuses use none.
func H_conc() {
	env.Init()
	c := sym.Case(6)
	h := &host{name: "h", mode: c % 3, rate: 60, burst: 1, filter: true}
	h.fw, h.black, h.rules = true, true, map[string][]string{"/b": {"1"}}
	if c/3 == 0 {
		files("h")
	}
	s, u := start(c/3 == 1, h)
	codes := make([]int, 3)
	for i := 0; i < 3; i++ {
		i := i
		sym.Go(func() {
			r := env.Req("GET", "h", []string{"/a", "/b", "/a"}[i])
			r.RemoteAddr = "1:1"
			codes[i] = lib.Do(s, r).Code
		})
	}
	sym.Wait()
	sym.Assert(codes[1] == 403, "refused by the firewall")
	sym.Assert(codes[0] == 200 && codes[2] == 429 || codes[0] == 429 && codes[2] == 200, "one of two is handled")
	sym.Assert(c%3 != proxy || len(u.Reqs) == 1, "one request reaches the upstream")
	sym.Cover("decided")
}

// guarded sends requests of two clients to a host that refuses client "2" and answers each client once.
func guarded(s *tuna.Server, u *lib.Upstream, name, method, path string, want int) {
	try := func(client string) (int, bool) {
		r := env.Req(method, name, path)
		r.RemoteAddr = client + ":1"
		env.Accesses = nil
		n := len(u.Reqs)
		rec := lib.Do(s, r)
		reached := len(u.Reqs) > n
		for _, a := range env.Accesses {
			reached = reached || lib.Prefix(a.Name, "/w")
		}
		return rec.Code, reached
	}
	code, reached := try("2")
	sym.Assert(code == 403 && !reached, "what the firewall refuses reaches no handler")
	code, reached = try("1")
	sym.Assert(code == want && reached, "what is allowed is handled")
	code, reached = try("1")
	sym.Assert(code == 429 && !reached, "what the limiter refuses reaches no handler")
	code, reached = try("3")
	sym.Assert(code == want && reached, "each client has its budget")
	sym.Cover("guarded")
}

// both refuses client "2" and answers each client once.
func both(c *tuna.Config) {
	c.Guard.Rate, c.Guard.RateBurst = 60, 1
	c.Guard.Firewall.Enabled = true
	c.Guard.Firewall.Blacklisting = true
	c.Guard.Firewall.Rules = map[string][]string{"/": {"2"}}
}

// H_proxies: each of many proxied hosts is guarded.
func H_proxies() {
	env.Init()
	vhost := sym.Case(2) == 1
	n := sym.Size("rules", []int{1, 6}[sym.Choose("number of rules", 2)], 100)
	names := []string{"up", "www.up", "localhost", "127.0.0.1", "api.example.org", lib.WordHost("q")}
	for i := len(names); i < n; i++ {
		names = append(names, "h"+strconv.Itoa(i))
	}
	names = names[:max(n, 1)]
	set := func(c *tuna.Config) {
		both(c)
		c.Proxy.Enabled = true
		c.Proxy.Rules = map[string]string{}
		c.Proxy.Methods = []string{"GET", "POST", "HEAD"}
		for _, h := range names {
			c.Proxy.Rules[h] = "http://u"
		}
	}
	lib.Conf("/v.hcl", set)
	s := lib.Server(func(c *tuna.Config) {
		if !vhost {
			set(c)
			return
		}
		c.Core.VirtualHosting = true
		c.Core.VirtualHosts = map[string]string{}
		for _, h := range names {
			c.Core.VirtualHosts[h] = "/v.hcl"
		}
	})
	u := &lib.Upstream{}
	s.Transport = u
	h := names[sym.Choose("host", len(names))]
	guarded(s, u, h, []string{"GET", "POST", "HEAD"}[sym.Choose("method", 3)], []string{"/", "/a/b", lib.WordPath("/q")}[sym.Choose("path", 3)], 200)
}

func max(a, b int) int {
	if a > b {
		return a
	}
	return b
}

// H_static: each of many configured paths is guarded.
func H_static() {
	env.Init()
	vhost := sym.Case(2) == 1
	ps := []string{"/static/", "/.well-known/", "/favicon.ico", "/robots.txt", "/index.html", "/api/v1/x", "/health", "/assets/js/", "/x.css", lib.WordPath("/q")}
	n := sym.Size("paths", 12, 200)
	if n < 12 {
		n = 12
	}
	set := func(c *tuna.Config) {
		both(c)
		c.Serve.ServeDir = "/w"
		c.Serve.ServeIndex = "i"
		c.Serve.Methods = map[string]string{}
		for _, p := range ps {
			c.Serve.Methods[p] = "GET;POST;OPTIONS;HEAD"
		}
		for i := len(ps); i < n; i++ {
			c.Serve.Methods["/p"+strconv.Itoa(i)] = "GET"
		}
	}
	env.PutDir("/w")
	lib.Conf("/v.hcl", set)
	s := lib.Server(func(c *tuna.Config) {
		if !vhost {
			set(c)
			return
		}
		c.Core.VirtualHosting = true
		c.Core.VirtualHosts = map[string]string{"h": "/v.hcl", "g": "/v.hcl"}
	})
	i := sym.Choose("path", len(ps)+1)
	p, m := "/p11", "GET"
	if i < len(ps) {
		p = ps[i]
		m = []string{"GET", "POST", "OPTIONS", "HEAD"}[sym.Choose("method", 4)]
		if p[len(p)-1] == '/' {
			p += []string{"", "x", "x/y"}[sym.Choose("below", 3)]
		}
	}
	guarded(s, &lib.Upstream{}, "h", m, p, 404)
}

// H_edges: guards at the edges of their settings.
func H_edges() {
	env.Init()
	c := sym.Case(6)
	h := &host{name: "h", mode: c % 3, rate: 60, burst: 1}
	h.fw = sym.Choose("firewall", 2) == 1
	h.black = sym.Choose("blacklisting", 2) == 1
	h.sub = sym.Choose("subpath", 2) == 1
	switch sym.Choose("rules", 5) {
	case 1:
		h.rules = map[string][]string{}
	case 2:
		h.rules = map[string][]string{"/": {}}
	case 3:
		h.rules = map[string][]string{"/": {""}, "/a": nil}
	case 4:
		h.rules = map[string][]string{"/zz": {"*"}}
	}
	h.burst = []int{0, 1, 2}[sym.Choose("burst", 3)]
	if h.burst == 0 {
		h.rate = []float64{0, 60}[sym.Choose("rate", 2)]
	}
	if c/3 == 0 {
		files("h")
	}
	s, u := start(c/3 == 1, h)
	for i := 0; i < 2; i++ {
		h.do(s, u, []string{"/a", "/"}[sym.Choose("path", 2)], "1", "a")
	}
}

// H_mixed: three hosts, of which each has its own guards or none.
func H_mixed() {
	env.Init()
	c := sym.Case(9)
	hs := []*host{{name: "h", rate: 60, burst: 1}, {name: "g", rate: 60, burst: 2}, {name: "f", rate: 60, burst: 3}}
	for i, h := range hs {
		h.mode = (c + i*(c/3)) % 3
		h.firewall(sym.Choose("firewall", 3))
	}
	s, u := start(true, hs...)
	for i := 0; i < 3; i++ {
		hs[(i+c)%3].do(s, u, "/a", []string{"1", "2"}[(c+i)%2], "a")
		hs[(i+c)%3].do(s, u, "/a", "2", "a")
	}
}

// H_who: no client, method or header field gets around the guards.
func H_who() {
	env.Init()
	c := sym.Case(6)
	mode, vhost := c%3, c/3 == 1
	kind := sym.Choose("guard", 2)
	set := func(c *tuna.Config) {
		h := &host{name: "h", mode: mode, rate: 60, burst: 1, filter: true}
		if kind == 0 {
			h.fw = true
			h.rules = map[string][]string{"/a": {"nobody"}}
		}
		h.set(c)
		if mode == proxy {
			c.Proxy.Methods = []string{"GET", "HEAD", "POST", "OPTIONS", "PUT", "DELETE", "PATCH", "CONNECT"}
		} else if mode == serve {
			c.Serve.Methods = map[string]string{"/": "GET;HEAD;POST;OPTIONS;PUT;DELETE;PATCH;CONNECT"}
		}
	}
	files("h")
	lib.Conf("/v.hcl", set)
	s := lib.Server(func(c *tuna.Config) {
		if !vhost {
			set(c)
			return
		}
		c.Core.VirtualHosting = true
		c.Core.VirtualHosts = map[string]string{"h": "/v.hcl"}
	})
	u := &lib.Upstream{}
	s.Transport = u
	m, p := "GET", "/a"
	addr, _ := lib.WordClient("1:1", "1")
	hd, v := "", ""
	switch sym.Choose("vary", 4) {
	case 0:
		addr, _ = lib.AnyClient()
	case 1:
		if mode != download {
			m = []string{"GET", "HEAD", "POST", "OPTIONS", "PUT", "DELETE", "PATCH", "CONNECT"}[sym.Choose("method", 8)]
		}
	case 2:
		p = []string{"/favicon.ico", "/robots.txt", "/.well-known/acme-challenge/x", "/healthz", "/a.css", "/a/", "/", lib.WordPath("/q")}[sym.Choose("path", 8)]
	case 3:
		hd = []string{"X-Forwarded-For", "X-Real-Ip", "Forwarded", "Authorization", "User-Agent", "Upgrade", "Origin", "Cookie", lib.WordHeader("X-Q")}[sym.Choose("name", 9)]
		v = []string{"127.0.0.1", "nobody", "for=nobody", "Googlebot", "websocket", "http://h", lib.WordText("x")}[sym.Choose("value", 7)]
	}
	for i := 0; i < 3; i++ {
		r := env.Req(m, "h", p)
		r.RemoteAddr = addr
		if hd != "" {
			r.Header[hd] = []string{v + strings.Repeat("1", i)}
		}
		env.Accesses = nil
		n := len(u.Reqs)
		rec := lib.Do(s, r)
		reached := len(u.Reqs) > n
		for _, a := range env.Accesses {
			reached = reached || lib.Prefix(a.Name, "/w")
		}
		switch {
		case kind == 0:
			sym.Assert(rec.Code == 403 && !reached, "what the firewall refuses reaches no handler")
		case i == 0:
			sym.Assert(rec.Code != 403 && rec.Code != 429 && reached, "what is allowed is handled")
		default:
			sym.Assert(rec.Code == 429 && !reached, "what the limiter refuses reaches no handler")
		}
	}
	sym.Cover("guarded")
}

// H_slash: paths that are configured with and without a final slash are one route with one budget.
func H_slash() {
	env.Init()
	k := sym.Case(8)
	base := []string{"/a", "/a/b", "/", "/.well-known"}[k%4]
	vhost := k/4 == 1
	h := &host{name: "h", burst: 3, rate: 60}
	h.fw = sym.Choose("firewall", 2) == 1
	if h.fw {
		h.black = true
		h.rules = map[string][]string{"/": {"2"}}
	}
	lists := [][2]string{{"GET", "GET"}, {"GET;POST", "POST"}, {"POST", "GET"}}[sym.Choose("methods", 3)]
	set := func(c *tuna.Config) {
		h.set(c)
		c.Serve.Methods = map[string]string{base: lists[0], base + "/": lists[1], "/other": "GET"}
	}
	env.PutDir("/w")
	lib.Conf("/h.hcl", set)
	sym.MapOrder(true)
	s := lib.Server(func(c *tuna.Config) {
		if !vhost {
			set(c)
			return
		}
		c.Core.VirtualHosting = true
		c.Core.VirtualHosts = map[string]string{"h": "/h.hcl"}
	})
	sym.MapOrder(false)
	path := base
	if base != "/" && lists[1] == "GET" && sym.Choose("slash", 2) == 1 {
		path += "/x"
	}
	if h.fw {
		r := env.Req("GET", "h", path)
		r.RemoteAddr = "2:1"
		sym.Assert(lib.Do(s, r).Code == 403, "the firewall guards both")
	}
	for i := 0; i < 5; i++ {
		m := "GET"
		if i == 1 && lists[1] == "POST" {
			m = "POST"
		}
		r := env.Req(m, "h", path)
		r.RemoteAddr = "1:1"
		rec := lib.Do(s, r)
		sym.Observe("code", rec.Code)
		sym.Assert((rec.Code == 429) == (i >= 3), "three requests are admitted")
	}
	sym.Cover("counted")
}
