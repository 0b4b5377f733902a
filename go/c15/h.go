// Package c15 decides property C15: virtual hosts are isolated.
package c15

import (
	"strings"

	"github.com/redmaner/MaguroHTTP/tuna"
	"github.com/redmaner/MaguroHTTP/verif/env"
	"github.com/redmaner/MaguroHTTP/verif/lib"
	"github.com/redmaner/MaguroHTTP/verif/sym"
)

const (
	static = iota
	download
	proxy
	kinds
)

func mark(h string) string { return "<<" + h + ">>" }

// conf sets the configuration of host h; everything in it carries the mark of h.
func conf(c *tuna.Config, h string, kind int) {
	m := mark(h)
	c.Errors = map[string]string{"404": "/err/" + h + "404", "405": "/err/" + h + "405", "502": "/err/" + h + "502"}
	c.Guard.Rate = 6000
	c.Guard.RateBurst = 100
	c.Serve.ServeDir = "/w/" + h
	c.Serve.ServeIndex = "i" + h
	c.Serve.Headers = map[string]string{"X-H": m, "X-H-" + strings.ToUpper(h): m}
	c.Serve.MIMETypes.ResponseTypes = map[string]string{"/f": "t/" + m, "/i" + h: "i/" + m}
	switch kind {
	case static:
		c.Serve.Methods = map[string]string{"/": "GET"}
	case download:
		c.Serve.Download.Enabled = true
		c.Serve.Download.Exts = []string{".x" + h}
	case proxy:
		c.Proxy.Enabled = true
		c.Proxy.Rules = map[string]string{h: "http://u" + h}
		c.Proxy.Methods = []string{"GET"}
		c.Proxy.Headers = map[string]string{"X-H": m}
	}
}

func files(h string) {
	m := mark(h)
	env.Put("/w/"+h+"/i"+h, "index "+m)
	env.Put("/w/"+h+"/f", "file "+m)
	env.Put("/w/"+h+"/only"+h, "only "+m)
	for _, o := range []string{"a", "b", "m"} {
		// files that only another host's configuration would list or use as index
		if o != h {
			env.Put("/w/"+h+"/i"+o, "wrong index")
		}
		env.Put("/w/"+h+"/d.x"+o, "d "+m)
	}
	for _, c := range []string{"404", "405", "502"} {
		env.Put("/err/"+h+c, "error "+c+" "+m)
	}
}

func server(ka, kb, km int, names map[string]string) (*tuna.Server, *lib.Upstream) {
	lib.Conf("/a.hcl", func(c *tuna.Config) { conf(c, "a", ka) })
	lib.Conf("/b.hcl", func(c *tuna.Config) { conf(c, "b", kb) })
	s := lib.Server(func(c *tuna.Config) {
		conf(c, "m", km)
		c.Core.VirtualHosting = true
		c.Core.VirtualHosts = names
	})
	u := &lib.Upstream{}
	s.Transport = u
	return s, u
}

func ask(s *tuna.Server, u *lib.Upstream, host, p string) *env.Rec {
	u.Reqs = nil
	env.Accesses = nil
	return lib.Do(s, env.Req("GET", host, p))
}

// own checks a response for virtual host h of the given kind.
func own(rec *env.Rec, u *lib.Upstream, h string, kind int, p string) {
	m := mark(h)
	for _, o := range []string{"a", "b", "m"} {
		if o == h || (o == "m" && h == "") {
			continue
		}
		sym.Assert(!strings.Contains(rec.Body, mark(o)), "no content of another host")
		for _, vs := range rec.Sent {
			for _, v := range vs {
				sym.Assert(!strings.Contains(v, mark(o)), "no header of another host")
			}
		}
		for _, a := range env.Accesses {
			sym.Assert(!lib.Prefix(a.Name, "/w/"+o) && !lib.Prefix(a.Name, "/err/"+o), "no file of another host is touched")
		}
		for _, r := range u.Reqs {
			sym.Assert(r.URL.Host != "u"+o, "no upstream of another host")
		}
	}
	if h == "" {
		sym.Assert(rec.Code == 404 && len(u.Reqs) == 0, "an unknown host gets 404")
		sym.Cover("unknown host")
		return
	}
	if kind == proxy {
		sym.Cover("proxied")
		sym.Assert(len(u.Reqs) == 1 && u.Reqs[0].URL.Host == "u"+h, "its own upstream")
		sym.Assert(rec.Code == 200 && rec.Body == "up:http:u"+h, "the answer of its own upstream")
		sym.Assert(rec.Get("X-H") == m, "its own header")
		return
	}
	sym.Assert(len(u.Reqs) == 0, "not proxied")
	q := lib.Resolve(p)
	name := ""
	switch {
	case q == "/f":
		name = "file"
	case q == "/only"+h:
		name = "only"
	case q == "/i"+h || (q == "/" && kind == static):
		name = "index"
	case lib.Prefix(q, "/d.x") && len(q) == 5 && (q[4] == 'a' || q[4] == 'b' || q[4] == 'm'):
		name = "d"
	case len(q) == 3 && lib.Prefix(q, "/i") && (q[2] == 'a' || q[2] == 'b' || q[2] == 'm'):
		sym.Assert(rec.Code == 200 && rec.Body == "wrong index", "its own file")
		return
	case q == "/" && kind == download:
		sym.Cover("list")
		sym.Assert(rec.Code == 200 && strings.Contains(rec.Body, "d.x"+h), "its own files are listed")
		for _, o := range []string{"a", "b", "m"} {
			sym.Assert(o == h || !strings.Contains(rec.Body, "d.x"+o), "its own extensions are listed")
		}
		sym.Assert(rec.Get("X-H") == m, "its own header")
		return
	default:
		sym.Cover("own error page")
		sym.Assert(rec.Code == 404 && rec.Body == "error 404 "+m, "its own error page")
		return
	}
	sym.Cover("own file")
	sym.Assert(rec.Code == 200 && rec.Body == name+" "+m, "its own file")
	sym.Assert(rec.Get("X-H") == m && rec.Get("X-H-"+strings.ToUpper(h)) == m, "its own header")
	ct := "application/octet-stream"
	if name == "file" {
		ct = "t/" + m
	}
	if name == "index" {
		ct = "i/" + m
	}
	sym.Assert(rec.Get("Content-Type") == ct, "its own content types")
}

func owner(host string) string {
	h := host
	if i := strings.IndexByte(h, ':'); i >= 0 {
		h = h[:i]
	}
	if h == "a" || h == "b" {
		return h
	}
	return ""
}

var both = map[string]string{"a": "/a.hcl", "b": "/b.hcl"}

func setup() {
	env.Init()
	files("a")
	files("b")
	files("m")
}

// H_hosts: every pair of kinds and every short host.
func H_hosts() {
	setup()
	ka, kb, km := sym.Choose("kind a", kinds), sym.Choose("kind b", kinds), sym.Choose("kind main", kinds)
	s, u := server(ka, kb, km, both)
	var host string
	switch c := sym.Case(6); c {
	case 0, 1:
		host = sym.String("host", c+1)
		for i := 0; i < len(host); i++ {
			sym.Assume(sym.Not(sym.In(host[i], ":/[]")))
		}
	case 2:
		host = sym.String("host", 1) + ":80"
		sym.Assume(sym.Not(sym.In(host[0], ":/[]")))
	default:
		host = []string{"", "m", "a.b"}[c-3]
	}
	ps := []string{"/", "/f", "/onlya", "/onlyb", "/zz", "/d.xa", "/ib"}
	p := ps[sym.Choose("path", len(ps))]
	rec := ask(s, u, host, p)
	h := owner(host)
	k := ka
	if h == "b" {
		k = kb
	}
	sym.Observe("code", rec.Code)
	sym.Observe("body", lib.Main(rec.Body))
	own(rec, u, h, k, p)
}

// H_paths: every short path.
func H_paths() {
	setup()
	ka, kb := sym.Choose("kind a", kinds), sym.Choose("kind b", kinds)
	s, u := server(ka, kb, static, both)
	host := []string{"a", "b", "c"}[sym.Choose("host", 3)]
	n := 4
	if sym.Thorough() {
		n = 6
	}
	p := "/" + sym.String("path", sym.Case(n))
	sym.Assume(!strings.Contains(p, "\\"))
	k := ka
	if host == "b" {
		k = kb
	}
	if k == proxy {
		for i := 0; i < len(p); i++ { // the request line holds printable characters only
			sym.Assume(sym.And(p[i] > ' ', p[i] < 127))
			sym.Assume(p[i] != '%')
		}
	}
	rec := ask(s, u, host, p)
	own(rec, u, owner(host), k, p)
}

func same(x, y *env.Rec) {
	sym.Assert(x.Code == y.Code && x.Body == y.Body, "same answer")
	sym.Assert(len(x.Sent) == len(y.Sent), "same headers")
	for k, v := range x.Sent {
		w := y.Sent[k]
		sym.Assert(len(v) == len(w), "same headers")
		for i := range v {
			sym.Assert(v[i] == w[i], "same headers")
		}
	}
}

// H_change: changing, adding or removing host b changes nothing for host a.
func H_change() {
	setup()
	ka, kb, kc := sym.Choose("kind a", kinds), sym.Choose("kind b", kinds), sym.Choose("new kind b", kinds+1)
	ps := []string{"/", "/f", "/zz", "/d.xb", "/ib"}
	p := ps[sym.Case(len(ps))]
	method := []string{"GET", "POST"}[sym.Choose("method", 2)]
	get := func(s *tuna.Server, u *lib.Upstream) *env.Rec {
		return lib.Do(s, env.Req(method, "a", p))
	}
	s, u := server(ka, kb, static, both)
	if sym.Bool("b was used before") {
		ask(s, u, "b", p)
		ask(s, u, "zz", p)
	}
	x := get(s, u)
	n := both
	if kc == kinds {
		n = map[string]string{"a": "/a.hcl"}
		kc = 0
	}
	s, u = server(ka, kc, static, n)
	same(x, get(s, u))
	sym.Cover("compared")
}

// H_errors: error pages of each code come from the own configuration.
func H_errors() {
	setup()
	ka, kb, km := sym.Choose("kind a", kinds), sym.Choose("kind b", kinds), sym.Choose("kind main", kinds)
	s, u := server(ka, kb, km, both)
	u.Fail = true
	host := []string{"a", "b", "c"}[sym.Case(3)]
	k, want, code := ka, host, "404"
	if host == "b" {
		k = kb
	}
	if host == "c" {
		want = "m"
	} else if sym.Bool("post") {
		code = "405"
	} else if k == proxy {
		code = "502"
	}
	m := "GET"
	if code == "405" {
		m = "POST"
	}
	rec := lib.Do(s, env.Req(m, host, "/nothing"))
	sym.Observe("body", rec.Body)
	sym.Assert(rec.Body == "error "+code+" "+mark(want), "error page of its own configuration")
	sym.Cover("error " + code)
}

// H_bare: a virtual host that leaves a setting out does not borrow another host's.
func H_bare() {
	setup()
	piece := sym.Case(6)
	ka := []int{static, static, static, static, download, proxy}[piece]
	further := sym.Choose("further", 2) == 1
	kb, km := sym.Choose("kind b", kinds), sym.Choose("kind main", kinds)
	lib.Conf("/a.hcl", func(c *tuna.Config) {
		conf(c, "a", ka)
		switch piece {
		case 0:
			c.Errors = nil
		case 1, 4:
			c.Serve.Headers = nil
		case 2:
			c.Serve.MIMETypes.ResponseTypes = nil
		case 3:
			c.Serve.ServeIndex = ""
		case 5:
			c.Proxy.Headers = nil
		}
		if further {
			c.Errors = map[string]string{"406": "/err/a404"}
			c.Serve.Headers = map[string]string{}
			c.Serve.MIMETypes.ResponseTypes = map[string]string{"/zzz": "q/q"}
		}
	})
	lib.Conf("/b.hcl", func(c *tuna.Config) { conf(c, "b", kb) })
	s := lib.Server(func(c *tuna.Config) {
		conf(c, "m", km)
		c.Core.VirtualHosting = true
		c.Core.VirtualHosts = both
	})
	u := &lib.Upstream{Fail: sym.Choose("upstream fails", 2) == 1}
	s.Transport = u
	// other hosts come first
	if sym.Choose("others first", 2) == 1 {
		ask(s, u, "b", "/f")
		ask(s, u, "m", "/zz")
	}
	ps := []string{"/", "/f", "/zz", "/onlya", "/im"}
	p := ps[sym.Choose("path", len(ps))]
	u.Reqs = nil
	env.Accesses = nil
	method := []string{"GET", "POST"}[sym.Choose("method", 2)]
	rec := lib.Do(s, env.Req(method, "a", p))
	sym.Observe("code", rec.Code)
	sym.Observe("body", lib.Main(rec.Body))
	for _, o := range []string{"b", "m"} {
		sym.Assert(!strings.Contains(rec.Body, mark(o)), "no content of another host")
		for _, vs := range rec.Sent {
			for _, v := range vs {
				sym.Assert(!strings.Contains(v, mark(o)), "no header of another host")
			}
		}
		for _, a := range env.Accesses {
			sym.Assert(!lib.Prefix(a.Name, "/w/"+o) && !lib.Prefix(a.Name, "/err/"+o), "no file of another host is touched")
		}
		for _, r := range u.Reqs {
			sym.Assert(r.URL.Host != "u"+o, "no upstream of another host")
		}
	}
	sym.Cover(strings.TrimSpace(method))
}

type site struct {
	host, id string
	kind     int
	bare     bool
}

// H_many: many virtual hosts with similar names, some of which leave settings out.
func H_many() {
	setup()
	word := lib.WordHost("q")
	names := []string{"a", "www.a", "a.b", "b", "localhost", "aa", word}
	first := sym.Case(len(names))
	var sites []site
	hosts := map[string]string{}
	ids := []string{"k0", "k1", "k2", "k3", "k4", "k5", "k6"}
	kindOf, bare := sym.Choose("kind", kinds), sym.Choose("bare", 3)
	for i, n := range names {
		if _, ok := hosts[n]; ok {
			continue
		}
		x := site{n, ids[i], (i + kindOf) % kinds, bare == 2 || (i+bare)%2 == 0}
		if i == first {
			x.kind = kindOf
		}
		sites = append(sites, x)
		file := "/" + x.id + ".hcl"
		hosts[n] = file
		lib.Conf(file, func(c *tuna.Config) {
			e, sh, ph, rt := c.Errors, c.Serve.Headers, c.Proxy.Headers, c.Serve.MIMETypes.ResponseTypes
			conf(c, x.id, x.kind)
			if x.kind == proxy {
				c.Proxy.Rules = map[string]string{x.host: "http://u" + x.id}
			}
			if x.bare {
				// the settings are left out, not emptied
				c.Errors, c.Serve.Headers, c.Proxy.Headers, c.Serve.MIMETypes.ResponseTypes = e, sh, ph, rt
			}
		})
		files(x.id)
	}
	s := lib.Server(func(c *tuna.Config) {
		conf(c, "m", sym.Choose("kind main", kinds))
		c.Core.VirtualHosting = true
		c.Core.VirtualHosts = hosts
	})
	u := &lib.Upstream{}
	s.Transport = u
	x := site{}
	for _, y := range sites {
		if y.host == names[first] {
			x = y
		}
	}
	if x.host == "" {
		return
	}
	p := []string{"/", "/f", "/zz", lib.WordPath("/only")}[sym.Choose("path", 4)]
	n := 1
	if p == "/f" && kindOf == 0 {
		n = sym.Size("requests", 1, 200)
	}
	for i := 0; i < n; i++ {
		if i == 0 && sym.Choose("others first", 2) == 1 {
			for _, y := range sites {
				lib.Do(s, env.Req("GET", y.host, "/f"))
			}
		}
		rec := ask(s, u, x.host+[]string{"", ":80"}[sym.Choose("port", 2)], p)
		m := mark(x.id)
		for _, o := range append(ids, "m", "a", "b") {
			if o == x.id {
				continue
			}
			sym.Assert(!strings.Contains(rec.Body, mark(o)), "no content of another host")
			for _, vs := range rec.Sent {
				for _, v := range vs {
					sym.Assert(!strings.Contains(v, mark(o)), "no header of another host")
				}
			}
			for _, a := range env.Accesses {
				sym.Assert(!lib.Prefix(a.Name, "/w/"+o) && !lib.Prefix(a.Name, "/err/"+o), "no file of another host is touched")
			}
			for _, r := range u.Reqs {
				sym.Assert(r.URL.Host != "u"+o, "no upstream of another host")
			}
		}
		h := rec.Get("X-H")
		if x.kind == proxy {
			sym.Assert(len(u.Reqs) == 1 && u.Reqs[0].URL.Host == "u"+x.id && rec.Code == 200, "its own upstream")
			sym.Assert(h == m || x.bare && h == "", "its own header")
			continue
		}
		sym.Assert(len(u.Reqs) == 0, "not proxied")
		switch {
		case p == "/f":
			sym.Assert(rec.Code == 200 && rec.Body == "file "+m, "its own file")
			sym.Assert(h == m || x.bare && h == "", "its own header")
			ct := "t/" + m
			if x.bare {
				ct = "application/octet-stream"
			}
			sym.Assert(rec.Get("Content-Type") == ct, "its own content types")
		case p == "/zz":
			sym.Assert(rec.Code == 404, "its own files only")
			sym.Assert(rec.Body == "error 404 "+m || x.bare && strings.Contains(rec.Body, "Error 404"), "its own error page")
		}
	}
	sym.Cover("end")
}

// H_alias: two names for one configuration, and configurations that are almost equal.
func H_alias() {
	setup()
	ka := sym.Choose("kind", 2)
	lib.Conf("/a.hcl", func(c *tuna.Config) { conf(c, "a", ka) })
	k := sym.Case(3)
	lib.Conf("/b.hcl", func(c *tuna.Config) {
		conf(c, "a", ka)
		switch k {
		case 0:
			c.Serve.Headers = map[string]string{"X-H": mark("b")}
		case 1:
			c.Errors = map[string]string{"404": "/err/b404"}
		case 2:
			c.Serve.MIMETypes.ResponseTypes = map[string]string{"/f": "t/" + mark("b")}
		}
	})
	s := lib.Server(func(c *tuna.Config) {
		conf(c, "m", static)
		c.Core.VirtualHosting = true
		c.Core.VirtualHosts = map[string]string{"a": "/a.hcl", "x": "/a.hcl", "b": "/b.hcl"}
	})
	u := &lib.Upstream{}
	s.Transport = u
	p := []string{"/f", "/zz"}[sym.Choose("path", 2)]
	for i := 0; i < 3; i++ {
		h := []string{"a", "x", "b"}[sym.Choose("host", 3)]
		rec := ask(s, u, h, p)
		head, page, ct := "a", "a", "a"
		if h == "b" {
			switch k {
			case 0:
				head = "b"
			case 1:
				page = "b"
			case 2:
				ct = "b"
			}
		}
		if p == "/f" {
			sym.Assert(rec.Code == 200 && rec.Body == "file "+mark("a"), "its own file")
			sym.Assert(rec.Get("X-H") == mark(head), "its own header")
			sym.Assert(rec.Get("Content-Type") == "t/"+mark(ct), "its own content types")
		} else {
			sym.Assert(rec.Code == 404 && rec.Body == "error 404 "+mark(page), "its own error page")
		}
	}
}
