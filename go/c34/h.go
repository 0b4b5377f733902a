// Package c34 decides property C34: settings affect only the host and the feature they belong to.
package c34

import (
	"strings"

	"github.com/redmaner/MaguroHTTP/tuna"
	"github.com/redmaner/MaguroHTTP/verif/env"
	"github.com/redmaner/MaguroHTTP/verif/lib"
	"github.com/redmaner/MaguroHTTP/verif/sym"
)

const (
	serve = iota
	download
	proxy
)

// bare leaves out every setting of the subject that is optional.
var bare bool

// base sets what the subject is about: a host in one of the modes.
func base(mode int) func(c *tuna.Config) {
	if bare {
		return func(c *tuna.Config) {
			switch mode {
			case serve:
				c.Serve.ServeDir = "/w"
				c.Serve.Methods = map[string]string{"/": "GET"}
			case download:
				c.Serve.ServeDir = "/w"
				c.Serve.ServeIndex = "/i"
				c.Serve.Download.Enabled = true
			case proxy:
				c.Proxy.Enabled = true
				c.Proxy.Rules = map[string]string{"h": "http://up"}
				c.Proxy.Methods = []string{"GET"}
			}
		}
	}
	return func(c *tuna.Config) {
		c.Guard.RateBurst = 1 << 20
		switch mode {
		case serve:
			c.Serve.ServeDir = "/w"
			c.Serve.ServeIndex = "i.html"
			c.Serve.Methods = map[string]string{"/": "GET;HEAD", "/d/": "GET;POST"}
			c.Serve.Headers = map[string]string{"X-Own": "1"}
			c.Serve.MIMETypes.RequestTypes = map[string]string{"/d/": "t/a;"}
			c.Serve.MIMETypes.ResponseTypes = map[string]string{"/w/b": "t/b"}
		case download:
			c.Serve.ServeDir = "/w"
			c.Serve.ServeIndex = "/i"
			c.Serve.Download.Enabled = true
			c.Serve.Download.Exts = []string{".txt"}
			c.Serve.Headers = map[string]string{"X-Own": "1"}
		case proxy:
			c.Proxy.Enabled = true
			c.Proxy.Rules = map[string]string{"h": "http://up"}
			c.Proxy.Methods = []string{"GET", "POST"}
			c.Proxy.Headers = map[string]string{"X-Own": "1"}
		}
	}
}

// core are values of the core settings.
type core struct {
	webdav, auto, preload, sub bool
	level, age, t1, t2, t3     int
	some                       bool
}

func drawCore() *core {
	n := &core{webdav: sym.Bool("WebDAV"), auto: sym.Bool("autocert"), preload: sym.Bool("preload"), sub: sym.Bool("subdomains")}
	n.level = sym.IntRange("log level", 0, 3)
	n.age = sym.IntRange("HSTS", -1, 1<<40)
	n.t1 = sym.IntRange("read timeout", 0, 1<<20)
	n.t2 = sym.IntRange("header timeout", 0, 1<<20)
	n.t3 = sym.IntRange("write timeout", 0, 1<<20)
	n.some = sym.Choose("names", 2) == 1
	return n
}

// set changes core settings that no answer depends on as long as TLS is off.
func (n *core) set(c *tuna.Config) {
	c.Core.LogLevel = n.level
	c.Core.ReadTimeout, c.Core.ReadHeaderTimeout, c.Core.WriteTimeout = n.t1, n.t2, n.t3
	c.Core.WebDAV = n.webdav
	c.Core.TLS.AutoCert.Enabled = n.auto
	c.Core.TLS.HSTS.MaxAge, c.Core.TLS.HSTS.Preload, c.Core.TLS.HSTS.IncludeSubdomains = n.age, n.preload, n.sub
	if n.some {
		c.Core.Address, c.Core.Port = "127.0.0.1", "8443"
		c.Core.TLS.TLSCert, c.Core.TLS.TLSKey, c.Core.TLS.PrivateCA = "/c", "/k", []string{"/ca"}
		c.Core.TLS.AutoCert.Certificates = []string{"h", "g"}
		c.Core.Metrics.Path, c.Core.Metrics.Out = "/a.txt", "/m/out"
		c.Core.Metrics.Users = map[string]string{"u": "p"}
	}
}

// rest are settings of features that are off in a mode, and entries of tables for other paths.
type rest struct {
	dl, black, sub, filter bool
	rate                   float64
	burst                  int
	kind                   int
}

func drawRest() *rest {
	n := &rest{dl: sym.Bool("download"), black: sym.Bool("blacklisting"), sub: sym.Bool("subpath"), filter: sym.Bool("filter on IP")}
	n.burst = 1 << 24
	n.kind = sym.Choose("tables", 4)
	n.rate = []float64{100, 1, 1e9, 0.5}[n.kind]
	return n
}

func (n *rest) set(mode int, c *tuna.Config) {
	c.Guard.FilterOnIP = n.filter
	c.Guard.Rate, c.Guard.RateBurst = n.rate, n.burst
	c.Guard.Firewall.Blacklisting, c.Guard.Firewall.Subpath = n.black, n.sub
	if n.kind == 0 {
		return
	}
	c.Guard.Firewall.Rules = map[string][]string{"/": {"*"}, "/a.txt": {"1"}}
	if mode != proxy {
		c.Proxy.Rules = map[string]string{"h": "http://wrong", "g": "http://wrong"}
		c.Proxy.Methods = []string{"GET", "PUT"}
		c.Proxy.Headers = map[string]string{"X-Proxy": "wrong", "Server": "wrong"}
	} else {
		c.Serve.Download.Enabled = n.dl
		c.Serve.Download.Exts = []string{".txt"}
		c.Serve.ServeDir, c.Serve.ServeIndex = "/w", "i.html"
		c.Serve.Methods = map[string]string{"/": "GET;PUT", "/a.txt": "PUT"}
		c.Serve.MIMETypes.RequestTypes = map[string]string{"/": "wrong", "/a.txt": "wrong"}
		c.Serve.MIMETypes.ResponseTypes = map[string]string{"/a.txt": "wrong", "/w/a.txt": "wrong"}
		c.Serve.Headers = map[string]string{"X-Own": "wrong", "X-Wrong": "1"}
	}
	switch {
	case mode == serve && n.kind == 1:
		c.Serve.Download.Exts = []string{".txt", "", ".html"}
	case mode == serve && n.kind == 2:
		if bare {
			c.Serve.MIMETypes.RequestTypes, c.Serve.MIMETypes.ResponseTypes = map[string]string{}, map[string]string{}
		}
		c.Serve.Methods["/yyy/"] = "PUT;DELETE"
		c.Serve.Methods["/d/zzz"] = "PUT"
		c.Serve.MIMETypes.RequestTypes["/yyy/"] = "*"
		c.Serve.MIMETypes.RequestTypes["/zz"] = "wrong"
		c.Serve.MIMETypes.ResponseTypes["/w/zzz"] = "wrong"
	case mode == download && n.kind == 1:
		c.Serve.Methods = map[string]string{"/": "PUT;POST", "/a.txt": "POST", "/d/": "HEAD"}
	case mode == download && n.kind == 2:
		c.Serve.MIMETypes.RequestTypes = map[string]string{"/": "wrong", "/a.txt": "wrong"}
		c.Serve.MIMETypes.ResponseTypes = map[string]string{"/w/zzz": "wrong"}
	case mode == proxy && n.kind == 2:
		c.Proxy.Rules["other"] = "http://wrong"
	case n.kind == 3:
		c.Errors = map[string]string{"418": "/w/b", "500": "/gone", "0": "/w/b", "40": "/w/b", "4040": "/w/b"}
	}
}

func tree() {
	env.Put("/w/a.txt", "data a")
	env.Put("/w/b", "data b")
	env.Put("/w/i.html", "<p>index")
	env.Put("/w/d/b.html", "<p>data b")
	env.Put("/w/d/i.html", "<p>data i")
	env.Put("/c", "pem")
	env.Put("/k", "pem")
}

var requests = []lib.Request{
	{"GET", "h", "/a.txt", ""}, {"GET", "h", "/", ""}, {"GET", "h", "/zz", ""}, {"POST", "h", "/a.txt", ""}, {"GET", "h", "/a.txt", "t/a"},
	{"HEAD", "h", "/a.txt", ""}, {"GET", "h", "/d/b.html", ""}, {"POST", "h", "/d/", "t/a"}, {"GET", "h", "/b", ""}, {"GET", "h", "/d", ""}, {"PUT", "h", "/zzz/x", ""}, {"GET", "h", "/i", ""},
}

func pick() lib.Request { return requests[sym.Choose("request", len(requests))] }

// H_core: core settings.
func H_core() {
	env.Init()
	tree()
	k := sym.Case(6)
	mode := k % 3
	n := drawCore()
	bare = sym.Choose("bare", 2) == 1
	q := pick()
	lib.Conf("/h.hcl", base(mode))
	main := func(c *tuna.Config) {
		if k < 3 {
			base(mode)(c)
			return
		}
		c.Core.VirtualHosting = true
		c.Core.VirtualHosts = map[string]string{"h": "/h.hcl"}
	}
	a := lib.Ask(lib.Server(main), q)
	b := lib.Ask(lib.Server(func(c *tuna.Config) {
		main(c)
		n.set(c)
	}), q)
	lib.Same(a, b)
}

// H_vhost: core settings in the configuration of a virtual host.
func H_vhost() {
	env.Init()
	tree()
	mode := sym.Case(3)
	n := drawCore()
	tls := sym.Bool("TLS")
	metrics := sym.Bool("metrics")
	q := pick()
	lib.Conf("/h.hcl", base(mode))
	lib.Conf("/n.hcl", func(c *tuna.Config) {
		base(mode)(c)
		n.set(c)
		c.Core.TLS.Enabled = tls
		c.Core.Metrics.Enabled = metrics
		if n.some {
			c.Core.FileDir = "/other/"
			c.Core.LogOut = "/other.log"
			c.Core.VirtualHosts = map[string]string{"x": "/h.hcl"}
		}
	})
	a := lib.Ask(lib.Server(vhosts("h", "/h.hcl")), q)
	b := lib.Ask(lib.Server(vhosts("h", "/n.hcl")), q)
	lib.Same(a, b)
}

func vhosts(v ...string) func(c *tuna.Config) {
	return func(c *tuna.Config) {
		c.Core.VirtualHosting = true
		c.Core.VirtualHosts = map[string]string{}
		for i := 0; i+1 < len(v); i += 2 {
			c.Core.VirtualHosts[v[i]] = v[i+1]
		}
	}
}

// H_rest: settings of features that are off.
func H_rest() {
	env.Init()
	tree()
	k := sym.Case(6)
	mode := k % 3
	n := drawRest()
	bare = sym.Choose("bare", 2) == 1
	q := pick()
	plain := base(mode)
	noisy := func(c *tuna.Config) {
		plain(c)
		n.set(mode, c)
	}
	if k < 3 {
		lib.Same(lib.Ask(lib.Server(plain), q), lib.Ask(lib.Server(noisy), q))
		return
	}
	lib.Conf("/h.hcl", plain)
	lib.Conf("/n.hcl", noisy)
	lib.Same(lib.Ask(lib.Server(vhosts("h", "/h.hcl")), q), lib.Ask(lib.Server(vhosts("h", "/n.hcl")), q))
}

// H_main: settings of hosts in the main configuration next to virtual hosts.
func H_main() {
	env.Init()
	tree()
	k := sym.Case(9)
	mode, other := k%3, k/3
	n := drawRest()
	fw := sym.Bool("firewall")
	on := sym.Bool("proxy")
	bare = sym.Choose("bare", 2) == 1
	q := pick()
	lib.Conf("/h.hcl", base(mode))
	a := lib.Ask(lib.Server(vhosts("h", "/h.hcl")), q)
	b := lib.Ask(lib.Server(func(c *tuna.Config) {
		vhosts("h", "/h.hcl")(c)
		base(other)(c)
		n.set(other, c)
		c.Guard.RateBurst = 0
		c.Guard.Rate = 0
		c.Guard.Firewall.Enabled = fw
		c.Serve.Download.Enabled = n.dl
		c.Proxy.Enabled = on
		c.Serve.ServeDir = "/wrong/"
		c.Serve.ServeIndex = "wrong"
		c.Serve.Headers = map[string]string{"X-Own": "wrong", "X-Wrong": "1"}
		c.Proxy.Headers = map[string]string{"X-Own": "wrong", "X-Wrong": "1"}
		c.Serve.MIMETypes.ResponseTypes = map[string]string{"/w/b": "wrong", "/b": "wrong"}
		c.Errors = map[string]string{"404": "/w/b", "405": "/w/b", "406": "/w/b", "403": "/w/b", "429": "/w/b"}
	}), q)
	// errors before a route is found are the main configuration's
	if a.Rec.Code == 404 || a.Rec.Code == 405 || a.Rec.Code == 406 {
		sym.Assert(a.Rec.Code == b.Rec.Code, "the same status")
		return
	}
	lib.Same(a, b)
}

// H_other: another virtual host.
func H_other() {
	env.Init()
	tree()
	k := sym.Case(9)
	mode, other := k%3, k/3
	n := drawRest()
	fw := sym.Bool("firewall")
	first := sym.Choose("name", 2)
	bare = sym.Choose("bare", 2) == 1
	q := pick()
	name := []string{"a", "z"}[first]
	lib.Conf("/h.hcl", base(mode))
	lib.Conf("/o.hcl", func(c *tuna.Config) {
		base(other)(c)
		n.set(other, c)
		c.Guard.RateBurst = 0
		c.Guard.Rate = 0
		c.Guard.Firewall.Enabled = fw
		if other == proxy {
			c.Proxy.Rules = map[string]string{name: "http://wrong", "w." + name: "http://wrong"}
		} else {
			c.Serve.ServeDir = "/wrong/"
			c.Serve.ServeIndex = "wrong"
		}
		c.Serve.Headers = map[string]string{"X-Own": "wrong", "X-Wrong": "1"}
		c.Proxy.Headers = map[string]string{"X-Own": "wrong", "X-Wrong": "1"}
		c.Serve.MIMETypes.ResponseTypes = map[string]string{"/w/b": "wrong", "/b": "wrong"}
		c.Errors = map[string]string{"404": "/w/b", "405": "/w/b", "406": "/w/b", "403": "/w/b", "429": "/w/b"}
	})
	a := lib.Ask(lib.Server(vhosts("h", "/h.hcl")), q)
	sym.MapOrder(n.kind == 0)
	s := lib.Server(vhosts("h", "/h.hcl", name, "/o.hcl"))
	sym.MapOrder(false)
	if n.kind == 1 {
		lib.Ask(s, lib.Request{q.Method, name, q.Path, q.Type})
	}
	lib.Same(a, lib.Ask(s, q))
}

// H_metrics: metrics, with TLS on both sides.
func H_metrics() {
	env.Init()
	tree()
	k := sym.Case(6)
	mode := k % 3
	q := pick()
	lib.Conf("/h.hcl", base(mode))
	main := func(c *tuna.Config) {
		c.Core.TLS.Enabled = true
		c.Core.TLS.TLSCert, c.Core.TLS.TLSKey = "/c", "/k"
		if k < 3 {
			base(mode)(c)
			return
		}
		vhosts("h", "/h.hcl")(c)
	}
	a := lib.Ask(lib.Server(main), q)
	b := lib.Ask(lib.Server(func(c *tuna.Config) {
		main(c)
		lib.WithMetrics(c)
		c.Core.Metrics.Path = []string{"/metrics", "/a/txt", "/zz/m"}[k%3]
	}), q)
	lib.Same(a, b)
}

// H_tls: TLS and HSTS show in one header field only.
func H_tls() {
	env.Init()
	tree()
	k := sym.Case(6)
	mode := k % 3
	bare = sym.Choose("bare", 2) == 1
	q := pick()
	preload, subs := sym.Bool("preload"), sym.Bool("subdomains")
	age := []int{0, 1, 31557600, -1}[sym.Choose("age", 4)]
	lib.Conf("/h.hcl", base(mode))
	main := func(c *tuna.Config) {
		if k < 3 {
			base(mode)(c)
			return
		}
		vhosts("h", "/h.hcl")(c)
	}
	a := lib.Ask(lib.Server(main), q)
	b := lib.Ask(lib.Server(func(c *tuna.Config) {
		main(c)
		c.Core.TLS.Enabled = true
		c.Core.TLS.TLSCert, c.Core.TLS.TLSKey = "/c", "/k"
		c.Core.TLS.HSTS.MaxAge, c.Core.TLS.HSTS.Preload, c.Core.TLS.HSTS.IncludeSubdomains = age, preload, subs
	}), q)
	delete(b.Rec.H, "Strict-Transport-Security")
	lib.Same(a, b)
}

// H_path: short request paths with all settings of features that are off.
func H_path() {
	env.Init()
	tree()
	k := sym.Case(6)
	mode := k % 3
	nc, nr := drawCore(), &rest{dl: sym.Bool("download"), black: sym.Bool("blacklisting"), sub: sym.Bool("subpath"), filter: sym.Bool("filter on IP"), rate: 1, burst: 1 << 21, kind: 1}
	sym.Assume(nc.some)
	n := 3
	if sym.Thorough() {
		n = 5
	}
	p := "/" + sym.String("path", sym.Choose("length", n))
	sym.Assume(!strings.Contains(p, "\\") && !strings.Contains(p, "\x00"))
	q := lib.Request{[]string{"GET", "PUT"}[sym.Choose("method", 2)], "h", p, ""}
	plain := base(mode)
	lib.Conf("/h.hcl", plain)
	lib.Conf("/n.hcl", func(c *tuna.Config) {
		plain(c)
		nr.set(mode, c)
	})
	if k < 3 {
		a := lib.Ask(lib.Server(plain), q)
		lib.Same(a, lib.Ask(lib.Server(func(c *tuna.Config) {
			plain(c)
			nc.set(c)
			nr.set(mode, c)
		}), q))
		return
	}
	a := lib.Ask(lib.Server(vhosts("h", "/h.hcl")), q)
	lib.Same(a, lib.Ask(lib.Server(func(c *tuna.Config) {
		vhosts("h", "/n.hcl")(c)
		nc.set(c)
	}), q))
}
