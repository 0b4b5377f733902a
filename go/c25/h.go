// Package c25 decides property C25: unusable or unsafe configurations are refused at start.
package c25

import (
	"github.com/redmaner/MaguroHTTP/tuna"
	"github.com/redmaner/MaguroHTTP/verif/env"
	"github.com/redmaner/MaguroHTTP/verif/lib"
	"github.com/redmaner/MaguroHTTP/verif/sym"
)

// text returns any string of at most n bytes.
func text(name string, n int) string {
	return sym.String(name, sym.Choose("length of "+name, n+1))
}

// list returns up to n strings.
func list(name string, n int) []string {
	return []string{"h", "g", "i"}[:sym.Choose(name, n+1)]
}

// start starts the server and reports whether it was refused.
func start() (*tuna.Server, bool) {
	var s *tuna.Server
	exits, code := sym.CatchExit(func() { s = tuna.NewInstanceFromConfig("/main.hcl") })
	sym.Assert(len(env.Listens) == 0, "nothing is served yet")
	if exits {
		sym.Assert(code != 0, "a refusal is a failure")
		sym.Cover("refused")
	} else {
		sym.Cover("accepted")
	}
	sym.Observe("refused", exits)
	return s, exits
}

// part is what a host is configured to do.
type part struct {
	proxy, download bool
	rules           []string
	methods         []string
	dir, index      string
}

func anyPart() part {
	p := part{}
	p.proxy = sym.Bool("proxy")
	p.download = sym.Bool("download")
	p.rules = list("rules", 1)
	p.methods = list("methods", 1)
	p.dir = text("serve directory", 2)
	p.index = text("index", 1)
	return p
}

func (p part) set(c *tuna.Config) {
	c.Proxy.Enabled = p.proxy
	if len(p.rules) > 0 {
		c.Proxy.Rules = map[string]string{}
		for _, h := range p.rules {
			c.Proxy.Rules[h] = "http://up"
		}
	}
	c.Proxy.Methods = []string{"GET"}
	if len(p.methods) > 0 {
		c.Serve.Methods = map[string]string{"/": "GET"}
	}
	c.Serve.ServeDir = p.dir
	c.Serve.ServeIndex = p.index
	c.Serve.Download.Enabled = p.download
}

// valid is the reference.
func (p part) valid() bool {
	noDir := p.dir == ""
	noIndex := p.index == ""
	return sym.Or(
		sym.And(p.proxy, len(p.rules) > 0),
		sym.And(sym.Not(p.proxy),
			sym.Not(sym.And(len(p.methods) > 0, noDir)),
			sym.Not(sym.And(p.download, sym.Or(noDir, noIndex)))))
}

// served checks the serve directory of an accepted configuration.
func (p part) served(got string) {
	n := len(p.dir)
	if n == 0 {
		sym.Assert(got == "", "no serve directory")
		return
	}
	slash := got[len(got)-1] == '/'
	sym.Assert(sym.Implies(sym.And(p.download, sym.Not(p.proxy)), slash), "names are appended to a directory")
	sym.Assert(sym.Or(sym.EqStr(got, p.dir), sym.EqStr(got, p.dir+"/")), "the configured directory")
}

func dirOK(got, conf string) {
	sym.Assert(got[len(got)-1] == '/', "names are appended to a directory")
	if conf[len(conf)-1] == '/' {
		sym.Assert(sym.EqStr(got, conf), "the configured directory")
	} else {
		sym.Assert(sym.EqStr(got, conf+"/"), "the configured directory")
	}
}

// H_core: the mandatory settings.
func H_core() {
	env.Init()
	n := 3
	if sym.Thorough() {
		n = 5
	}
	port := text("port", n)
	level := sym.Int("log level")
	logOut := []string{"", "stdout", "stderr", "/log", "/gone/log"}[sym.Case(5)]
	dir := text("file directory", n)
	for i := 0; i < len(dir); i++ {
		sym.Assume(dir[i] != 0)
	}
	lib.Conf("/main.hcl", func(c *tuna.Config) {
		c.Core.Port = port
		c.Core.LogLevel = level
		c.Core.LogOut = logOut
		c.Core.FileDir = dir
		c.Serve.ServeDir = "/w"
		c.Serve.Methods = map[string]string{"/": "GET"}
	})
	s, refused := start()
	ok := sym.And(port != "", logOut != "", dir != "", dir != "/", level >= 0, level <= 3)
	if logOut == "/gone/log" {
		sym.Assert(refused, "a log file that cannot be made")
		return
	}
	sym.Assert(sym.Iff(refused, sym.Not(ok)), "accepted iff the mandatory settings are usable")
	if !refused {
		dirOK(s.Cfg.Core.FileDir, dir)
	}
}

// H_default: a setting that is not mentioned has its default value.
func H_default() {
	env.Init()
	k := sym.Case(4)
	lib.Conf("/main.hcl", func(c *tuna.Config) {
		c.Core.LogOut = "stdout"
		switch k {
		case 1:
			c.Core.LogOut = ""
		case 2:
			c.Core.TLS.Enabled = true
		case 3:
			c.Core.VirtualHosting = true
		}
	})
	s, refused := start()
	sym.Assert(refused == (k != 0), "usable as long as log output, certificates and virtual hosts are given")
	if k == 0 {
		sym.Assert(s.Cfg.Core.Port == "80" && s.Cfg.Core.FileDir == "/usr/lib/magurohttp/", "defaults")
	}
}

// H_tls: TLS settings.
func H_tls() {
	env.Init()
	on, auto := sym.Bool("TLS"), sym.Bool("autocert")
	n := 3
	if sym.Thorough() {
		n = 4
	}
	port := sym.String("port", sym.Case(n)+1)
	certs := list("names", 2)
	cert, key := text("certificate", 1), text("key", 1)
	part := part{methods: []string{"GET"}, dir: "/w"}
	lib.Conf("/main.hcl", func(c *tuna.Config) {
		c.Core.Port = port
		c.Core.LogOut = "stdout"
		c.Core.FileDir = "/f/"
		c.Core.TLS.Enabled = on
		c.Core.TLS.AutoCert.Enabled = auto
		c.Core.TLS.AutoCert.Certificates = certs
		c.Core.TLS.TLSCert = cert
		c.Core.TLS.TLSKey = key
		part.set(c)
	})
	_, refused := start()
	ok := sym.Or(sym.Not(on),
		sym.And(auto, len(certs) > 0, port == "443"),
		sym.And(sym.Not(auto), cert != "", key != ""))
	sym.Assert(sym.Iff(refused, sym.Not(ok)), "accepted iff TLS has certificates")
}

// H_main: what a server without virtual hosts does.
func H_main() {
	env.Init()
	p := anyPart()
	hosts := sym.Case(2)
	lib.Conf("/main.hcl", func(c *tuna.Config) {
		c.Core.LogOut = "stdout"
		c.Core.FileDir = "/f/"
		if hosts == 1 {
			// ignored without VirtualHosting
			c.Core.VirtualHosts = map[string]string{"h": "", "g": "/gone"}
		}
		p.set(c)
	})
	s, refused := start()
	sym.Assert(sym.Iff(refused, sym.Not(p.valid())), "accepted iff usable")
	if !refused {
		p.served(s.Cfg.Serve.ServeDir)
	}
}

// H_vhost: what a virtual host does.
func H_vhost() {
	env.Init()
	p := anyPart()
	q := part{methods: []string{"GET"}, dir: "/w"}
	nested := sym.Bool("nested")
	c := sym.Case(3)
	lib.Conf("/v.hcl", func(c *tuna.Config) {
		p.set(c)
		c.Core.VirtualHosting = nested
		if nested {
			c.Core.VirtualHosts = map[string]string{"x": "/w.hcl"}
		}
		// ignored in virtual hosts
		c.Core.LogLevel = -1
		c.Core.TLS.Enabled = true
	})
	lib.Conf("/w.hcl", q.set)
	lib.Conf("/main.hcl", func(m *tuna.Config) {
		m.Core.LogOut = "stdout"
		m.Core.FileDir = "/f/"
		m.Core.VirtualHosting = true
		m.Core.VirtualHosts = map[string]string{"h": "/v.hcl"}
		if c > 0 {
			m.Core.VirtualHosts = map[string]string{"g": "/w.hcl", "h": "/v.hcl", "i": "/w.hcl"}
		}
		if c == 2 {
			// what is ignored with virtual hosts
			m.Proxy.Enabled = true
			m.Serve.Methods = map[string]string{"/": "GET"}
			m.Serve.Download.Enabled = true
		}
	})
	sym.MapOrder(c == 1)
	s, refused := start()
	sym.MapOrder(false)
	sym.Assert(sym.Iff(refused, sym.Or(nested, sym.Not(p.valid()))), "accepted iff usable")
	if !refused {
		p.served(s.Vhosts["h"].Serve.ServeDir)
		sym.Assert(len(s.Vhosts) == len(s.Cfg.Core.VirtualHosts), "every virtual host is configured")
	}
}

// H_hosts: the list of virtual hosts.
func H_hosts() {
	env.Init()
	lib.Conf("/w.hcl", part{methods: []string{"GET"}, dir: "/w"}.set)
	env.Put("/bad", "syntax {")
	env.PutDir("/dir")
	files := []string{"-", "", "/w.hcl", "/gone", "/bad", "/dir"}
	on := sym.Bool("virtual hosting")
	var fs []string
	hosts := map[string]string{}
	for i := 0; i < 2; i++ {
		f := files[sym.Choose("file", len(files))]
		if f != "-" {
			hosts[[]string{"h", "g"}[i]] = f
			fs = append(fs, f)
		}
	}
	lib.Conf("/main.hcl", func(c *tuna.Config) {
		c.Core.LogOut = "stdout"
		c.Core.FileDir = "/f/"
		c.Core.VirtualHosting = on
		c.Core.VirtualHosts = hosts
		c.Serve.ServeDir = "/w"
		c.Serve.Methods = map[string]string{"/": "GET"}
	})
	ok := len(fs) > 0
	for _, f := range fs {
		ok = ok && f == "/w.hcl"
	}
	sym.MapOrder(true)
	_, refused := start()
	sym.MapOrder(false)
	sym.Assert(sym.Iff(refused, sym.And(on, !ok)), "accepted iff every virtual host has a usable configuration")
}

// H_file: the configuration file itself.
func H_file() {
	env.Init()
	switch sym.Case(4) {
	case 0:
	case 1:
		env.Put("/main.hcl", "syntax {")
	case 2:
		env.PutDir("/main.hcl")
	case 3:
		lib.Conf("/main.hcl", func(c *tuna.Config) {
			c.Core.LogOut = "stdout"
			c.Core.FileDir = "/f/"
		})
		env.DenyRead = "/main.hcl"
	}
	_, refused := start()
	sym.Assert(refused, "an unreadable configuration")
}

// H_method: methods that HTTP does not have are refused, WebDAV methods unless enabled.
func H_method() {
	env.Init()
	ms := []string{"GET", "PUT", "HEAD", "CONNECT", "TRACE", "get", "FOO", "PROPFIND", "LOCK", "UNLOCK", "MKCOL"}
	k := sym.Case(len(ms))
	dav := sym.Bool("WebDAV")
	vhost := sym.Choose("vhost", 2) == 1
	proxy := sym.Choose("proxy", 2) == 1
	set := func(c *tuna.Config) {
		if proxy {
			c.Proxy.Enabled = true
			c.Proxy.Rules = map[string]string{"h": "http://up"}
			c.Proxy.Methods = []string{"GET", ms[k]}
		} else {
			c.Serve.ServeDir = "/w"
			c.Serve.Methods = map[string]string{"/": "GET;" + ms[k], "/b": ms[k]}
		}
	}
	lib.Conf("/w.hcl", set)
	lib.Conf("/main.hcl", func(c *tuna.Config) {
		c.Core.LogOut = "stdout"
		c.Core.FileDir = "/f/"
		c.Core.WebDAV = dav
		if vhost {
			c.Core.VirtualHosting = true
			c.Core.VirtualHosts = map[string]string{"h": "/w.hcl"}
		} else {
			set(c)
		}
	})
	_, refused := start()
	sym.Assert(sym.Iff(refused, sym.Or(k >= 4 && k < 7, sym.And(k >= 7, sym.Not(dav)))), "accepted iff the methods are known")
}

func mainConf(set func(c *tuna.Config)) {
	lib.Conf("/main.hcl", func(c *tuna.Config) {
		c.Core.LogOut = "stdout"
		c.Core.FileDir = "/f/"
		part{methods: []string{"GET"}, dir: "/w"}.set(c)
		set(c)
	})
}

// H_known: well-known values of single settings.
func H_known() {
	env.Init()
	k := sym.Case(4)
	if k == 0 {
		ports := []string{"443", "8443", "80", "0443", "443 ", " 443", "https", "4433", "65535", "-1", ""}
		port := ports[sym.Choose("port", len(ports))]
		if port == "" {
			port = lib.WordText("4343")
		}
		auto := sym.Bool("autocert")
		files := sym.Bool("files")
		mainConf(func(c *tuna.Config) {
			c.Core.Port = port
			c.Core.TLS.Enabled = true
			c.Core.TLS.AutoCert.Enabled = auto
			c.Core.TLS.AutoCert.Certificates = []string{"example.com", "www.example.com"}
			if files {
				c.Core.TLS.TLSCert, c.Core.TLS.TLSKey = "/etc/ssl/cert.pem", "/etc/ssl/key.pem"
			}
		})
		_, refused := start()
		sym.Assert(sym.Iff(refused, sym.Not(sym.Or(sym.And(auto, port == "443"), sym.And(sym.Not(auto), files)))), "accepted iff TLS has certificates")
		return
	}
	if k == 1 {
		names := []string{"", "/etc/ssl/cert.pem", "key.pem", "server.crt", "auto", "none", "-", "selfsigned", "a.p12", "/"}
		a, b := sym.Choose("certificate", len(names)+1), sym.Choose("key", len(names)+1)
		sym.Assume(a < 2 || b < 2)
		names = append(names, lib.WordText("/c"))
		mainConf(func(c *tuna.Config) {
			c.Core.TLS.Enabled = true
			c.Core.TLS.TLSCert, c.Core.TLS.TLSKey = names[a], names[b]
			c.Core.TLS.HSTS.MaxAge = []int{0, -1, 1}[sym.Choose("HSTS", 3)]
			c.Core.Address = []string{"", "127.0.0.1", "localhost", "::1"}[sym.Choose("address", 4)]
		})
		_, refused := start()
		sym.Assert(sym.Iff(refused, sym.Or(a == 0, b == 0)), "accepted iff TLS has a certificate and a key")
		return
	}
	if k == 2 {
		dirs := []string{"/usr/lib/magurohttp", "//", "/./", "/..", " ", " /", "/ ", ".", "./", "/etc", "/etc/", "C:\\", "relative", "/f//", "~", "", "/"}
		d := sym.Choose("directory", len(dirs)+1)
		dirs = append(dirs, lib.WordPath("/files"))
		mainConf(func(c *tuna.Config) { c.Core.FileDir = dirs[d] })
		s, refused := start()
		sym.Assert(refused == (dirs[d] == "" || dirs[d] == "/"), "accepted iff there is a file directory")
		if !refused {
			dirOK(s.Cfg.Core.FileDir, dirs[d])
		}
		return
	}
	outs := []string{"", "stdout", "stderr", "/log", "/gone/log", "/gone/", "/dir", "syslog", "none", "-", "null", "discard"}
	o := sym.Choose("output", len(outs)+1)
	outs = append(outs, "/"+lib.WordName("log"))
	env.PutDir("/dir")
	level := []int{-1 << 63, -2, -1, 0, 1, 2, 3, 4, 10, 99, 255, 1 << 32, 1<<63 - 1}[sym.Choose("level", 13)]
	level = sym.Size("log level", level, 1<<62)
	mainConf(func(c *tuna.Config) { c.Core.LogOut, c.Core.LogLevel = outs[o], level })
	_, refused := start()
	switch outs[o] {
	case "/gone/log", "/gone/", "/dir", "":
		sym.Assert(refused, "a log file that cannot be made")
	default:
		sym.Assert(refused == (level < 0 || level > 3), "accepted iff the level is defined")
	}
}

// H_many: one unusable virtual host among many.
func H_many() {
	env.Init()
	n := sym.Size("hosts", []int{1, 2, 3, 5, 12}[sym.Case(5)], 120)
	good := part{methods: []string{"GET"}, dir: "/w"}
	lib.Conf("/w.hcl", good.set)
	env.Put("/bad", "syntax {")
	lib.Conf("/proxy.hcl", func(c *tuna.Config) { c.Proxy.Enabled = true })
	lib.Conf("/dir.hcl", func(c *tuna.Config) { c.Serve.Methods = map[string]string{"/": "GET"} })
	lib.Conf("/dl.hcl", func(c *tuna.Config) {
		c.Serve.ServeDir = "/w"
		c.Serve.Download.Enabled = true
	})
	lib.Conf("/nest.hcl", func(c *tuna.Config) {
		good.set(c)
		c.Core.VirtualHosting = true
	})
	lib.Conf("/trace.hcl", func(c *tuna.Config) {
		good.set(c)
		c.Serve.Methods = map[string]string{"/": "GET", "/a": "TRACE"}
	})
	files := []string{"", "/gone", "/bad", "/proxy.hcl", "/dir.hcl", "/dl.hcl", "/nest.hcl", "/trace.hcl", "/w.hcl"}
	f := files[sym.Choose("file", len(files))]
	known := []string{"localhost", "*", "_", "default", "DEFAULT", "127.0.0.1", "example.com", "www.example.com", "h:80", ""}
	name := known[sym.Choose("name", len(known))]
	if name == "" {
		name = lib.WordHost("m")
	}
	hosts := map[string]string{}
	for i := 0; i < n-1; i++ {
		hosts[string([]byte{"abcxyz"[i%6], byte('a' + i/6)})] = "/w.hcl"
	}
	hosts[name] = f
	sym.Assume(len(hosts) == n)
	mainConf(func(c *tuna.Config) {
		c.Core.VirtualHosting = true
		c.Core.VirtualHosts = hosts
	})
	if n <= 3 {
		sym.MapOrder(true)
	}
	s, refused := start()
	sym.MapOrder(false)
	sym.Assert(refused == (f != "/w.hcl"), "accepted iff every virtual host has a usable configuration")
	if !refused {
		sym.Assert(len(s.Vhosts) == n && s.Vhosts[name].Serve.ServeDir == "/w", "every virtual host is configured")
	}
}

// H_lists: longer lists of names, rules and methods, and other directories.
func H_lists() {
	env.Init()
	n := sym.Size("entries", []int{1, 2, 9, 40}[sym.Case(4)], 200)
	dirs := []string{"", "/w", "/w/", "/", ".", "relative", "/a b", " "}
	d := sym.Choose("directory", len(dirs)+1)
	dirs = append(dirs, lib.WordPath("/x"))
	indexes := []string{"", "index.html", "/", "/i", "."}
	x := sym.Choose("index", len(indexes)+1)
	indexes = append(indexes, lib.WordPath("/y"))
	mode := sym.Choose("mode", 4)
	vhost := sym.Choose("vhost", 2) == 1
	set := func(c *tuna.Config) {
		c.Serve.ServeDir, c.Serve.ServeIndex = dirs[d], indexes[x]
		c.Proxy.Methods = []string{"GET"}
		if mode&1 == 0 {
			c.Serve.Methods = map[string]string{}
			for i := 0; i < n; i++ {
				c.Serve.Methods["/"+lib.Repeat(i)] = "GET;POST"
			}
		}
		c.Serve.Download.Enabled = mode == 1
		c.Proxy.Enabled = mode == 2
		if mode >= 2 {
			c.Proxy.Rules = map[string]string{}
			for i := 0; i < n; i++ {
				c.Proxy.Rules["h"+lib.Repeat(i)] = "http://u"
			}
		}
	}
	lib.Conf("/v.hcl", set)
	lib.Conf("/main.hcl", func(c *tuna.Config) {
		c.Core.LogOut = "stdout"
		c.Core.FileDir = "/f/"
		if vhost {
			c.Core.VirtualHosting = true
			c.Core.VirtualHosts = map[string]string{"h": "/v.hcl"}
		} else {
			set(c)
		}
	})
	s, refused := start()
	bad := mode == 0 && d == 0 || mode == 1 && (d == 0 || x == 0)
	sym.Assert(refused == bad, "accepted iff usable")
	if !refused {
		got := s.Cfg.Serve.ServeDir
		if vhost {
			got = s.Vhosts["h"].Serve.ServeDir
		}
		sym.Assert(got == dirs[d] || got == dirs[d]+"/", "the configured directory")
		sym.Assert(mode != 1 || got[len(got)-1] == '/', "names are appended to a directory")
	}
}
