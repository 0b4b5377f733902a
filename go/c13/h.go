// Package c13 decides property C13: containment in the serve directory.
package c13

import (
	"strings"

	"github.com/redmaner/MaguroHTTP/tuna"
	"github.com/redmaner/MaguroHTTP/verif/env"
	"github.com/redmaner/MaguroHTTP/verif/lib"
	"github.com/redmaner/MaguroHTTP/verif/sym"
)

// inside states that every name the server used lies in root, by lexical resolution.
func inside(root string, allowed ...string) {
	for _, a := range env.Accesses {
		n := lib.Resolve(a.Name)
		ok := lib.Prefix(n, root+"/") || n == root
		for _, x := range allowed {
			ok = ok || n == x
		}
		sym.Assert(ok, "only names inside the serve directory are used")
	}
}

func tree(root string) {
	env.Put(root+"/a", "in")
	env.Put(root+"/i", "in")
	env.Put(root+"/d/i", "in")
	env.Put(root+"/d/a", "in")
	env.Put("/a", "SECRET")
	env.Put("/i", "SECRET")
	env.Put("/v/a", "SECRET")
	env.Put("/v/i", "SECRET")
	env.Put(root+"2/a", "SECRET")
	env.Put(root+"a", "SECRET")
	env.Put("/e404", "error page")
}

func ask(s *tuna.Server, root, host, p string) {
	env.Accesses = nil
	m := []string{"GET", "HEAD"}[sym.Choose("method", 2)]
	rec := lib.Do(s, env.Req(m, host, p))
	inside(root, "/e404")
	sym.Assert(!strings.Contains(rec.Body, "SECRET"), "nothing outside the serve directory is sent")
	if rec.Code == 200 {
		sym.Cover("served")
	} else {
		sym.Cover("refused")
	}
	sym.Observe("code", rec.Code)
	sym.Observe("body", lib.Main(rec.Body))
}

func content(c *tuna.Config, dir string, mode int) {
	c.Serve.ServeDir = dir
	c.Serve.ServeIndex = "i"
	c.Errors = map[string]string{"404": "/e404"}
	switch mode {
	case 0:
		c.Serve.Methods = map[string]string{"/": "GET;HEAD"}
	case 1:
		c.Serve.Methods = map[string]string{"/d": "GET", "/a": "HEAD", "/d/": "GET"}
	case 2:
		c.Serve.Download.Enabled = true
		c.Serve.Download.Exts = []string{".x", ""}
	}
}

// H_path: every short request path in every mode.
func H_path() {
	env.Init()
	dirs := []string{"/v/w/", "/v/w", "/w", "/v/./w"}
	dir := dirs[sym.Choose("dir", len(dirs))]
	root := strings.TrimSuffix(lib.Resolve(dir), "/")
	tree(root)
	mode := sym.Choose("mode", 3)
	s := lib.Server(func(c *tuna.Config) { content(c, dir, mode) })
	n := 5
	if sym.Thorough() {
		n = 7
	}
	ask(s, root, "h", sym.String("path", sym.Case(n)))
}

// H_dots: paths made of dot segments and names.
func H_dots() {
	env.Init()
	dir := []string{"/v/w/", "/v/w"}[sym.Choose("dir", 2)]
	tree("/v/w")
	mode := sym.Choose("mode", 3)
	s := lib.Server(func(c *tuna.Config) { content(c, dir, mode) })
	segs := []string{"..", "a", ".", "d", "", "w2", "...", "..\\"}
	p := ""
	n := 3
	if sym.Thorough() {
		n = 4
	}
	if sym.Case(2) == 1 {
		p = "/"
	}
	for i := 0; i < n; i++ {
		if i > 0 {
			p += "/"
		}
		p += segs[sym.Choose("segment", len(segs))]
	}
	ask(s, "/v/w", "h", p)
}

// H_vhost: two virtual hosts with different directories.
func H_vhost() {
	env.Init()
	tree("/v/w")
	tree("/v/w2")
	modeA, modeB := sym.Choose("mode a", 3), sym.Choose("mode b", 3)
	lib.Conf("/a.hcl", func(c *tuna.Config) { content(c, "/v/w", modeA) })
	lib.Conf("/b.hcl", func(c *tuna.Config) { content(c, "/v/w2", modeB) })
	s := lib.Server(func(c *tuna.Config) {
		c.Core.VirtualHosting = true
		c.Core.VirtualHosts = map[string]string{"a": "/a.hcl", "b": "/b.hcl"}
	})
	h := sym.Choose("host", 2)
	host := []string{"a", "b:8"}[h]
	root := []string{"/v/w", "/v/w2"}[h]
	n := 4
	if sym.Thorough() {
		n = 6
	}
	ask(s, root, host, "/"+sym.String("path", sym.Case(n)))
}

// H_raw: paths whose encoded form differs, and paths that hold escapes themselves.
func H_raw() {
	env.Init()
	tree("/v/w")
	mode := sym.Choose("mode", 3)
	s := lib.Server(func(c *tuna.Config) { content(c, "/v/w/", mode) })
	segs := []string{"..", "a", "%2e%2e", "..%2f", "%2fa", "..%5c", "%252e%252e", "..%00", "i"}
	p := "/"
	raw := "/"
	n := 3
	if sym.Thorough() {
		n = 4
	}
	c := sym.Case(len(segs))
	for i := 0; i < n; i++ {
		if i > 0 {
			p += "/"
			raw += []string{"/", "%2f", "%2F"}[sym.Choose("raw separator", 3)]
		}
		g := segs[c]
		if i > 0 {
			g = segs[sym.Choose("segment", len(segs))]
		}
		p += g
		raw += strings.Replace(strings.Replace(g, "%", "%25", -1), ".", "%2e", -1)
	}
	env.Accesses = nil
	rq := env.Req("GET", "h", p)
	rq.URL.RawPath = raw
	rq.RequestURI = raw
	rec := lib.Do(s, rq)
	inside("/v/w", "/e404")
	sym.Assert(!strings.Contains(rec.Body, "SECRET"), "nothing outside the serve directory is sent")
	sym.Cover("end")
}

// H_deep: deep and long paths.
func H_deep() {
	env.Init()
	tree("/v/w")
	mode := sym.Choose("mode", 3)
	s := lib.Server(func(c *tuna.Config) { content(c, "/v/w/", mode) })
	n := sym.Size("segments", []int{6, 20, 70}[sym.Case(3)], 300)
	p := ""
	for i := 0; i < n; i++ {
		p += []string{"/d", "/./s", "//t"}[i%3]
	}
	ups := n + []int{-1, 0, 1, 2, 5}[sym.Choose("ups", 5)]
	for i := 0; i < ups; i++ {
		p += "/.."
	}
	p += []string{"/a", "/w2/a", "/i", "/../a"}[sym.Choose("end", 4)]
	ask(s, "/v/w", "h", p)
}

// H_names: paths, hosts and methods a changed tree newly mentions.
func H_names() {
	env.Init()
	tree("/v/w")
	mode := sym.Choose("mode", 3)
	vhost := sym.Choose("vhost", 2) == 1
	host := lib.WordHost("h")
	lib.Conf("/v.hcl", func(c *tuna.Config) { content(c, "/v/w/", mode) })
	s := lib.Server(func(c *tuna.Config) {
		if vhost {
			c.Core.VirtualHosting = true
			c.Core.VirtualHosts = map[string]string{host: "/v.hcl"}
			c.Serve.ServeDir = "/v"
			c.Errors = map[string]string{"404": "/e404"}
		} else {
			content(c, "/v/w/", mode)
		}
	})
	p := lib.WordPath("/a")
	if w := sym.Choose("form", 4); w > 0 {
		p = []string{"", "/../a" + p, p + "/../../a", "/d" + p}[w]
	}
	env.Put("/v/w"+lib.Resolve(p), "in")
	env.Accesses = nil
	rec := lib.Do(s, env.Req(lib.WordMethod("GET"), host, p))
	inside("/v/w", "/e404")
	sym.Assert(!strings.Contains(rec.Body, "SECRET"), "nothing outside the serve directory is sent")
	sym.Observe("code", rec.Code)
}
