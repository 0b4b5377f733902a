// Package c26 decides property C26: content types.
package c26

import (
	"strings"

	"github.com/redmaner/MaguroHTTP/tuna"
	"github.com/redmaner/MaguroHTTP/verif/env"
	"github.com/redmaner/MaguroHTTP/verif/lib"
	"github.com/redmaner/MaguroHTTP/verif/sym"
)

var active = []string{"text/html", "text/javascript", "application/xhtml-xml", "image/svg+xml", "application/xml"}
var activeExt = []string{".html", ".htm", ".js", ".xhtml", ".svg", ".xml"}

// ask serves the file with the given name and checks its declared type.
func ask(name string, conf map[string]string) {
	env.Put("/w"+name, "data")
	dl := sym.Choose("download", 2) == 1
	vh := sym.Choose("vhost", 2) == 1
	set := func(c *tuna.Config) {
		c.Serve.ServeDir = "/w"
		c.Serve.ServeIndex = "zzzzzzz"
		c.Serve.MIMETypes.ResponseTypes = conf
		if dl {
			c.Serve.Download.Enabled = true
		} else {
			c.Serve.Methods = map[string]string{"/": "GET"}
		}
	}
	lib.Conf("/v.hcl", set)
	s := lib.Server(func(c *tuna.Config) {
		if vh {
			c.Core.VirtualHosting = true
			c.Core.VirtualHosts = map[string]string{"h": "/v.hcl"}
		} else {
			set(c)
		}
	})
	rec := lib.Do(s, env.Req("GET", "h", name))
	sym.Observe("code", rec.Code)
	sym.Observe("type", rec.Get("Content-Type"))
	sym.Assert(rec.Code == 200 && rec.Body == "data", "the file is sent")
	got := rec.Get("Content-Type")
	sym.Assert(len(rec.Sent["Content-Type"]) == 1, "one content type")
	sym.Assert(got == lib.MIME(name, conf), "type by extension, else configured for exactly that path, else octet-stream")
	for _, a := range active {
		if got != a {
			continue
		}
		ok := false
		for _, e := range activeExt {
			ok = ok || lib.Suffix(name, e)
		}
		for k, v := range conf {
			ok = ok || (k == name && v == a)
		}
		sym.Cover("active")
		sym.Assert(ok, "only names with an active extension are declared active")
	}
	if got == "application/octet-stream" {
		sym.Cover("octet-stream")
	}
}

// legal restricts p to the canonical name of a file below the serve directory.
func legal(p string) {
	for i := 0; i < len(p); i++ {
		sym.Assume(sym.Not(sym.In(p[i], "\\\x00")))
	}
	sym.Assume(p == lib.Resolve(p) && p[len(p)-1] != '/')
}

// H_name: every short name.
func H_name() {
	env.Init()
	n := 4
	if sym.Thorough() {
		n = 7
	}
	p := "/" + sym.String("name", 1+sym.Case(n))
	legal(p)
	ask(p, map[string]string{"/a": "t/a", "/b.c": "t/bc", "b": "t/b", ".q": "t/q"})
}

// H_ext: every short extension.
func H_ext() {
	env.Init()
	n := 6
	if sym.Thorough() {
		n = 8
	}
	e := sym.String("ext", sym.Case(n))
	for i := 0; i < len(e); i++ {
		sym.Assume(e[i] != '/') // H_name has names with slashes
	}
	p := []string{"/x", "/a.html/b", "/.js"}[sym.Choose("stem", 3)] + "." + e
	legal(p)
	sym.Assume(!strings.Contains(p, "index.html"))
	ask(p, nil)
}

// H_conf: every configured path of the same length, with any type.
func H_conf() {
	env.Init()
	n := 3
	if sym.Thorough() {
		n = 5
	}
	n = 1 + sym.Case(n)
	p := "/" + sym.String("name", n)
	legal(p)
	key := "/" + sym.String("configured", n)
	conf := map[string]string{key: "t/" + sym.String("type", 1), "/" + sym.String("other", n+1): "text/html", "*": "text/html", "": "text/html", "/": "text/html"}
	ask(p, conf)
}

// H_known: the table of known extensions, and names close to them.
func H_known() {
	env.Init()
	ks := lib.Known()
	e := ks[sym.Case(len(ks))]
	p := []string{"/a" + e, "/a" + e + ".", "/a" + e + "x", "/a" + e[:len(e)-1], "/" + e, "/a" + e + e, "/d" + e + "/a", "/a" + strings.ToUpper(e), "/a" + e[1:]}[sym.Choose("shape", 9)]
	legal(p)
	sym.Assume(!lib.Suffix(p, "/index.html"))
	ask(p, map[string]string{"/a" + e: "t/x"})
}

// H_names: long names, well-known names and directories, and configured types that must not apply.
func H_names() {
	env.Init()
	exts := []string{"", ".", ".q", ".html", ".wasm", ".webp", ".mp4", ".md", ".php", ".abcdefgh", ".HTML", ".html~", ".tar.gz", ".js.map", ".svgz", ".mjs", ".woff2", ".ico", ".htm.bak"}
	c := sym.Case(len(exts))
	e := exts[c]
	stems := []string{"/a", "/api/a", "/static/js/a", "/.well-known/a", "/a.b/c", "/a b", "/favicon", "/%41", "/~u/a", "/README", "/é", "/-", "/html", "/text/html"}
	vary := sym.Choose("vary", 4)
	n := 2
	if vary == 0 {
		n = len(stems)
	}
	p := stems[sym.Choose("stem", n)]
	switch vary {
	case 0:
	case 1:
		p = "/" + lib.Repeat(sym.Size("length", []int{10, 60, 130, 250}[sym.Choose("size", 4)], 1<<12)) + p
	case 2:
		p += lib.Repeat(sym.Size("length", []int{10, 60, 130, 250}[sym.Choose("size", 4)], 1<<12))
	case 3:
		p = lib.WordPath(p)
		if w := sym.Word("extension", ""); w != "" {
			e = w
			if e[0] != '.' {
				e = "." + e
			}
		}
	}
	p += e
	legal(p)
	sym.Assume(!lib.Suffix(p, "/index.html"))
	base := p[strings.LastIndexByte(p, '/')+1:]
	conf := map[string]string{"/": "text/html", "": "text/html", "*": "text/html", "/*": "text/html", p[1:]: "text/html", base: "text/html", e: "text/html", "*" + e: "text/html", "/*" + e: "text/html", p + "/": "text/html", "." + p: "text/html", "/w" + p: "text/html", "h" + p: "text/html", strings.TrimPrefix(e, "."): "text/html", strings.ToUpper(p): "text/html"}
	n = 2
	if vary == 0 && c%4 == 0 {
		n = 4
	}
	switch sym.Choose("configured", n) {
	case 0:
		delete(conf, p)
	case 1:
		conf[p] = "t/p"
	case 2:
		conf[p] = ""
	case 3:
		conf[p] = "text/plain; charset=utf-8"
	}
	ask(p, conf)
}
