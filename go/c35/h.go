// Package c35 decides property C35: every request is answered as if it were the only one.
package c35

import (
	"net/http"
	"strconv"
	"strings"

	"github.com/redmaner/MaguroHTTP/tuna"
	"github.com/redmaner/MaguroHTTP/verif/env"
	"github.com/redmaner/MaguroHTTP/verif/lib"
	"github.com/redmaner/MaguroHTTP/verif/sym"
)

const modes = 8

// set is a configuration: files, downloads, proxy or exact paths.
func set(mode int) func(c *tuna.Config) {
	return func(c *tuna.Config) {
		c.Guard.RateBurst = 1 << 30
		c.Guard.Firewall.Enabled = true
		c.Guard.Firewall.Blacklisting = true
		c.Guard.Firewall.Subpath = true
		c.Guard.Firewall.Rules = map[string][]string{"/no": {"*"}}
		c.Errors = map[string]string{"404": "/e/404.html"}
		c.Serve.Headers = map[string]string{"X-Own": "1"}
		switch mode {
		case 0:
			c.Serve.ServeDir = "/w"
			c.Serve.ServeIndex = "i.html"
			c.Serve.Methods = map[string]string{"/": "GET;HEAD", "/d/": "GET;POST"}
			c.Serve.MIMETypes.RequestTypes = map[string]string{"/d/": "t/a;"}
			c.Serve.MIMETypes.ResponseTypes = map[string]string{"/b": "t/b"}
		case 1:
			c.Serve.ServeDir = "/w"
			c.Serve.ServeIndex = "/i"
			c.Serve.Download.Enabled = true
			c.Serve.Download.Exts = []string{".txt", ".html"}
		case 2:
			c.Proxy.Enabled = true
			c.Proxy.Rules = map[string]string{"h": "http://up", "g": "http://other"}
			c.Proxy.Methods = []string{"GET", "POST"}
			c.Proxy.Headers = map[string]string{"X-Own": "1"}
		case 3:
			c.Serve.ServeDir = "/w"
			c.Serve.Methods = map[string]string{"/a.txt": "GET", "/d": "GET", "/no/": "GET"}
		}
	}
}

// server starts a server; from mode 4 on, with virtual hosts.
func server(mode int) *tuna.Server {
	if mode < 4 {
		return lib.Server(set(mode))
	}
	lib.Conf("/h.hcl", set(mode-4))
	lib.Conf("/g.hcl", func(c *tuna.Config) {
		set(0)(c)
		c.Serve.ServeDir = "/w/d"
		c.Serve.Headers = map[string]string{"X-Other": "1"}
		c.Serve.MIMETypes.ResponseTypes = nil
		c.Errors = map[string]string{"404": "/e/g.html"}
	})
	if mode == 6 {
		lib.Conf("/h.hcl", func(c *tuna.Config) {
			set(2)(c)
			c.Proxy.Rules = map[string]string{"h": "http://up"}
		})
	}
	return lib.Server(func(c *tuna.Config) {
		c.Core.VirtualHosting = true
		c.Core.VirtualHosts = map[string]string{"h": "/h.hcl", "g": "/g.hcl"}
	})
}

func tree() {
	env.Put("/w/a.txt", "data a")
	env.Put("/w/b", "data b")
	env.Put("/w/i.html", "<p>index")
	env.Put("/w/d/b.html", "<p>data b")
	env.Put("/w/d/i.html", "<p>data i")
	env.Put("/w/d/b", "data b of d")
	env.Put("/w/no/a", "no")
	env.Put("/e/404.html", "not here")
	env.Put("/e/g.html", "not at g")
}

var all = []lib.Request{
	{"GET", "h", "/a.txt", ""}, {"GET", "h", "/", ""}, {"GET", "h", "/zz", ""}, {"POST", "h", "/a.txt", "t/a"}, {"GET", "h", "/b", "t/a"},
	{"HEAD", "h", "/a.txt", ""}, {"GET", "h", "/d/b.html", ""}, {"POST", "h", "/d/", "t/a"}, {"GET", "h", "/b", ""}, {"GET", "h", "/d", ""},
	{"GET", "g", "/", ""}, {"GET", "g", "/zz", ""}, {"GET", "h", "/no/a", ""}, {"GET", "h", "/i", ""}, {"GET", "h:8", "/a.txt", ""}, {"GET", "x", "/a.txt", ""},
	{"GET", "g", "/b", ""},
}

// plain compares an answer with what the files and the upstream say, without another server: state
// that outlives a server cannot hide there.
func plain(mode int, q lib.Request, a lib.Answer) {
	host := q.Host
	if host == "h:8" {
		host = "h"
	}
	m, dir, page, p := mode%4, "/w", "/e/404.html", q.Path
	switch {
	case host == "g" && mode >= 4:
		m, dir, page = 0, "/w/d", "/e/g.html"
	case mode >= 4 && host != "h" || m == 2 && host != "h" && host != "g":
		return // no such host
	}
	code, body := a.Rec.Code, a.Rec.Body
	if m == 2 {
		if code != 405 && code != 403 {
			sym.Assert(strings.HasPrefix(body, "up http://") && strings.HasSuffix(body, p), "the upstream's answer to this request")
		}
		return
	}
	if p == "/b" && code == 200 {
		want := "application/octet-stream"
		if m == 0 && dir == "/w" {
			want = "t/b"
		}
		sym.Assert(a.Rec.Header().Get("Content-Type") == want, "the configured type of this host's file")
	}
	if m != 1 && p[len(p)-1] == '/' {
		if m == 3 {
			return
		}
		p += "i.html"
	}
	if data, ok := env.Data(dir + p); ok && code == 200 {
		sym.Assert(q.Method == "HEAD" || body == data, "the content of the file")
	} else if code == 200 {
		sym.Assert(m == 1 && (p == "/i" || p[len(p)-1] == '/'), "a file that is not there")
	}
	if code == 404 {
		_, there := env.Data(dir + p)
		sym.Assert(m == 3 || !there, "a file that is there")
		// errors before a route is found are the main configuration's; modes 3 and 7 have exact paths only
		if data, ok := env.Data(page); ok && m != 3 {
			sym.Assert(body == data, "the error page of this host")
		}
	}
}

func pick(name string) lib.Request { return all[sym.Choose(name, len(all))] }

// H_after: one request after another.
func H_after() {
	env.Init()
	tree()
	mode := sym.Case(modes)
	p, q := pick("first"), pick("second")
	a := lib.Ask(server(mode), q)
	s := server(mode)
	plain(mode, p, lib.Ask(s, p))
	b := lib.Ask(s, q)
	plain(mode, q, b)
	lib.Same(a, b)
}

// H_path: after any request.
func H_path() {
	env.Init()
	tree()
	mode := sym.Case(modes)
	n := 3
	if sym.Thorough() {
		n = 5
	}
	p := lib.Request{[]string{"GET", "POST"}[sym.Choose("method", 2)], "h", "/" + sym.String("path", sym.Choose("length", n)), ""}
	sym.Assume(!strings.Contains(p.Path, "\\") && !strings.Contains(p.Path, "\x00"))
	q := all[[]int{0, 1, 2, 6}[sym.Choose("second", 4)]]
	a := lib.Ask(server(mode), q)
	s := server(mode)
	lib.Ask(s, p)
	lib.Same(a, lib.Ask(s, q))
}

// H_client: another client, with other header fields.
func H_client() {
	env.Init()
	tree()
	mode := sym.Case(modes)
	q := all[[]int{0, 1, 2, 12}[sym.Choose("second", 4)]]
	a := lib.Ask(server(mode), q)
	s := server(mode)
	s.Transport = echo{}
	r := all[sym.Choose("first", 3)].Make()
	if sym.Choose("vary", 2) == 0 {
		addr, _ := lib.AnyClient()
		r.RemoteAddr = addr
	} else {
		k := []string{"User-Agent", "Cookie", "Authorization", "X-Forwarded-For", "Accept-Encoding", "Range", "If-None-Match", "Connection", "Referer", lib.WordHeader("X-Y")}[sym.Choose("field", 10)]
		v := []string{"", "x", "bytes=0-1", "no-cache", "close"}[sym.Choose("value", 5)]
		r.Header[k] = []string{v, v}
	}
	lib.Do(s, r)
	lib.Same(a, lib.Ask(s, q))
}

// H_many: after many requests.
func H_many() {
	env.Init()
	tree()
	c := sym.Case(modes * 2)
	mode := c % modes
	n := sym.Size("requests", []int{3, 40}[c/modes], 300)
	kind := sym.Choose("kind", 4)
	q := all[[]int{0, 1, 2, 6}[sym.Choose("last", 4)]]
	a := lib.Ask(server(mode), q)
	s := server(mode)
	for i := 0; i < n; i++ {
		p := q
		switch kind {
		case 1:
			p.Path = "/p" + strconv.Itoa(i)
		case 2:
			p = all[i%len(all)]
		case 3:
			p.Path = "/d/b.html"
			p.Host = "n" + strconv.Itoa(i)
		}
		lib.Ask(s, p)
	}
	lib.Same(a, lib.Ask(s, q))
}

// H_broken: after a request that breaks off.
func H_broken() {
	env.Init()
	tree()
	mode := sym.Case(modes)
	p := all[[]int{0, 1, 2, 7, 8}[sym.Choose("first", 5)]]
	q := all[[]int{0, 1, 2, 6}[sym.Choose("second", 4)]]
	a := lib.Ask(server(mode), q)
	s := server(mode)
	u := &lib.Upstream{}
	s.Transport = u
	r, rec := p.Make(), env.NewRec()
	switch sym.Choose("fault", 4) {
	case 0:
		rec.FailAt = 1 + sym.Choose("write", 3)
	case 1:
		b := env.NewBody("body")
		b.FailAt = sym.Choose("after", 3)
		r.Body = b
	case 2:
		u.Fail = true
	case 3:
		env.ReadFaultAt = env.Reads + sym.IntRange("at", 1, 8)
	}
	s.Router.ServeHTTP(rec, r)
	rec.Done()
	env.ReadFaultAt = 0
	b := lib.Ask(s, q)
	plain(mode, q, b)
	lib.Same(a, b)
}

// H_files: after the files changed.
func H_files() {
	env.Init()
	tree()
	mode := sym.Case(modes)
	q := pick("second")
	p := q
	if sym.Choose("first", 2) == 1 {
		p = all[[]int{0, 1, 2, 13}[sym.Choose("other", 4)]]
	}
	s := server(mode)
	lib.Ask(s, p)
	switch sym.Choose("change", 5) {
	case 0:
		env.Put("/w/a.txt", "new content")
		env.Put("/w/i.html", "<p>new")
		env.Put("/w/d/b.html", "<p>new b")
	case 1:
		env.Del("/w/a.txt")
		env.Del("/w/i.html")
		env.Del("/w/d/b.html")
	case 2:
		env.Put("/w/zz", "appeared")
		env.Put("/w/new.txt", "appeared")
	case 3:
		env.Put("/e/404.html", "another page")
	case 4:
		env.Del("/e/404.html")
	}
	b := lib.Ask(s, q)
	plain(mode, q, b)
	lib.Same(lib.Ask(server(mode), q), b)
}

// echo is an upstream that can be used concurrently.
type echo struct{}

func (echo) RoundTrip(r *http.Request) (*http.Response, error) {
	return &http.Response{StatusCode: lib.Upcode(r), Header: lib.Uphead(r), Body: env.NewBody(lib.Upbody(r)), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1}, nil
}

// H_conc: two requests at once.
func H_conc() {
	env.Init()
	tree()
	mode := sym.Case(modes)
	sel := []int{0, 1, 2, 6, 10, 12}
	i := sym.Choose("first", len(sel))
	j := sym.Choose("second", len(sel))
	sym.Assume(i <= j)
	qs := []lib.Request{all[sel[i]], all[sel[j]]}
	var want [2]*env.Rec
	f := server(mode)
	f.Transport = echo{}
	for k := range qs {
		want[k] = lib.Do(f, qs[k].Make())
	}
	s := server(mode)
	s.Transport = echo{}
	var got [2]*env.Rec
	for k := range qs {
		k := k
		got[k] = env.NewRec()
		sym.Go(func() {
			s.Router.ServeHTTP(got[k], qs[k].Make())
			got[k].Done()
		})
	}
	sym.Wait()
	for k := range qs {
		plain(mode, qs[k], lib.Answer{Rec: got[k]})
		lib.Same(lib.Answer{Rec: want[k]}, lib.Answer{Rec: got[k]})
	}
}
