// Package c17 decides property C17: error answers.
package c17

import (
	"net/http"
	"strconv"
	"strings"

	"github.com/redmaner/MaguroHTTP/tuna"
	"github.com/redmaner/MaguroHTTP/verif/env"
	"github.com/redmaner/MaguroHTTP/verif/lib"
	"github.com/redmaner/MaguroHTTP/verif/sym"
)

// page states of a custom error page
const (
	none      = iota // not configured
	exists           // configured and there
	missing          // configured but not there
	directory        // configured but a directory
	otherCode        // another code has a page
	pages
)

func put(base string, data string) {
	env.Put(base+"page.html", data)
	env.Put(base+"page.q", data)
	env.PutDir(base + "dir")
}

func configure(c *tuna.Config, base string, code, state int, ext string) {
	k := strconv.Itoa(code)
	switch state {
	case exists:
		c.Errors = map[string]string{k: base + "page" + ext}
	case missing:
		c.Errors = map[string]string{k: base + "gone.html"}
	case directory:
		c.Errors = map[string]string{k: base + "dir"}
	case otherCode:
		c.Errors = map[string]string{"4" + k: base + "page.html", "499": base + "page.html", k[:2]: base + "page.html", "": base + "page.html"}
	}
}

func check(rec *env.Rec, code, state int, data, ext string) {
	sym.Observe("code", rec.Code)
	sym.Observe("body", lib.Main(rec.Body))
	sym.Assert(rec.Code == code, "the client receives the status code of the error")
	sym.Assert(rec.NHeader <= 1, "the status is sent once")
	if state == exists {
		sym.Cover("custom")
		sym.Assert(rec.Body == data, "the custom page is the body")
		sym.Assert(rec.Get("Content-Type") == lib.MIME("/e/page"+ext, nil), "type of the custom page")
		return
	}
	sym.Cover("built-in")
	b := lib.Main(rec.Body)
	sym.Assert(b != rec.Body, "the built-in page is the body")
	k := strconv.Itoa(code)
	sym.Assert(strings.Contains(b, k), "the built-in page names the code")
	for _, o := range []string{"400", "401", "403", "404", "405", "406", "418", "429", "500", "502", "503"} {
		sym.Assert(o == k || !strings.Contains(b, o), "the built-in page names no other code")
	}
	sym.Assert(strings.Count(rec.Body, "<!doctype") == 1, "one page is sent")
	sym.Assert(lib.Prefix(rec.Get("Content-Type"), "text/html"), "the built-in page is HTML")
}

type source struct {
	mode, method, path string
	code               int
}

var all = []source{
	{"static", "GET", "/zz", 404},
	{"static", "HEAD", "/a/", 404},
	{"static", "POST", "/f", 405},
	{"static", "CT", "/f", 406},
	{"exact", "GET", "/zz", 404},
	{"static403", "GET", "/f", 403},
	{"static429", "GET", "/f", 429},
	{"download", "GET", "/zz", 404},
	{"downloaderr", "GET", "/", 500},
	{"download403", "GET", "/", 403},
	{"download429", "GET", "/f", 429},
	{"proxy403", "POST", "/f", 403},
	{"proxy429", "GET", "/f", 429},
	{"proxy", "PUT", "/f", 405},
	{"proxyfail", "GET", "/f", 502},
	{"proxybody", "POST", "/f", 502},
	{"proxyurl", "GET", "/f", 502},
	{"proxyuri", "GET", "*", 502},
	{"metrics", "GET", "/metrics", 401},
}

// run raises the error of src on a server whose main and virtual host configurations have custom
// pages in the given states.
func run(src source, vhost bool, main, own int, ext, data string) {
	put("/e/", data)
	put("/m/", "MAIN")
	env.Put("/w/f", "data")
	set := func(c *tuna.Config) {
		c.Serve.ServeDir = "/w"
		c.Serve.ServeIndex = "list"
		m := src.mode
		if strings.HasSuffix(m, "403") {
			c.Guard.Firewall.Enabled = true
			m = m[:len(m)-3]
		}
		if strings.HasSuffix(m, "429") {
			c.Guard.Rate = 0
			c.Guard.RateBurst = 0
			m = m[:len(m)-3]
		}
		switch m {
		case "static", "metrics":
			c.Serve.Methods = map[string]string{"/": "GET;HEAD"}
		case "exact":
			c.Serve.Methods = map[string]string{"/f": "GET"}
		case "download":
			c.Serve.Download.Enabled = true
			c.Serve.Download.Exts = []string{""}
		case "downloaderr":
			c.Serve.Download.Enabled = true
			c.Serve.Download.Exts = []string{""}
			c.Serve.ServeDir = "/missing"
		default:
			c.Proxy.Enabled = true
			c.Proxy.Rules = map[string]string{"h": "http://u"}
			c.Proxy.Methods = []string{"GET", "POST"}
			if m == "proxyurl" {
				c.Proxy.Rules["h"] = "http://u:x"
			}
		}
	}
	// the metrics page belongs to the default host, whose pages are the main ones
	if src.mode == "metrics" {
		if vhost {
			return
		}
	}
	lib.Conf("/v.hcl", func(c *tuna.Config) { set(c); configure(c, "/e/", src.code, own, ext) })
	s := lib.Server(func(c *tuna.Config) {
		if src.mode == "metrics" {
			c.Core.Metrics.Enabled = true
			c.Core.Metrics.Path = "/metrics"
			c.Core.Metrics.Users = map[string]string{"u": "p"}
		}
		if vhost {
			c.Core.VirtualHosting = true
			c.Core.VirtualHosts = map[string]string{"h": "/v.hcl", "o": "/v.hcl"}
			configure(c, "/m/", src.code, main, ".html")
		} else {
			set(c)
			configure(c, "/e/", src.code, own, ext)
		}
	})
	u := &lib.Upstream{Fail: src.mode == "proxyfail"}
	s.Transport = u
	r := env.Req(src.method, "h"+[]string{"", ":80", ":8443"}[sym.Choose("port", 3)], src.path)
	if src.method == "CT" {
		r.Method = "GET"
		r.Header["Content-Type"] = []string{"x/y"}
	}
	if src.mode == "proxybody" {
		b := env.NewBody("ab")
		b.FailAt = sym.Choose("body fails after", 3)
		r.Body = b
	}
	rec := lib.Do(s, r)
	check(rec, src.code, own, data, ext)
	sym.Cover(src.mode + " " + strconv.Itoa(src.code))
}

// H_sources: every source of errors with every state of the custom pages.
func H_sources() {
	env.Init()
	vhost := sym.Choose("vhost", 2) == 1
	main := none
	if vhost {
		main = []int{none, exists}[sym.Choose("main page", 2)]
	}
	run(all[sym.Case(len(all))], vhost, main, sym.Choose("page", pages), []string{".html", ".q"}[sym.Choose("ext", 2)], sym.String("page", sym.Choose("size", 3)))
}

// H_codes: the error handler itself, with every kind of code.
func H_codes() {
	env.Init()
	codes := []int{400, 401, 403, 404, 405, 406, 418, 429, 500, 502, 503}
	code := codes[sym.Case(len(codes))]
	state := sym.Choose("page", pages)
	data := sym.String("page", 2)
	put("/e/", data)
	s := lib.Server(func(c *tuna.Config) { configure(c, "/e/", code, state, ".html") })
	rec := env.NewRec()
	host := []string{"h", "h:80", "", "[::1]:80", "::"}[sym.Choose("host", 5)]
	r := env.Req([]string{"GET", "HEAD", "POST"}[sym.Choose("method", 3)], host, []string{"/", "/e/page.html", "/x/../y", "/index.html", "/..\\..\\f"}[sym.Choose("path", 5)])
	s.HandleError(rec, r, code)
	rec.Done()
	check(rec, code, state, data, ".html")
}

// H_sequence: the answer does not depend on earlier requests, and the page may change.
func H_sequence() {
	env.Init()
	state := sym.Choose("page", pages)
	put("/e/", "one")
	env.Put("/w/f", "data")
	s := lib.Server(func(c *tuna.Config) {
		c.Serve.ServeDir = "/w"
		c.Serve.ServeIndex = "f"
		c.Serve.Methods = map[string]string{"/": "GET"}
		configure(c, "/e/", 404, state, ".html")
	})
	for i := 0; i < 3; i++ {
		switch sym.Choose("request", 3) {
		case 0:
			rec := lib.Do(s, env.Req("GET", "h", "/"))
			sym.Assert(rec.Code == http.StatusOK && rec.Body == "data", "files are served")
		case 1:
			data, _ := env.Data("/e/page.html")
			check(lib.Do(s, env.Req("GET", "h", "/zz")), 404, state, data, ".html")
		case 2:
			check(lib.Do(s, env.Req("PUT", "h", "/zz")), 405, none, "", "")
			env.Put("/e/page.html", "two")
		}
	}
	_ = sym.Case(1)
}

// H_anycode: any code from 400 to 599.
func H_anycode() {
	env.Init()
	put("/e/", "custom")
	s := lib.Server(func(c *tuna.Config) {
		c.Errors = map[string]string{"404": "/e/page.html", "511": "/e/page.q", "50": "/e/page.html"}
	})
	code := 100*(4+sym.Case(2)) + sym.IntRange("code", 0, 99)
	rec := env.NewRec()
	s.HandleError(rec, env.Req("GET", "h", "/"), code)
	rec.Done()
	sym.Observe("code", rec.Code)
	sym.Assert(rec.Code == code, "the client receives the status code of the error")
	if rec.Body == "custom" {
		sym.Cover("custom")
		sym.Assert(sym.Or(code == 404, code == 511), "a custom page only for its code")
		return
	}
	sym.Assert(sym.And(code != 404, code != 511), "the custom page for its code")
	b := lib.Main(rec.Body)
	i := strings.Index(b, "Error ")
	sym.Assert(i >= 0 && len(b) > i+9, "the built-in page names the code")
	d := b[i+6 : i+9]
	sym.Assert(int(d[0]-'0')*100+int(d[1]-'0')*10+int(d[2]-'0') == code, "the built-in page names the code")
	sym.Cover("built-in")
}

// H_concurrent: errors answered at the same time.
func H_concurrent() {
	env.Init()
	put("/e/", "custom")
	env.Put("/w/f", "data")
	c := sym.Case(3)
	s := lib.Server(func(cf *tuna.Config) {
		cf.Serve.ServeDir = "/w"
		cf.Serve.ServeIndex = "f"
		cf.Serve.Methods = map[string]string{"/": "GET"}
		configure(cf, "/e/", 404, []int{none, exists, none}[c], ".html")
		if c == 2 {
			cf.Guard.RateBurst = 1
			cf.Guard.Rate = 1
		}
	})
	n := 2
	if sym.Thorough() {
		n = 3
	}
	recs := make([]*env.Rec, n)
	for i := 0; i < n; i++ {
		i := i
		sym.Go(func() {
			m, p := "GET", "/zz"
			if i == 1 {
				m, p = "POST", "/f"
			}
			recs[i] = lib.Do(s, env.Req(m, "h", p))
		})
	}
	sym.Wait()
	for i, rec := range recs {
		code, st := 404, []int{none, exists, none}[c]
		if i == 1 {
			code, st = 405, none
		}
		if c == 2 && rec.Code == 429 {
			code, st = 429, none
		}
		check(rec, code, st, "custom", ".html")
	}
	sym.Cover("both answered")
}

// H_pages: empty and large custom pages, with any method.
func H_pages() {
	env.Init()
	n := sym.Size("page", []int{0, 1, 5000, 70000}[sym.Case(4)], 1<<22)
	data := strings.Repeat("0123456789abcdef", n/16+1)[:n]
	put("/e/", data)
	env.Put("/w/f", "data")
	vhost := sym.Choose("vhost", 2) == 1
	set := func(c *tuna.Config) {
		c.Serve.ServeDir = "/w"
		c.Serve.ServeIndex = "f"
		c.Serve.Methods = map[string]string{"/": "GET"}
		c.Errors = map[string]string{"404": "/e/page.html", "405": "/e/page.html"}
	}
	lib.Conf("/v.hcl", set)
	s := lib.Server(func(c *tuna.Config) {
		if vhost {
			c.Core.VirtualHosting = true
			c.Core.VirtualHosts = map[string]string{"h": "/v.hcl"}
		} else {
			set(c)
		}
	})
	m := lib.AnyMethod()
	p := []string{"/zz", "/zz/", "/zz.js", lib.WordPath("/x/y.json")}[sym.Choose("path", 4)]
	code := 405
	if m == "GET" {
		code = 404
	}
	for i := 0; i < 2; i++ {
		check(lib.Do(s, env.Req(m, "h", p)), code, exists, data, ".html")
	}
	// the page of an error raised by the handler itself
	rec := env.NewRec()
	s.HandleError(rec, env.Req(m, "h", p), 404)
	rec.Done()
	check(rec, 404, exists, data, ".html")
}

// H_many: an error after many others is answered like the first one.
func H_many() {
	env.Init()
	put("/e/", "custom")
	env.Put("/w/f", "data")
	st := []int{none, exists, missing}[sym.Case(3)]
	s := lib.Server(func(c *tuna.Config) {
		lib.WithMetrics(c)
		c.Guard.Rate = 1000000
		c.Guard.RateBurst = 1000000
		c.Serve.ServeDir = "/w"
		c.Serve.ServeIndex = "f"
		c.Serve.Methods = map[string]string{"/": "GET"}
		configure(c, "/e/", 404, st, ".html")
	})
	kind := sym.Choose("earlier", 4)
	n := sym.Size("errors", 110, 1200)
	for i := 0; i < n; i++ {
		switch kind {
		case 0:
			lib.Do(s, env.Req("GET", "h", "/zz"))
		case 1:
			lib.Do(s, env.Req("PUT", "h", "/zz"))
		case 2:
			lib.Do(s, env.Req("GET", "h", "/n"+strconv.Itoa(i)))
		case 3:
			lib.Do(s, env.Req("GET", "h", "/metrics"))
		}
	}
	check(lib.Do(s, env.Req("GET", "h", "/zz")), 404, st, "custom", ".html")
	check(lib.Do(s, env.Req("PUT", "h", "/zz")), 405, none, "", "")
	check(lib.Do(s, env.Req("GET", "h", "/metrics")), 401, none, "", "")
}

// H_names: paths, hosts, methods and header values a changed tree newly mentions.
func H_names() {
	env.Init()
	put("/e/", "custom")
	st := []int{none, exists}[sym.Choose("page", 2)]
	host := lib.WordHost("h")
	method := lib.WordMethod("GET")
	p := lib.WordPath("/zz")
	set := func(c *tuna.Config) {
		c.Serve.ServeDir = "/w"
		c.Serve.ServeIndex = "f"
		c.Serve.Methods = map[string]string{"/": "GET"}
	}
	code := []int{404, 403, 429}[sym.Choose("code", 3)]
	if method != "GET" {
		code = 405
	}
	lib.Conf("/v.hcl", func(c *tuna.Config) {
		set(c)
		configure(c, "/e/", code, st, ".html")
		if code == 403 {
			c.Guard.Firewall.Enabled = true
		}
		if code == 429 {
			c.Guard.Rate = 0
			c.Guard.RateBurst = 0
		}
	})
	s := lib.Server(func(c *tuna.Config) {
		set(c)
		c.Core.VirtualHosting = true
		c.Core.VirtualHosts = map[string]string{host: "/v.hcl"}
	})
	r := env.Req(method, host, p)
	r.Header["Accept"] = []string{lib.WordText("text/html")}
	r.Header["User-Agent"] = []string{lib.WordText("agent")}
	r.RemoteAddr, _ = lib.WordClient("10.0.0.1:5", "10.0.0.1")
	check(lib.Do(s, r), code, st, "custom", ".html")
}
