// Package c01 decides property C01: routing precedence.
package c01

import (
	"net/http"

	"github.com/redmaner/MaguroHTTP/router"
	"github.com/redmaner/MaguroHTTP/verif/env"
	"github.com/redmaner/MaguroHTTP/verif/lib"
	"github.com/redmaner/MaguroHTTP/verif/sym"
)

type route struct {
	host, path, method, content string
	fb                          bool
}

// spec returns the index of the route that has to answer, or the error code.
func spec(rs []route, host, path, method, ct string) (int, int) {
	find := func(h string) (string, bool, bool) {
		for i, p := range lib.Ancestors(path) {
			for _, r := range rs {
				if r.host == h && r.path == p {
					return p, i == 0, true
				}
			}
		}
		return "", false, false
	}
	hp, hex, hok := find(host)
	dp, dex, dok := find(router.DefaultHost)
	h, p, ex := host, hp, hex
	switch {
	case !hok && !dok:
		return -1, 404
	case !hok || dok && dex && !hex:
		h, p, ex = router.DefaultHost, dp, dex
	}
	for i := len(rs) - 1; i >= 0; i-- {
		r := rs[i]
		if r.host == h && r.path == p && r.method == method {
			if !lib.Accepts(r.content, ct) {
				return -1, 406
			}
			if !ex && !r.fb {
				return -1, 404
			}
			return i, 200
		}
	}
	return -1, 405
}

type result struct {
	ran, errs []int
}

func build(rs []route, res *result) *router.SRouter {
	rt := router.NewRouter()
	rt.ErrorHandler = func(w http.ResponseWriter, r *http.Request, code int) { res.errs = append(res.errs, code) }
	for i := range rs {
		i := i
		rt.AddRoute(rs[i].host, rs[i].path, rs[i].fb, rs[i].method, rs[i].content, http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			res.ran = append(res.ran, i)
		}))
	}
	return rt
}

func check(rs []route, res *result, host, path, method, ct string) {
	want, code := spec(rs, host, path, method, ct)
	sym.Observe("ran", res.ran)
	sym.Observe("errs", res.errs)
	if want >= 0 {
		sym.Assert(len(res.errs) == 0, "no error for a dispatched request")
		sym.Assert(len(res.ran) == 1, "exactly one handler runs")
		sym.Assert(res.ran[0] == want, "the handler of the selected route runs")
		sym.Cover("dispatched")
	} else {
		sym.Assert(len(res.ran) == 0, "no handler runs for an error")
		sym.Assert(len(res.errs) == 1, "exactly one error is reported")
		sym.Assert(res.errs[0] == code, "the error code is the specified one")
		sym.Cover("error")
		if code == 405 {
			sym.Cover("405")
		}
		if code == 406 {
			sym.Cover("406")
		}
	}
}

var nodes = []string{"/", "/a", "/a/b", "/b"}

// H_pick: which path wins, for every subset of registered paths and every request path.
func H_pick() {
	env.Init()
	var rs []route
	c := sym.Case(16)
	for i, p := range nodes {
		if c>>uint(i)&1 == 1 {
			rs = append(rs, route{"h", p, "GET", "*", sym.Bool("fallback h" + p)})
		}
	}
	d := sym.Choose("default nodes", 16)
	for i, p := range nodes {
		if d>>uint(i)&1 == 1 {
			rs = append(rs, route{router.DefaultHost, p, "GET", "*", sym.Bool("fallback default" + p)})
		}
	}
	hosts := []string{"h", "h:80", "x"}
	hi := sym.Choose("host", len(hosts))
	n := 5
	if sym.Thorough() {
		n = 7
	}
	path := sym.String("path", n)
	sym.Assume(path[0] == '/')
	res := new(result)
	rt := build(rs, res)
	rt.ServeHTTP(env.NewRec(), env.Req("GET", hosts[hi], path))
	check(rs, res, []string{"h", "h", "x"}[hi], lib.Resolve(path), "GET", "")
}

// H_short: the same for the shortest request paths.
func H_short() {
	env.Init()
	var rs []route
	for _, h := range []string{"h", router.DefaultHost} {
		for _, p := range []string{"/", "/a"} {
			if sym.Choose("registered "+h+p, 2) == 1 {
				rs = append(rs, route{h, p, "GET", "*", sym.Bool("fallback")})
			}
		}
	}
	path := sym.String("path", sym.Case(4))
	host := "h"
	if sym.Choose("other host", 2) == 1 {
		host = "y"
	}
	res := new(result)
	rt := build(rs, res)
	rt.ServeHTTP(env.NewRec(), env.Req("GET", host, path))
	check(rs, res, host, lib.Resolve(path), "GET", "")
}

// H_host: the port of the request's host is ignored, nothing else is.
func H_host() {
	env.Init()
	rs := []route{
		{"h", "/a", "GET", "*", sym.Bool("fb1")},
		{"ab", "/a", "GET", "*", sym.Bool("fb2")},
		{router.DefaultHost, "/a", "GET", "*", sym.Bool("fb3")},
	}
	if sym.Choose("no default", 2) == 1 {
		rs = rs[:2]
	}
	name := sym.String("host", sym.Case(4))
	for i := 0; i < len(name); i++ {
		sym.Assume(sym.Not(sym.In(name[i], ":[]/")))
	}
	host := name
	switch sym.Choose("form", 4) {
	case 1:
		port := sym.String("port", 2)
		sym.Assume(port[0] >= '0' && port[0] <= '9' && port[1] >= '0' && port[1] <= '9')
		host += ":" + port
	case 2:
		host = "[" + host + "]:80"
	case 3:
		host += ":"
	}
	path := []string{"/a", "/a/c", "/d"}[sym.Choose("path", 3)]
	res := new(result)
	rt := build(rs, res)
	rt.ServeHTTP(env.NewRec(), env.Req("GET", host, path))
	check(rs, res, name, path, "GET", "")
}

// H_content: methods and content types of one path.
func H_content() {
	env.Init()
	max := 4
	ctmax := 3
	if sym.Thorough() {
		max, ctmax = 6, 5
	}
	k := sym.Case((max + 1) * (ctmax + 1))
	content := sym.String("content", k%(max+1))
	ct := sym.String("content type", k/(max+1))
	rs := []route{
		{"h", "/a", "GET", content, sym.Bool("fallback GET")},
		{"h", "/a", "POST", "x;y", sym.Bool("fallback POST")},
		{"h", "/", "PUT", "*", true},
	}
	method := []string{"GET", "POST", "PUT"}[sym.Choose("method", 3)]
	path := []string{"/a", "/a/z"}[sym.Choose("path", 2)]
	res := new(result)
	rt := build(rs, res)
	rq := env.Req(method, "h", path)
	if sym.Choose("header present", 2) == 1 {
		rq.Header["Content-Type"] = []string{ct}
	} else {
		ct = ""
	}
	rt.ServeHTTP(env.NewRec(), rq)
	check(rs, res, "h", path, method, ct)
}

// H_codes: the router's own error handler answers with the code.
func H_codes() {
	env.Init()
	rt := router.NewRouter()
	ran := 0
	h := http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { ran++; w.WriteHeader(204) })
	rs := []route{{"h", "/a", "GET", "t", false}}
	rt.AddRoute("h", "/a", false, "GET", "t", h)
	path := []string{"/a", "/b", "/a/b"}[sym.Choose("path", 3)]
	method := sym.String("method", 3)
	ct := sym.String("ct", 1)
	rq := env.Req(method, "h", path)
	rq.Header["Content-Type"] = []string{ct}
	rec := env.NewRec()
	rt.ServeHTTP(rec, rq)
	rec.Done()
	i, code := spec(rs, "h", path, method, ct)
	sym.Observe("code", rec.Code)
	if i == 0 {
		sym.Assert(ran == 1 && rec.Code == 204, "dispatched")
		sym.Cover("dispatched")
	} else {
		sym.Assert(ran == 0, "handler does not run")
		sym.Assert(rec.Code == code, "client receives the error code")
	}
}

// H_methods: several methods with their own fallback on nested paths, and no path at all.
func H_methods() {
	env.Init()
	ms := []string{"GET", "HEAD", "PROPFIND"}
	var rs []route
	c := sym.Case(64)
	for i := 0; i < 6; i++ {
		if c>>uint(i)&1 == 1 {
			rs = append(rs, route{[]string{"h", router.DefaultHost}[i&1], []string{"/a", "/a/b", "/"}[i/2], ms[i%3], "*", sym.Bool("fb")})
		}
	}
	res := new(result)
	rt := router.NewRouter()
	rt.WebDAV = true
	rt.ErrorHandler = func(w http.ResponseWriter, r *http.Request, code int) { res.errs = append(res.errs, code) }
	for i := range rs {
		i := i
		rt.AddRoute(rs[i].host, rs[i].path, rs[i].fb, rs[i].method, rs[i].content, http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			res.ran = append(res.ran, i)
		}))
	}
	m := ms[sym.Choose("method", 3)]
	p := []string{"/a", "/a/b", "/a/b/c", "/", "/q", "/a/"}[sym.Choose("path", 6)]
	h := []string{"h", "z"}[sym.Choose("host", 2)]
	rt.ServeHTTP(env.NewRec(), env.Req(m, h, p))
	check(rs, res, h, p, m, "")
}

// long returns n path segments below p.
func long(p string, n int) string {
	for i := 0; i < n; i++ {
		p += "/s"
	}
	return p
}

// H_scale: deep paths, long content lists, many methods, many routes.
func H_scale() {
	env.Init()
	var rs []route
	res := new(result)
	host, path, method, ct := "h", "/a", "GET", ""
	switch sym.Case(4) {
	case 0:
		n := sym.Size("depth", []int{9, 40}[sym.Choose("depth", 2)], 600)
		rs = append(rs, route{"h", []string{"/a", "/"}[sym.Choose("top", 2)], "GET", "*", sym.Bool("fb")})
		switch sym.Choose("second", 4) {
		case 1:
			rs = append(rs, route{router.DefaultHost, "/a", "GET", "*", sym.Bool("fb2")})
		case 2:
			rs = append(rs, route{"h", long("/a", n/2), "GET", "*", sym.Bool("fb2")})
		case 3:
			rs = append(rs, route{router.DefaultHost, long("/a", n), "GET", "*", sym.Bool("fb2")})
		}
		path = long("/a", n)
		if sym.Choose("trailing", 2) == 1 {
			path += "/"
		}
	case 1:
		n := sym.Size("types", 24, 600)
		content := "t"
		for i := 0; i < n; i++ {
			content += ";x/" + string('a'+rune(i%26)) + string('a'+rune(i/26%26))
		}
		rs = append(rs, route{"h", "/a", "GET", content, false})
		x := sym.String("type", 2)
		ct = "x/" + x
		if sym.Choose("parameter", 2) == 1 {
			ct += ";p;q"
		}
	case 2:
		ms := []string{"GET", "PUT", "POST", "DELETE", "PATCH", "CONNECT", "OPTIONS", "HEAD", "PROPFIND", "PROPPATCH", "MKCOL", "COPY", "MOVE", "LOCK", "UNLOCK"}
		skip := sym.Choose("without", 16)
		for i, m := range ms {
			if i != skip {
				rs = append(rs, route{"h", "/a", m, "*", i%2 == 0})
			}
		}
		method = append(ms, "BREW")[sym.Choose("method", 16)]
		path = []string{"/a", "/a/x"}[sym.Choose("path", 2)]
	case 3:
		method = []string{"GET", "PUT"}[sym.Choose("method", 2)]
		n := sym.Size("routes", 100, 600)
		for i := 0; i < n; i++ {
			p := "/r" + string('a'+rune(i%26)) + string('a'+rune(i/26%26))
			rs = append(rs, route{[]string{"h", router.DefaultHost}[i%2], p, []string{"GET", "GET", "POST"}[i/2%3], "*", i%3 == 0})
		}
		x := sym.String("which", 2)
		path = "/r" + x
		if sym.Choose("below", 2) == 1 {
			path += "/q"
		}
	}
	rt := router.NewRouter()
	rt.WebDAV = true
	rt.ErrorHandler = func(w http.ResponseWriter, r *http.Request, code int) { res.errs = append(res.errs, code) }
	for i := range rs {
		i := i
		rt.AddRoute(rs[i].host, rs[i].path, rs[i].fb, rs[i].method, rs[i].content, http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			res.ran = append(res.ran, i)
		}))
	}
	for i := 0; i < 2; i++ {
		*res = result{}
		rq := env.Req(method, host, path)
		if ct != "" {
			rq.Header["Content-Type"] = []string{ct}
		}
		rt.ServeHTTP(env.NewRec(), rq)
		check(rs, res, host, lib.Resolve(path), method, ct)
	}
}

// H_many: many requests to one router, each answered by the rules alone.
func H_many() {
	env.Init()
	rs := []route{{"h", "/a", "GET", "*", true}, {"h", "/b", "GET", "t", false}, {router.DefaultHost, "/b/c", "POST", "*", false}}
	res := new(result)
	rt := build(rs, res)
	n := sym.Size("requests", 40, 400)
	hosts := []string{"h", "x", "h:80"}
	for i := 0; i < n; i++ {
		*res = result{}
		p, h, m := []string{"/a", "/a/b", "/b", "/b/c", "/b/c/d", "/zz", "/"}[i%7], hosts[i%3], []string{"GET", "POST"}[i/7%2]
		rt.ServeHTTP(env.NewRec(), env.Req(m, h, p))
		check(rs, res, router.StripHostPort(h), p, m, "")
	}
	*res = result{}
	p := "/" + sym.String("path", 3)
	h := hosts[sym.Choose("host", 3)]
	m := []string{"GET", "POST"}[sym.Choose("method", 2)]
	rt.ServeHTTP(env.NewRec(), env.Req(m, h, p))
	check(rs, res, router.StripHostPort(h), lib.Resolve(p), m, "")
}

// H_names: no host, path or method is special.
func H_names() {
	env.Init()
	host := lib.WordHost("h")
	path := lib.Resolve(lib.WordPath("/a"))
	for len(path) > 1 && path[len(path)-1] == '/' {
		path = path[:len(path)-1]
	}
	text := lib.WordText("t/t")
	for i := 0; i < len(text); i++ {
		sym.Assume(text[i] != ';')
	}
	rs := []route{{"h", "/a", "GET", "*", false}}
	switch sym.Choose("registered", 4) {
	case 1:
		rs = append(rs, route{host, path, "GET", "*", true})
	case 2:
		rs = append(rs, route{router.DefaultHost, path, "GET", "t/t;y/y", true})
	case 3:
		rs = append(rs, route{router.DefaultHost, "/", "GET", "", true})
	}
	res := new(result)
	rt := build(rs, res)
	p := path
	if sym.Choose("below", 2) == 1 && p != "/" {
		p += "/q"
	}
	rq := env.Req(lib.WordMethod("GET"), host, p)
	rq.Header["Content-Type"] = []string{text}
	method := rq.Method
	rt.ServeHTTP(env.NewRec(), rq)
	check(rs, res, host, p, method, text)
}
