// Package c02 decides property C02.
package c02

import (
	"net/http"

	"github.com/redmaner/MaguroHTTP/router"
	"github.com/redmaner/MaguroHTTP/verif/env"
	"github.com/redmaner/MaguroHTTP/verif/lib"
	"github.com/redmaner/MaguroHTTP/verif/sym"
)

func serve(p string) (string, int) {
	rt := router.NewRouter()
	seen, calls := "", 0
	rt.AddRoute(router.DefaultHost, "/", true, "GET", "*", http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		calls++
		seen = r.URL.Path
	}))
	mw := ""
	rt.UseMiddleware(router.DefaultHost, "/", router.MiddlewareHandler(func(h http.Handler) http.Handler {
		return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			mw = r.URL.Path
			h.ServeHTTP(w, r)
		})
	}))
	rq := env.Req("GET", "h", p)
	rq.URL.RawPath = "/raw"
	rt.ServeHTTP(env.NewRec(), rq)
	sym.Assert(sym.EqStr(mw, seen), "middleware and handler see the same path")
	return seen, calls
}

// H_canon: the path a handler sees is the lexical resolution of the request path.
func H_canon() {
	env.Init()
	max := 8
	if sym.Thorough() {
		max = 11
	}
	p := sym.String("path", sym.Case(max+1))
	seen, calls := serve(p)
	sym.Assert(calls == 1, "the fallback route on / receives every path")
	want := lib.Resolve(p)
	sym.Observe("seen", seen)
	sym.Assert(sym.EqStr(seen, want), "handlers see the lexically resolved path")
	again, calls := serve(seen)
	sym.Assert(calls == 1, "a canonical path is routed")
	sym.Assert(sym.EqStr(again, seen), "canonicalisation is idempotent")
}

// H_alike: two spellings of one location reach the same route.
func H_alike() {
	env.Init()
	max := 5
	if sym.Thorough() {
		max = 7
	}
	p := sym.String("path", 1+sym.Case(max))
	c := lib.Resolve(p)
	run := func(p string) (string, int) {
		rt := router.NewRouter()
		got := ""
		code := 0
		rt.ErrorHandler = func(w http.ResponseWriter, r *http.Request, c int) { code = c }
		add := func(path string, fb bool) {
			rt.AddRoute(router.DefaultHost, path, fb, "GET", "*", http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { got += path }))
		}
		add("/a", false)
		add("/a/b", true)
		add("/b", true)
		rt.ServeHTTP(env.NewRec(), env.Req("GET", "h", p))
		return got, code
	}
	g1, c1 := run(p)
	g2, c2 := run(c)
	sym.Observe("route", g1)
	sym.Assert(sym.EqStr(g1, g2) && c1 == c2, "paths that resolve alike are routed alike")
	if g1 == "/a/b" {
		sym.Cover("deep")
	}
}

// H_long: long and deep paths.
func H_long() {
	env.Init()
	n := sym.Size("length", []int{300, 70, 520}[sym.Case(3)], 1500)
	p := ""
	unit := []string{"/ab", "/abcdefghijklmnopqrstuvwxyz0123456789ab"}[sym.Choose("segments", 2)]
	for len(p)+len(unit) <= n-6 {
		p += unit
	}
	head := []string{"", "/..", "//"}[sym.Choose("head", 3)]
	p = head + p + []string{"/..", "/.", "//", "/../", "/a/../.."}[sym.Choose("end", 5)]
	x := sym.String("last", 1)
	p += x
	seen, calls := serve(p)
	sym.Assert(calls == 1, "the fallback route on / receives every path")
	sym.Assert(sym.EqStr(seen, lib.Resolve(p)), "handlers see the lexically resolved path")
}

// H_names: no path is special.
func H_names() {
	env.Init()
	p := lib.WordPath("/a")
	switch sym.Choose("form", 4) {
	case 1:
		p = "/x/.." + p
	case 2:
		p += "/../y"
	case 3:
		p = "/" + p + "/."
	}
	seen, calls := serve(p)
	sym.Assert(calls == 1, "the fallback route on / receives every path")
	sym.Assert(sym.EqStr(seen, lib.Resolve(p)), "handlers see the lexically resolved path")
}
