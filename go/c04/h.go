// Package c04 decides property C04: registrations.
package c04

import (
	"net/http"

	"github.com/redmaner/MaguroHTTP/router"
	"github.com/redmaner/MaguroHTTP/verif/env"
	"github.com/redmaner/MaguroHTTP/verif/lib"
	"github.com/redmaner/MaguroHTTP/verif/sym"
)

var std = []string{"GET", "PUT", "POST", "DELETE", "PATCH", "CONNECT", "OPTIONS", "HEAD"}
var dav = []string{"PROPFIND", "PROPPATCH", "MKCOL", "COPY", "MOVE", "LOCK", "UNLOCK"}

func in(m string, l []string) bool {
	for _, x := range l {
		if m == x {
			return true
		}
	}
	return false
}

// try registers and reports whether the registration was refused, by panic or exit, and
// whether it ended the process.
func try(f func()) (refused, exited bool) {
	ex, _ := sym.CatchExit(func() {
		defer func() {
			if recover() != nil {
				refused = true
			}
		}()
		f()
	})
	return refused || ex, ex
}

// H_register: a registration succeeds iff it is valid.
func H_register() {
	env.Init()
	rt := router.NewRouter()
	rt.WebDAV = sym.Bool("webdav")
	served := ""
	rt.AddRoute("old", "/o", false, "GET", "", http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { served += "old" }))
	host := sym.String("host", sym.Choose("host length", 2))
	path := []string{"", "/", "/p", "/p/"}[sym.Choose("path", 4)]
	method := sym.String("method", sym.Case(11))
	var h http.Handler
	if sym.Choose("nil handler", 2) == 0 {
		h = http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { served += "new" })
	}
	refused, _ := try(func() { rt.AddRoute(host, path, false, method, "*", h) })
	valid := host != "" && path != "" && h != nil && (in(method, std) || rt.WebDAV && in(method, dav))
	sym.Observe("refused", refused)
	if valid {
		sym.Assert(!refused, "a valid registration succeeds")
		sym.Assume(sym.Not(sym.In(host[0], ":[]/")))
		p := path
		if p == "/p/" {
			p = "/p"
		}
		rt.ServeHTTP(env.NewRec(), env.Req(method, host, p))
		sym.Assert(served == "new", "the registered route is served")
		sym.Cover("valid")
		if !in(method, std) {
			sym.Cover("webdav")
		}
	} else {
		sym.Assert(refused, "an invalid registration is refused")
		sym.Cover("refused")
	}
}

// H_replace: a later registration replaces exactly the same host, path and method.
func H_replace() {
	env.Init()
	rt := router.NewRouter()
	n := 3
	if sym.Thorough() {
		n = 4
	}
	hosts := []string{"h", router.DefaultHost}
	paths := []string{"/p", "/p/", "/"}
	ms := []string{"GET", "POST"}
	last := map[string]int{}
	any := map[string]bool{}
	got := -1
	c := sym.Case(12)
	for i := 0; i < n; i++ {
		i := i
		var hi, pi, mi int
		if i == 0 {
			hi, pi, mi = c%2, c/2%3, c/6
		} else {
			hi, pi, mi = sym.Choose("host", 2), sym.Choose("path", 3), sym.Choose("method", 2)
		}
		fb := sym.Bool("fallback")
		rt.AddRoute(hosts[hi], paths[pi], fb, ms[mi], "", http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { got = i }))
		p := paths[pi]
		if p == "/p/" {
			p = "/p"
		}
		last[hosts[hi]+p+ms[mi]] = i
		any[hosts[hi]+p] = true
	}
	code := 0
	rt.ErrorHandler = func(w http.ResponseWriter, r *http.Request, c int) { code = c }
	for _, p := range []string{"/p", "/"} {
		for _, m := range ms {
			for hi, h := range []string{"h", "other"} {
				// exact requests: the specific host wins if it has the path
				node := hosts[hi] + p
				if hi == 0 && !any[node] {
					continue // answered by fallback rules, see C01
				}
				if hi == 1 && !any[node] {
					continue
				}
				got, code = -1, 0
				rt.ServeHTTP(env.NewRec(), env.Req(m, h, p))
				want, ok := last[node+m]
				if ok {
					sym.Assert(got == want && code == 0, "the latest registration answers")
				} else {
					sym.Assert(got == -1 && code == 405, "other methods stay unregistered")
				}
			}
		}
	}
	sym.Observe("got", got)
}

// H_after: a refused registration changes nothing.
func H_after() {
	env.Init()
	rt := router.NewRouter()
	got := ""
	rt.AddRoute("h", "/p", true, "GET", "", http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { got += "old" }))
	code := 0
	rt.ErrorHandler = func(w http.ResponseWriter, r *http.Request, c int) { code = c }
	host := []string{"h", "", "g"}[sym.Choose("host", 3)]
	path := []string{"/p", "", "/p/q", "/"}[sym.Choose("path", 4)]
	method := []string{"GET", "", "BREW", "MKCOL"}[sym.Choose("method", 4)]
	var h http.Handler
	if sym.Choose("nil handler", 2) == 0 {
		h = http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { got += "new" })
	}
	refused, exited := try(func() { rt.AddRoute(host, path, false, method, "", h) })
	if exited {
		sym.Cover("exited")
		return
	}
	if !refused {
		return
	}
	sym.Cover("refused")
	req := func(m, host, p string) string {
		got, code = "", 0
		// a lock that is still held would block here
		rt.ServeHTTP(env.NewRec(), env.Req(m, host, p))
		return got
	}
	sym.Assert(req("GET", "h", "/p") == "old", "the old route is served as before")
	sym.Assert(req("GET", "h", "/p/q") == "old", "fallback works as before")
	sym.Assert(req("MKCOL", "h", "/p") == "" && code == 405, "an unregistered method is refused as before")
	sym.Assert(req("GET", "g", "/p") == "" && code == 404, "an unregistered host is unknown as before")
	sym.Assert(req("GET", "g", "/p/q") == "" && code == 404, "an unregistered host is unknown as before")
	sym.Assert(req("GET", "g", "/") == "" && code == 404, "an unregistered host is unknown as before")
	sym.Assert(req("GET", "h", "/") == "" && code == 404, "an unregistered path is unknown as before")
	sym.Assert(req("GET", "h", "/zz") == "" && code == 404, "an unregistered path is unknown as before")
}

// H_blank: middleware registrations with blank parameters are refused too.
func H_blank() {
	env.Init()
	rt := router.NewRouter()
	host := sym.String("host", sym.Choose("host length", 2))
	path := []string{"", "/"}[sym.Choose("path", 2)]
	var m router.Middleware
	if sym.Choose("nil", 2) == 0 {
		m = router.MiddlewareHandler(func(h http.Handler) http.Handler { return h })
	}
	refused, _ := try(func() { rt.UseMiddleware(host, path, m) })
	sym.Assert(refused == (host == "" || path == "" || m == nil), "middleware registration is refused iff a parameter is blank")
}

// H_flags: fallback and content type are those of the latest registration of the very route.
func H_flags() {
	env.Init()
	rt := router.NewRouter()
	type reg struct {
		i       int
		fb      bool
		content string
	}
	got := -1
	last := map[string]reg{}
	ms := []string{"GET", "POST"}
	c := sym.Case(8)
	n := 3
	for i := 0; i < n; i++ {
		i := i
		p, m := []string{"/p", "/p/"}[sym.Choose("spelling", 2)], "GET"
		fb, content := false, "*"
		switch i {
		case 0:
			fb, content = c%2 == 1, []string{"*", "x/y"}[c/2%2]
			m = ms[c/4]
		default:
			m = ms[sym.Choose("method", 2)]
			fb = sym.Choose("fallback", 2) == 1
			content = []string{"*", "x/y"}[sym.Choose("content", 2)]
		}
		rt.AddRoute("h", p, fb, m, content, http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { got = i }))
		last[m] = reg{i, fb, content}
		if sym.Thorough() && sym.Choose("other route", 2) == 1 {
			rt.AddRoute(router.DefaultHost, "/", true, "PUT", "*", http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {}))
		}
	}
	code := 0
	rt.ErrorHandler = func(w http.ResponseWriter, r *http.Request, c int) { code = c }
	m := ms[sym.Choose("request method", 2)]
	p := []string{"/p", "/p/q"}[sym.Choose("request path", 2)]
	ct := []string{"x/y", "z/z"}[sym.Choose("request content", 2)]
	r := env.Req(m, "h", p)
	r.Header["Content-Type"] = []string{ct}
	rt.ServeHTTP(env.NewRec(), r)
	l, ok := last[m]
	want := 0
	switch {
	case !ok:
		want = 405
	case l.content != "*" && ct != l.content:
		want = 406
	case p != "/p" && !l.fb:
		want = 404
	}
	sym.Assert(code == want, "answered by the rules of the latest registration")
	sym.Assert(want != 0 && got == -1 || want == 0 && got == l.i, "the latest registration's handler runs")
	sym.Cover([]string{"exact", "below"}[len(p)/4])
}

// H_routers: WebDAV and routes are those of the very router.
func H_routers() {
	env.Init()
	a, b := router.NewRouter(), router.NewRouter()
	got := ""
	h := func(s string) http.Handler {
		return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { got += s })
	}
	a.WebDAV = true
	first := sym.Choose("first", 2) == 1
	da := dav[sym.Choose("method", len(dav))]
	if first {
		a.AddRoute("h", "/p", false, da, "", h("a"))
	}
	if sym.Choose("webdav and back", 2) == 1 {
		b.WebDAV = true
		b.AddRoute("h", "/o", false, da, "", h("o"))
		b.WebDAV = false
	}
	b.AddRoute("h", "/p", false, "GET", "", h("b"))
	code := 0
	b.ErrorHandler = func(w http.ResponseWriter, r *http.Request, c int) { code = c }
	b.ServeHTTP(env.NewRec(), env.Req(da, "h", "/p"))
	sym.Assert(got == "" && code == 405, "routes of one router are unknown to another")
	refused, _ := try(func() { b.AddRoute("h", "/q", false, da, "", h("q")) })
	sym.Assert(refused, "a router without WebDAV refuses WebDAV methods, whatever other routers accept")
	sym.Cover("refused")
}

// H_names: names that are not methods are refused, hosts and paths of any name accepted.
func H_names() {
	env.Init()
	rt := router.NewRouter()
	rt.WebDAV = sym.Choose("webdav", 2) == 1
	host, path, m := lib.WordHost("h"), lib.Resolve(lib.WordPath("/p")), lib.WordMethod("GET")
	for len(path) > 1 && path[len(path)-1] == '/' {
		path = path[:len(path)-1]
	}
	n := sym.Size("routes", 3, 300)
	got := -1
	for i := 0; i < n; i++ {
		i := i
		rt.AddRoute("h", path, false, "GET", "", http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { got = i }))
	}
	refused, _ := try(func() {
		rt.AddRoute(host, path, false, m, "", http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { got = -2 }))
	})
	valid := in(m, std) || rt.WebDAV && in(m, dav)
	sym.Assert(refused == !valid, "a registration is refused iff it is not valid")
	if !refused {
		rt.ServeHTTP(env.NewRec(), env.Req(m, host, path))
		sym.Assert(got == -2, "the latest registration answers")
	}
}
