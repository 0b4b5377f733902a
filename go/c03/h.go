// Package c03 decides property C03: middleware.
package c03

import (
	"net/http"

	"github.com/redmaner/MaguroHTTP/router"
	"github.com/redmaner/MaguroHTTP/verif/env"
	"github.com/redmaner/MaguroHTTP/verif/lib"
	"github.com/redmaner/MaguroHTTP/verif/sym"
)

type mw struct {
	host, path string
	stop       bool
}

func trim(p string) string {
	if p != "/" && p[len(p)-1] == '/' {
		return p[:len(p)-1]
	}
	return p
}

func run(n int) {
	env.Init()
	rt := router.NewRouter()
	var trace []int
	errs := 0
	rt.ErrorHandler = func(w http.ResponseWriter, r *http.Request, code int) { errs++ }
	hosts := []string{"h", router.DefaultHost}
	paths := []string{"/a", "/a/", "/", "/a/b"}
	var ms []mw
	k := sym.Choose("registered before the routes", n+1)
	routes := func() {
		add := func(host, p string, fb bool, id int, m string) {
			rt.AddRoute(host, p, fb, m, "", http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { trace = append(trace, id) }))
		}
		add("h", "/a", true, 100, "GET")
		add(router.DefaultHost, "/a", true, 101, "GET")
		add("h", "/", false, 102, "GET")
		add("h", "/a/b/", true, 103, "GET")
		add(router.DefaultHost, "/", true, 104, "GET")
		add("h", "/a", true, 105, "PUT")
	}
	for i := 0; i < n; i++ {
		if i == k {
			routes()
		}
		i := i
		m := mw{host: hosts[sym.Choose("mw host", 2)], path: paths[sym.Choose("mw path", 4)], stop: sym.Bool("stop")}
		ms = append(ms, m)
		f := func(h http.Handler) http.Handler {
			return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
				trace = append(trace, i)
				if !m.stop {
					h.ServeHTTP(w, r)
				}
			})
		}
		if i%2 == 0 {
			rt.UseMiddleware(m.host, m.path, router.MiddlewareHandler(f))
		} else {
			rt.UseMiddleware(m.host, m.path, router.MiddlewareHandlerFunc(func(h http.HandlerFunc) http.HandlerFunc {
				return f(h).ServeHTTP
			}))
		}
	}
	if k == n {
		routes()
	}
	// requests with the node and handler the registered routes select for them
	type rq struct {
		host, path, method, ct string
		nhost, npath           string
		id                     int
	}
	all := []rq{
		{"h", "/a", "GET", "", "h", "/a", 100},
		{"h:81", "/a/x", "GET", "", "h", "/a", 100},
		{"x", "/a", "GET", "", router.DefaultHost, "/a", 101},
		{"h", "/a/b", "GET", "", "h", "/a/b", 103},
		{"h", "/", "GET", "", "h", "/", 102},
		{"x", "/zz", "GET", "", router.DefaultHost, "/", 104},
		{"h", "/a", "PUT", "", "h", "/a", 105},
		{"h", "/a", "POST", "", "", "", 0},  // 405
		{"h", "/a", "GET", "q", "", "", 0},  // 406
		{"h", "/zz", "GET", "", "", "", -1}, // 404 (no fallback on h/)
	}
	q := all[sym.Case(len(all))]
	r := env.Req(q.method, q.host, q.path)
	if q.ct != "" {
		r.Header["Content-Type"] = []string{q.ct}
	}
	rec := env.NewRec()
	rt.ServeHTTP(rec, r)
	var want []int
	if q.id > 0 {
		stopped := false
		for i, m := range ms {
			if m.host == q.nhost && trim(m.path) == q.npath && !stopped {
				want = append(want, i)
				stopped = m.stop
			}
		}
		if !stopped {
			want = append(want, q.id)
		} else {
			sym.Cover("stopped")
		}
		if len(want) > 2 {
			sym.Cover("chain")
		}
		sym.Assert(errs == 0, "no error")
	} else {
		sym.Assert(errs == 1, "one error")
	}
	sym.Observe("trace", trace)
	sym.Assert(len(trace) == len(want), "exactly the middleware of the route runs")
	for i := range want {
		sym.Assert(trace[i] == want[i], "middleware runs in registration order")
	}
	// a second identical request behaves the same
	trace = nil
	rt.ServeHTTP(env.NewRec(), func() *http.Request {
		r := env.Req(q.method, q.host, q.path)
		if q.ct != "" {
			r.Header["Content-Type"] = []string{q.ct}
		}
		return r
	}())
	sym.Assert(len(trace) == len(want), "the same middleware runs for the next request")
}

// H_two: any two middlewares.
func H_two() { run(2) }

// H_three: any three middlewares.
func H_three() { run(3) }

// H_four: any four middlewares on one of the paths.
func H_many() {
	env.Init()
	rt := router.NewRouter()
	var trace []int
	n := 1 + sym.Case(6)
	rt.AddRoute(router.DefaultHost, "/p", false, "GET", "", http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { trace = append(trace, 100) }))
	stop := make([]bool, n)
	for i := 0; i < n; i++ {
		i := i
		stop[i] = sym.Bool("stop")
		rt.UseMiddleware(router.DefaultHost, "/p", router.MiddlewareHandler(func(h http.Handler) http.Handler {
			return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
				trace = append(trace, i)
				if !stop[i] {
					h.ServeHTTP(w, r)
				}
			})
		}))
	}
	rt.ServeHTTP(env.NewRec(), env.Req("GET", "h", "/p"))
	i := 0
	for ; i < n; i++ {
		sym.Assert(i < len(trace) && trace[i] == i, "registration order")
		if stop[i] {
			sym.Assert(len(trace) == i+1, "nothing runs after a middleware that stops")
			return
		}
	}
	sym.Assert(len(trace) == n+1 && trace[n] == 100, "the handler runs last")
	sym.Observe("trace", trace)
}

// H_chain: long chains keep their order, and other registrations do not touch them.
func H_chain() {
	env.Init()
	rt := router.NewRouter()
	rt.ErrorHandler = func(w http.ResponseWriter, r *http.Request, code int) {}
	var trace []int
	n := sym.Size("middlewares", []int{12, 40}[sym.Case(2)], 600)
	add := func(m string) {
		rt.AddRoute("h", "/p", false, m, "", http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { trace = append(trace, -1) }))
	}
	use := func(host, path string, i int, stop bool) {
		rt.UseMiddleware(host, path, router.MiddlewareHandler(func(h http.Handler) http.Handler {
			return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
				trace = append(trace, i)
				if !stop {
					h.ServeHTTP(w, r)
				}
			})
		}))
	}
	add("GET")
	at := sym.IntRange("stops at", 0, n)
	j := sym.Choose("re-registered at", 3)
	for i := 0; i < n; i++ {
		if i == n/2 {
			switch j {
			case 1:
				add("GET")
			case 2:
				add("POST")
				use(router.DefaultHost, "/p", 1000, true)
				use("h", "/p/q", 1001, true)
				use("h", "/", 1002, true)
			}
		}
		use("h", "/p", i, i == at)
	}
	if sym.Choose("re-registered at the end", 2) == 1 {
		add("GET")
	}
	for k := 0; k < 2; k++ {
		trace = nil
		rt.ServeHTTP(env.NewRec(), env.Req("GET", "h", "/p"))
		for i := range trace {
			if i < n {
				sym.Assert(trace[i] == i, "registration order")
			} else {
				sym.Assert(trace[i] == -1, "the handler runs last")
			}
		}
		if at < n {
			sym.Assert(len(trace) == at+1, "nothing runs after a middleware that stops")
		} else {
			sym.Assert(len(trace) == n+1, "all middleware and the handler run")
		}
	}
}

// H_again: registering routes anew never drops or reorders middleware.
func H_again() {
	env.Init()
	rt := router.NewRouter()
	rt.ErrorHandler = func(w http.ResponseWriter, r *http.Request, code int) {}
	var trace []int
	hosts, paths, ms := []string{"h", router.DefaultHost}, []string{"/p", "/p/", "/"}, []string{"GET", "PUT"}
	n, c := 0, sym.Case(6)
	for i := 0; i < 6; i++ {
		switch {
		case i == 0 || i != 2 && sym.Choose("what", 2) == 0:
			h, p := hosts[sym.Choose("host", 2)], paths[sym.Choose("path", 3)]
			if i == 0 {
				h, p = "h", "/p"
			}
			rt.AddRoute(h, p, sym.Choose("fb", 2) == 1, ms[c%2], "", http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { trace = append(trace, -1) }))
			if i > 3 {
				i++
			}
		default:
			k := n
			n++
			rt.UseMiddleware("h", paths[c/2%2], router.MiddlewareHandler(func(h http.Handler) http.Handler {
				return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
					trace = append(trace, k)
					h.ServeHTTP(w, r)
				})
			}))
		}
	}
	rt.ServeHTTP(env.NewRec(), env.Req(ms[c%2], "h", "/p"))
	sym.Assert(len(trace) == n+1, "every middleware of the path and the handler run")
	for i := 0; i < n; i++ {
		sym.Assert(trace[i] == i, "registration order")
	}
	sym.Assert(trace[n] == -1, "the handler runs last")
}

// H_names: no host, path or method is special.
func H_names() {
	env.Init()
	rt := router.NewRouter()
	rt.ErrorHandler = func(w http.ResponseWriter, r *http.Request, code int) {}
	host, path := lib.WordHost("h"), lib.Resolve(lib.WordPath("/p"))
	path = trim(path)
	m := lib.WordMethod("GET")
	rt.WebDAV = true
	trace := ""
	handler := http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { trace += "H" })
	for _, x := range []string{"GET", "PUT", "POST", "DELETE", "PATCH", "CONNECT", "OPTIONS", "HEAD", "PROPFIND", "PROPPATCH", "MKCOL", "COPY", "MOVE", "LOCK", "UNLOCK"} {
		rt.AddRoute(host, path, true, x, "*", handler)
	}
	for i := 0; i < 2; i++ {
		s := []string{"0", "1"}[i]
		rt.UseMiddleware(host, path, router.MiddlewareHandler(func(h http.Handler) http.Handler {
			return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
				trace += s
				h.ServeHTTP(w, r)
			})
		}))
	}
	p := path
	if sym.Choose("below", 2) == 1 && p != "/" {
		p += "/q"
	}
	rt.ServeHTTP(env.NewRec(), env.Req(m, host, p))
	want := "01H"
	switch m {
	case "GET", "PUT", "POST", "DELETE", "PATCH", "CONNECT", "OPTIONS", "HEAD", "PROPFIND", "PROPPATCH", "MKCOL", "COPY", "MOVE", "LOCK", "UNLOCK":
	default:
		want = ""
	}
	sym.Observe("trace", trace)
	sym.Assert(trace == want, "middleware runs before the handler, whatever host, path and method are called")
}
