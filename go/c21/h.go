// Package c21 decides property C21: counting responses.
package c21

import (
	"net/http"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/redmaner/MaguroHTTP/tuna"
	"github.com/redmaner/MaguroHTTP/verif/env"
	"github.com/redmaner/MaguroHTTP/verif/lib"
	"github.com/redmaner/MaguroHTTP/verif/sym"
)

const (
	serve = iota
	download
	proxy
	vhost
	modes
)

// guard, if set, changes the settings of the host.
var guard func(c *tuna.Config)

func set(mode int) func(c *tuna.Config) {
	return func(c *tuna.Config) {
		c.Guard.Rate = 0
		c.Guard.RateBurst = 100
		if guard != nil {
			guard(c)
		}
		switch mode {
		case serve, vhost:
			c.Serve.ServeDir = "/w"
			c.Serve.ServeIndex = "i.txt"
			c.Serve.Methods = map[string]string{"/": "GET"}
		case download:
			c.Serve.ServeDir = "/w/"
			c.Serve.ServeIndex = "/index"
			c.Serve.Download.Enabled = true
			c.Serve.Download.Exts = []string{".txt"}
		case proxy:
			c.Proxy.Enabled = true
			c.Proxy.Rules = map[string]string{"h": "http://u"}
			c.Proxy.Methods = []string{"GET", "HEAD"}
		}
	}
}

func server(mode int, more func(c *tuna.Config)) (*tuna.Server, *lib.Upstream) {
	env.Put("/w/a", "A")
	env.Put("/w/b.txt", "B")
	env.Put("/w/i.txt", "I")
	env.PutDir("/w/d")
	lib.Conf("/v.hcl", set(serve))
	s := lib.Server(func(c *tuna.Config) {
		if mode == vhost {
			c.Core.VirtualHosting = true
			c.Core.VirtualHosts = map[string]string{"h": "/v.hcl", "g": "/v.hcl"}
		} else {
			set(mode)(c)
		}
		lib.WithMetrics(c)
		if more != nil {
			more(c)
		}
	})
	u := &lib.Upstream{}
	s.Transport = u
	return s, u
}

type kind struct{ method, host, path string }

var kinds = []kind{
	{"GET", "h", "/a"}, {"GET", "h:80", "/a"}, {"GET", "g", "/a"}, {"GET", "h", "/b.txt"},
	{"GET", "h", "/"}, {"GET", "h", "/gone"}, {"GET", "h", "/d"}, {"GET", "h", "/index"},
	{"POST", "h", "/a"}, {"GET", "h", "/metrics"}, {"HEAD", "g", "/"}, {"GET", "h", "/index.html"},
}

// do sends a request and returns the status the client received.
func do(s *tuna.Server, k kind, rec *env.Rec) int {
	s.Router.ServeHTTP(rec, env.Req(k.method, k.host, k.path))
	rec.Done()
	return rec.Code
}

func host(h string) string {
	if i := strings.IndexByte(h, ':'); i >= 0 {
		return h[:i]
	}
	return h
}

// H_seq: sequences of requests of all kinds.
func H_seq() {
	env.Init()
	s, u := server(sym.Case(modes), nil)
	want := lib.Count{}
	n := 2
	if sym.Thorough() {
		n = 3
	}
	for i := 0; i < n; i++ {
		k := kinds[sym.Choose("request", len(kinds))]
		u.Fail = sym.Choose("upstream fails", 2) == 1
		rec := env.NewRec()
		if sym.Choose("client gone", 2) == 1 {
			rec.FailAt = 1
		}
		want.Add(do(s, k, rec), host(k.host)+k.path)
		sym.Cover("counted")
	}
	lib.Show(s).Same(want)
	// the page view was answered, too
	want.Add(200, "h/metrics")
	lib.Show(s).Same(want)
}

// H_paths: paths and codes are told apart.
func H_paths() {
	env.Init()
	s, u := server(proxy, nil)
	codes := []int{200, 201, 404, 502, 999}
	want := lib.Count{}
	n := 2 + sym.Case(2)
	for i := 0; i < n; i++ {
		p := sym.String("path", 1)
		sym.Assume(sym.Or(sym.And(p[0] >= 'a', p[0] <= 'z'), sym.And(p[0] >= '0', p[0] <= '9')))
		code := codes[sym.Choose("code", len(codes)-n+2)]
		u.Answer = func(r *http.Request) *http.Response { return u.Resp(code, "", http.Header{}) }
		rec := env.NewRec()
		want.Add(do(s, kind{"GET", "h", "/" + p}, rec), "h/"+p)
		sym.Assert(rec.Code == code, "the code of the upstream")
	}
	lib.Show(s).Same(want)
	sym.Cover("shown")
}

// H_utf8: paths that are no UTF-8 are counted, too.
func H_utf8() {
	env.Init()
	s, _ := server(sym.Case(2), nil)
	b := sym.String("byte", 1)
	sym.Assume(b[0] >= 0x80)
	do(s, kind{"GET", "h", "/" + b}, env.NewRec())
	do(s, kind{"GET", "h", "/" + b}, env.NewRec())
	want := lib.Count{}
	want.Add(404, "h/\uFFFD")
	want.Add(404, "h/\uFFFD")
	lib.Show(s).Same(want)
	sym.Cover("shown")
}

// H_load: counting goes on from what was saved.
func H_load() {
	env.Init()
	saved := []string{
		`{"TotalRequests": 7, "Paths": {"200": {"h/a": 3, "h/x": 1}, "404": {"h/gone": 3}}}`,
		`{"TotalRequests": 0, "Paths": {}}`,
		`{"TotalRequests": 4, "Paths": null}`,
		`{"TotalRequests": 5, "Paths": {"200": {"h/a": 5}, "301": {}}}`,
	}
	wants := []lib.Count{
		{Total: 7, Sum: 7, Paths: map[string]int{"200 h/a": 3, "200 h/x": 1, "404 h/gone": 3}},
		{},
		{Total: 4},
		{Total: 5, Sum: 5, Paths: map[string]int{"200 h/a": 5}},
	}
	i := sym.Case(len(saved))
	env.Put("/m/out.json", saved[i])
	want := wants[i]
	s, _ := server(sym.Choose("mode", modes), nil)
	for i := 0; i < 2; i++ {
		k := kinds[[]int{0, 2, 5, 6}[sym.Choose("request", 4)]]
		want.Add(do(s, k, env.NewRec()), k.host+k.path)
	}
	lib.Show(s).Same(want)
	sym.Cover("shown")
}

// H_off: without metrics nothing is counted.
func H_off() {
	env.Init()
	env.Put("/m/out.json", `{"TotalRequests": 7, "Paths": {"200": {"h/a": 7}}}`)
	var on bool
	s, _ := server(sym.Case(modes), func(c *tuna.Config) {
		switch sym.Choose("off", 2) {
		case 0:
			c.Core.Metrics.Enabled = false
		case 1:
			c.Core.TLS.Enabled = false
			on = true
		}
	})
	for i := 0; i < 2; i++ {
		k := kinds[sym.Choose("request", len(kinds))]
		do(s, k, env.NewRec())
	}
	if on {
		lib.Show(s).Same(lib.Count{})
		sym.Cover("shown")
	} else {
		rec := env.NewRec()
		lib.View(s, rec)
		sym.Assert(rec.Code == 404 || s.Cfg.Proxy.Enabled, "there is no metrics page")
		sym.Assert(!strings.Contains(rec.Body, "Total requests"), "there is no metrics page")
		sym.Cover("none")
	}
}

// H_gone: a client that disconnects while reading the page does no harm.
func H_gone() {
	env.Init()
	s, _ := server(sym.Case(modes), nil)
	want := lib.Count{}
	for i := 0; i < 2; i++ {
		want.Add(do(s, kinds[5*i], env.NewRec()), "h"+kinds[5*i].path)
	}
	rec := env.NewRec()
	rec.FailAt = 1 + sym.Choose("fails at", 12)
	lib.View(s, rec)
	want.Add(200, "h/metrics")
	want.Add(do(s, kinds[5], env.NewRec()), "h"+kinds[5].path)
	lib.Show(s).Same(want)
	sym.Cover("shown")
}

// H_conc: requests, page views and saves at the same time.
func H_conc() {
	env.Init()
	what := sym.Case(6)
	s, _ := server(serve, nil)
	want := lib.Count{}
	req := func(k kind) {
		sym.Go(func() { sym.Assert(do(s, k, env.NewRec()) == 404, "answered") })
		want.Add(404, "h"+k.path)
	}
	x, y := kind{"GET", "h", "/x"}, kind{"GET", "h", "/y"}
	switch what {
	case 0: // the same path
		req(x)
		req(x)
	case 1: // two paths
		req(x)
		req(y)
	case 2: // a page view
		do(s, x, env.NewRec())
		want.Add(404, "h/x")
		req(x)
		view(s, &want, 0)
	case 3: // a page view that breaks off
		req(x)
		view(s, &want, 1+sym.Choose("fails at", 4))
	case 4: // the counter exists already
		do(s, y, env.NewRec())
		want.Add(404, "h/y")
		req(y)
		req(x)
	case 5: // two page views
		view(s, &want, 0)
		view(s, &want, 0)
	}
	sym.Wait()
	lib.Show(s).Same(want)
	sym.Cover("shown")
}

func view(s *tuna.Server, want *lib.Count, fail int) {
	want.Add(200, "h/metrics")
	sym.Go(func() {
		rec := env.NewRec()
		rec.FailAt = fail
		lib.View(s, rec)
		sym.Assert(rec.Code == 200, "the metrics page is shown")
		if fail == 0 {
			c := lib.Parse(rec.Body)
			sym.Assert(c.Total == c.Sum, "the numbers add up")
		}
	})
}

// H_save: saves at the same time as requests and page views.
func H_save() {
	env.Init()
	what := sym.Case(3)
	// the periodic save starts when the gate opens
	var gate sync.Mutex
	gate.Lock()
	env.SleepLeft = 1
	env.OnSleep = func(d time.Duration) {
		if env.SleepLeft > 0 {
			sym.Gate(&gate)
		}
	}
	s, _ := server(serve, nil)
	want := lib.Count{}
	x := kind{"GET", "h", "/x"}
	if what != 1 {
		want.Add(404, "h/x")
		sym.Go(func() { do(s, x, env.NewRec()) })
	}
	if what != 0 {
		view(s, &want, 0)
	}
	gate.Unlock()
	sym.Wait()
	sym.Quiesce()
	sym.Observe("slept", len(env.Slept))
	sym.Observe("left", env.SleepLeft)
	sym.Observe("ops", len(env.OpNames))
	sym.Assert(len(env.Slept) == 2, "the save ended")
	lib.Show(s).Same(want)
	sym.Cover("shown")
}

// H_three: three at once.
func H_three() {
	env.Init()
	s, _ := server(serve, nil)
	want := lib.Count{}
	ks := []kind{{"GET", "h", "/x"}, {"GET", "h", "/y"}}
	n := sym.Case(3)
	for i := 0; i < 3; i++ {
		k := ks[0]
		if i < n {
			k = ks[1]
		}
		want.Add(404, "h"+k.path)
		sym.Go(func() { do(s, k, env.NewRec()) })
	}
	sym.Wait()
	lib.Show(s).Same(want)
	sym.Cover("shown")
}

// H_guard: refused requests are counted like others.
func H_guard() {
	env.Init()
	env.Put("/e/page", "custom")
	c := sym.Case(modes * 5)
	kind, page := c/modes, sym.Choose("custom page", 2) == 1
	guard = func(c *tuna.Config) {
		if page {
			c.Errors = map[string]string{"403": "/e/page", "404": "/e/gone", "429": "/e/page"}
		}
		g := &c.Guard
		switch kind {
		case 0: // no budget
			g.RateBurst = 0
		case 1: // a budget of one
			g.RateBurst = 1
			g.FilterOnIP = true
		case 2: // nobody is listed
			g.Firewall.Enabled = true
		case 3: // some clients are
			g.Firewall.Enabled, g.Firewall.Blacklisting = true, true
			g.Firewall.Rules = map[string][]string{"/a": {"192.0.2.1"}, "/gone": {"192.0.2.2"}}
		case 4: // both
			g.RateBurst = 1
			g.Firewall.Enabled = true
			g.Firewall.Rules = map[string][]string{"/a": {"192.0.2.1"}, "/": {"192.0.2.2"}}
		}
	}
	s, _ := server(c%modes, nil)
	guard = nil
	want := lib.Count{}
	n := 2
	if sym.Thorough() {
		n = 3
	}
	for i := 0; i < n; i++ {
		k := kinds[[]int{0, 1, 2, 4, 5, 8}[sym.Choose("request", 6)]]
		r := env.Req(k.method, k.host, k.path)
		if sym.Choose("client", 2) == 1 {
			r.RemoteAddr = "192.0.2.2:80"
		}
		if sym.Choose("content type", 2) == 1 {
			r.Header["Content-Type"] = []string{"x/y"}
		}
		rec := lib.Do(s, r)
		want.Add(rec.Code, host(k.host)+k.path)
		sym.Cover([]string{"answered", "refused"}[b2i(rec.Code == 403 || rec.Code == 429)])
	}
	lib.Show(s).Same(want)
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// free lifts the limiter.
func free(c *tuna.Config) { c.Guard.RateBurst = 1 << 30 }

// H_scale: many paths, many requests for few paths, many saves.
func H_scale() {
	env.Init()
	kind := sym.Case(4)
	s, u := server([]int{serve, proxy, serve, vhost}[kind], free)
	want := lib.Count{}
	get := func(p string) { want.Add(do(s, kind0(p), env.NewRec()), "h"+p) }
	switch kind {
	case 0, 1:
		codes := []int{200, 404, 302, 500}
		n := sym.Size("paths", 120, 1200)
		for i := 0; i < n; i++ {
			u.Answer = func(r *http.Request) *http.Response { return u.Resp(codes[i%(1+2*kind)], "", http.Header{}) }
			get("/p" + strconv.Itoa(i))
		}
		get("/p0")
		get("/p" + strconv.Itoa(n-1))
		get("/p" + strconv.Itoa(n/2))
	case 2:
		n := sym.Size("requests", 150, 1200)
		for i := 0; i < n; i++ {
			get([]string{"/a", "/gone", "/b.txt"}[i%3])
		}
	case 3:
		n := sym.Size("views", 20, 200)
		for i := 0; i < n; i++ {
			get("/" + strconv.Itoa(i%7))
			lib.View(s, env.NewRec())
			want.Add(200, "h/metrics")
		}
	}
	lib.Show(s).Same(want)
	sym.Cover("shown")
}

func kind0(p string) kind { return kind{"GET", "h", p} }

// H_names: long paths, all methods, well-known paths and hosts.
func H_names() {
	env.Init()
	s, u := server(sym.Choose("mode", modes), free)
	ps := []string{"", "/favicon.ico", "/robots.txt", "/healthz", "/ping", "/metrics", "/metrics/", "/metricsx", "/a/", "/index.html", "/i.txt", "/%41", "/a b", "/A", "/.well-known/x", "/h", "/q"}
	hosts := []string{"h", "g", "www.h", "H", "127.0.0.1", "localhost", "::1", "", lib.WordHost("q")}
	c := sym.Case(len(ps))
	p, h, m, agent := ps[c], "h", "GET", ""
	switch sym.Choose("vary", 4) {
	case 0:
		h = hosts[sym.Choose("host", len(hosts))]
	case 1:
		m = lib.AnyMethod()
	case 2:
		agent = []string{"kube-probe/1.0", "bot", "Mozilla/5.0", lib.WordText("curl")}[sym.Choose("agent", 4)]
	case 3:
		p = lib.WordPath(p + "/q")
		sym.Assume(lib.Resolve(p) == p)
	}
	if c == 0 && p == "" {
		p = "/" + lib.Repeat(sym.Size("length", []int{10, 127, 300, 3000}[sym.Choose("size", 4)], 1<<16))
	}
	want := lib.Count{}
	get := func(p string) {
		rq := env.Req(m, h, p)
		if h == "::1" {
			rq.Host = "[::1]:8"
		}
		rq.Header["User-Agent"] = []string{agent}
		rq.RemoteAddr, _ = lib.WordClient("127.0.0.1:5", "127.0.0.1")
		want.Add(lib.Do(s, rq).Code, h+p)
	}
	for i := 0; i < 2; i++ {
		u.Answer = func(r *http.Request) *http.Response { return u.Resp(200+100*i, "", http.Header{}) }
		get(p)
		get(p + "y")
	}
	lib.Show(s).Same(want)
	sym.Cover("shown")
}

// H_big: counting goes on from large saved numbers.
func H_big() {
	env.Init()
	b := []int{1<<31 - 2, 1<<31 - 1, 1<<32 - 2, 1<<32 - 1, 1 << 40, 65535, 32767, 255, 999999999}[sym.Case(9)]
	v := strconv.Itoa(b)
	env.Put("/m/out.json", `{"TotalRequests": `+v+`, "Paths": {"200": {"h/a": `+v+`}}}`)
	s, _ := server(serve, free)
	want := lib.Count{Total: b, Sum: b, Paths: map[string]int{"200 h/a": b}}
	for i := 0; i < 2; i++ {
		want.Add(do(s, kind0("/a"), env.NewRec()), "h/a")
		want.Add(do(s, kind0("/gone"), env.NewRec()), "h/gone")
	}
	lib.Show(s).Same(want)
	sym.Cover("shown")
}
