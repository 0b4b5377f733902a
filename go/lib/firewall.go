package lib

import (
	"net/http"

	"github.com/redmaner/MaguroHTTP/guard"
	"github.com/redmaner/MaguroHTTP/router"
	"github.com/redmaner/MaguroHTTP/verif/env"
	"github.com/redmaner/MaguroHTTP/verif/sym"
)

// FwListed states the reference notion of a listed client: some rule for p or an ancestor of p
// names the client or "*"; the rule for "/" counts for deeper paths only without subpath mode.
func FwListed(rules map[string][]string, subpath bool, p, client string) bool {
	l := false
	anc := Ancestors(p)
	for i, a := range anc {
		if a == "/" && i > 0 && subpath {
			continue
		}
		for k, vs := range rules {
			if len(k) != len(a) {
				continue
			}
			for _, v := range vs {
				l = sym.Or(l, sym.And(sym.EqStr(k, a), sym.Or(sym.EqStr(v, client), sym.EqStr(v, "*"))))
			}
		}
	}
	return l
}

// FwClient chooses a client and returns its remote address and its address without port.
func FwClient() (addr, host string) {
	switch sym.Choose("client kind", 5) {
	case 0:
		host = sym.String("client", 1)
		addr = host + ":1"
	case 1:
		host = sym.String("client", 2)
		addr = host + ":40000"
	case 2:
		host = sym.String("client", 1)
		addr = host
	case 3:
		c := sym.String("client", 1)
		host = "::" + c
		addr = "[" + host + "]:9"
	default:
		return "1.2.3.4:5", "1.2.3.4"
	}
	for i := 0; i < len(host); i++ {
		if i < 2 && host[i] == ':' && sym.IsConcrete(host[i]) {
			continue
		}
		sym.Assume(sym.Not(sym.In(host[i], ":[]*")))
	}
	return
}

// FwRule chooses the list of one rule.
func FwRule(name string, kinds int) ([]string, bool) {
	switch sym.Choose("rule "+name, kinds) {
	case 0:
		return nil, false
	case 1:
		return []string{sym.String(name, 1)}, true
	case 2:
		return []string{sym.String(name+" 1", 1), sym.String(name+" 2", 2)}, true
	case 3:
		return []string{}, true
	}
	return []string{"1.2.3.4", "::" + sym.String(name, 1)}, true
}

// FwRun sends one request through the firewall and compares its decision with listed.
func FwRun(f *guard.Firewall, proxy bool, rules map[string][]string, p, addr, host string) {
	listed := FwListed(rules, f.Subpath, p, host)
	ran, code := 0, 0
	if f.ErrorHandler == nil {
		f.ErrorHandler = router.ErrorHandler(func(w http.ResponseWriter, r *http.Request, c int) {
			sym.Assert(code == 0 && ran == 0, "answered once")
			code = c
		})
	}
	h := http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { ran++ })
	if proxy {
		h = f.BlockProxy(h)
	} else {
		h = f.BlockHTTP(h)
	}
	r := env.Req("GET", "h", p)
	r.RemoteAddr = addr
	rec := env.NewRec()
	h(rec, r)
	rec.Done()
	if rec.Code != 200 {
		code = rec.Code
	}
	sym.Observe("ran", ran)
	sym.Observe("code", code)
	if ran > 0 {
		sym.Cover("handled")
		sym.Assert(ran == 1 && code == 0, "handled once and not refused")
		sym.Assert(sym.Iff(f.Blacklisting, sym.Not(listed)), "only allowed clients are handled")
	} else {
		sym.Cover("refused")
		sym.Assert(code == 403, "refused with 403")
		sym.Assert(sym.Iff(f.Blacklisting, listed), "only disallowed clients are refused")
	}
}

func fw() *guard.Firewall {
	f := guard.NewFirewall()
	f.Blacklisting = sym.Bool("blacklisting")
	f.Subpath = sym.Bool("subpath")
	if sym.Choose("error handler", 2) == 1 {
		f.ErrorHandler = nil
	}
	return f
}

// FwTable: every choice of rules on four nodes for a fixed set of request paths.
func FwTable(proxy bool) {
	env.Init()
	f := fw()
	rules := map[string][]string{}
	kinds := 3
	if sym.Thorough() {
		kinds = 4
	}
	for _, k := range []string{"/", "/a", "/a/b"} {
		if l, ok := FwRule(k, kinds); ok {
			rules[k] = l
		}
	}
	if sym.Thorough() || sym.Choose("rule /b", 2) == 1 {
		rules["/b"] = []string{sym.String("/b", 1)}
	}
	f.Rules = rules
	paths := []string{"/", "/a", "/a/", "/a/b", "/a/b/", "/a/b/c", "/a/b/c/d/", "/b", "/b/a", "/ab", "/a/bc", "/c", "/a/c"}
	addr, host := FwClient()
	FwRun(f, proxy, rules, paths[sym.Case(len(paths))], addr, host)
}

// FwPath: every short canonical path.
func FwPath(proxy bool) {
	env.Init()
	f := fw()
	n := 5
	if sym.Thorough() {
		n = 8
	}
	p := "/" + sym.String("path", sym.Case(n))
	sym.Assume(p == Resolve(p))
	who := sym.String("rule", 1)
	rules := map[string][]string{}
	key := []string{"/", "/a", "/a/b", "/a.b", "/a/b/c", "/a/", "/a/b/"}[sym.Choose("rule", 7)]
	rules[key] = []string{"x", who}
	if k := sym.Choose("second rule", 3); k > 0 {
		key2 := []string{"/b", "/"}[k-1]
		if key2 != key {
			rules[key2] = []string{who}
		}
	}
	f.Rules = rules
	host := sym.String("client", 1)
	sym.Assume(sym.Not(sym.In(host[0], ":[]*")))
	FwRun(f, proxy, rules, p, host+":1", host)
}

// FwNil: no rules at all.
func FwNil(proxy bool) {
	env.Init()
	f := fw()
	if sym.Choose("rules", 2) == 1 {
		f.Rules = map[string][]string{}
	}
	addr, host := FwClient()
	FwRun(f, proxy, nil, []string{"/", "/a", "/a/b/"}[sym.Case(3)], addr, host)
}

// FwConc: concurrent requests are decided independently.
func FwConc(proxy bool) {
	env.Init()
	f := &guard.Firewall{Blacklisting: sym.Bool("blacklisting"), Subpath: sym.Bool("subpath"), Rules: map[string][]string{"/a": {"1"}}}
	f.ErrorHandler = router.ErrorHandler(func(w http.ResponseWriter, r *http.Request, c int) { w.WriteHeader(c) })
	h := http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { w.WriteHeader(204) })
	if proxy {
		h = f.BlockProxy(h)
	} else {
		h = f.BlockHTTP(h)
	}
	for i := 0; i < 3; i++ {
		addr := []string{"1:1", "2:1", "1:2"}[i]
		sym.Go(func() {
			r := env.Req("GET", "h", "/a")
			r.RemoteAddr = addr
			rec := env.NewRec()
			h(rec, r)
			rec.Done()
			want := 204
			if (addr[0] == '1') == f.Blacklisting {
				want = 403
			}
			sym.Assert(rec.Code == want, "each request is decided on its own")
		})
	}
	sym.Wait()
	sym.Cover("done")
}

// FwScale: long lists, deep paths, many rules.
func FwScale(proxy bool) {
	env.Init()
	f := fw()
	rules := map[string][]string{}
	host := "ip" + sym.String("client", 1)
	sym.Assume(sym.Not(sym.In(host[2], ":[]*/")))
	p := "/a/b"
	switch sym.Case(3) {
	case 0:
		n := sym.Size("entries", 26, 300)
		var l []string
		for i := 0; i < n; i++ {
			l = append(l, string([]byte{'i', 'p', 'A' + byte(i%50)}))
		}
		rules[[]string{"/", "/a", "/a/b"}[sym.Choose("rule", 3)]] = l
	case 1:
		n := sym.Size("depth", []int{6, 24}[sym.Choose("depth", 2)], 200)
		p = "/a"
		keys := []string{"/", "/a"}
		for i := 0; i < n; i++ {
			p += "/s"
			if i == n/2 || i == n-2 || i == n-1 {
				keys = append(keys, p)
			}
		}
		rules[keys[sym.Choose("rule", len(keys))]] = []string{"ipa", "ipb"}
		if k := keys[sym.Choose("second rule", len(keys))]; rules[k] == nil {
			rules[k] = []string{"ipc"}
		}
		if sym.Choose("trailing", 2) == 1 {
			p += "/"
		}
	case 2:
		n := sym.Size("rules", 60, 400)
		for i := 0; i < n; i++ {
			rules[string([]byte{'/', 'r', 'a' + byte(i%26), 'a' + byte(i/26)})] = []string{"ip" + string([]byte{'A' + byte(i%50)})}
		}
		i := []int{0, n / 2, n - 1}[sym.Choose("which", 3)]
		p = string([]byte{'/', 'r', 'a' + byte(i%26), 'a' + byte(i/26)})
		if sym.Choose("below", 2) == 1 {
			p += "/x"
		}
	}
	f.Rules = rules
	FwRun(f, proxy, rules, p, host+":1", host)
}

// FwRequest: nothing but the address and the path decides.
func FwRequest(proxy bool) {
	env.Init()
	f := &guard.Firewall{Blacklisting: sym.Bool("blacklisting"), Subpath: sym.Bool("subpath")}
	addr, host := "8.8.8.8:1", "8.8.8.8"
	p := Resolve(WordPath("/a/b"))
	m := "GET"
	k := sym.Case(3)
	switch k {
	case 0:
		m = AnyMethod()
	case 1:
		addr, host = AnyClient()
	case 2:
		addr, host = WordClient(addr, host)
		m = WordMethod("GET")
	}
	keys := Ancestors(p)
	rules := map[string][]string{}
	who := []string{host, WordText("9.9.9.9"), "*", "10.0.0.0/8", "127.0.0.1"}[sym.Choose("listed", 5)]
	key := keys[sym.Choose("rule", len(keys))]
	rules[key] = []string{"7.7.7.7", who}
	f.Rules = rules
	listed := FwListed(rules, f.Subpath, p, host)
	f.ErrorHandler = router.ErrorHandler(func(w http.ResponseWriter, r *http.Request, c int) { w.WriteHeader(c) })
	n := sym.Size("requests", 3, 300)
	ran := 0
	h := http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { ran++; w.WriteHeader(204) })
	if proxy {
		h = f.BlockProxy(h)
	} else {
		h = f.BlockHTTP(h)
	}
	for i := 0; i < n; i++ {
		r := env.Req(m, WordHost("h"), p)
		r.RemoteAddr = addr
		rec := env.NewRec()
		h(rec, r)
		rec.Done()
		if listed != f.Blacklisting {
			sym.Assert(ran == i+1 && rec.Code == 204, "an allowed client is handled")
		} else {
			sym.Assert(ran == 0 && rec.Code == 403, "a disallowed client is refused with 403")
		}
	}
}
