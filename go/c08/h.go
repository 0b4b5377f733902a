// Package c08 decides property C08: every client has its own request budget.
package c08

import (
	"net/http"

	"github.com/redmaner/MaguroHTTP/guard"
	"github.com/redmaner/MaguroHTTP/router"
	"github.com/redmaner/MaguroHTTP/verif/env"
	"github.com/redmaner/MaguroHTTP/verif/lib"
	"github.com/redmaner/MaguroHTTP/verif/sym"
)

type client struct{ host, ua string }

// pairs of clients, among them ones whose address and User-Agent are easily confused
var pairs = [][2]client{
	{{"1.2.3.4", ""}, {"1.2.3.5", ""}},
	{{"1.2.3.4", "5"}, {"1.2.3.45", ""}},
	{{"1.2.3.4", "UA"}, {"1.2.3.4", "ua"}},
	{{"1.2.3.4", ""}, {"1.2.3.4", "x"}},
	{{"::1", "5"}, {"::15", ""}},
	{{"::1", ""}, {"1", ""}},
	{{"a", "bc"}, {"ab", "c"}},
	{{"::1", "::2"}, {"::2", "::1"}},
	{{"1.2.3.4", "5 6"}, {"1.2.3.45", "6"}},
	{{"1.2.3.4", "curl/7"}, {"9.9.9.9", "curl/7"}},
	{{"fe80::1%eth0", ""}, {"fe80::1%eth1", ""}},
	{{"1.2.3.4", " "}, {"1.2.3.4", "  "}},
}

func addr(c client, port int) string {
	p := []string{"1", "65535", "80"}[port]
	for i := 0; i < len(c.host); i++ {
		if c.host[i] == ':' {
			return "[" + c.host + "]:" + p
		}
	}
	return c.host + ":" + p
}

func request(c client, port int) *http.Request {
	r := env.Req("GET", "h", "/")
	r.RemoteAddr = addr(c, port)
	if c.ua != "" {
		r.Header["User-Agent"] = []string{c.ua}
	}
	return r
}

func newLimiter(burst int, filter bool) *guard.Limiter {
	rate := []float64{60, 1, 0.5, 6000}[sym.Choose("rate per minute", 4)]
	return guard.NewLimiter(rate, burst, filter)
}

type counter struct{ ran, codes int }

func guarded(l *guard.Limiter, n *counter) http.HandlerFunc {
	if sym.Choose("error handler", 2) == 1 {
		l.ErrorHandler = router.ErrorHandler(func(w http.ResponseWriter, r *http.Request, code int) {
			sym.Assert(code == 429, "refused with 429")
			n.codes++
			w.WriteHeader(code)
		})
	}
	return l.LimitHTTP(func(w http.ResponseWriter, r *http.Request) {
		n.ran++
		w.WriteHeader(204)
	})
}

// send sends one request and returns whether it was handled.
func send(h http.HandlerFunc, n *counter, r *http.Request) bool {
	n.ran, n.codes = 0, 0
	rec := env.NewRec()
	h(rec, r)
	rec.Done()
	sym.Assert(n.ran+boolInt(rec.Code == 429) == 1, "either handled or refused with 429")
	return n.ran == 1
}

func boolInt(b bool) int {
	if b {
		return 1
	}
	return 0
}

// H_pair: any sequence of requests of two clients.
func H_pair() {
	env.Init()
	pair := pairs[sym.Case(len(pairs))]
	burst := sym.Choose("burst", 4)
	filter := sym.Bool("filter on address only")
	l := newLimiter(burst, filter)
	var n counter
	h := guarded(l, &n)
	steps := 5
	if sym.Thorough() {
		steps = 7
	}
	same := filter && pair[0].host == pair[1].host
	used := []int{0, 0}
	for i := 0; i < steps; i++ {
		who := sym.Choose("client", 2)
		port := i % 2
		ok := send(h, &n, request(pair[who], port))
		k := who
		if same {
			k = 0
		}
		sym.Assert(ok == (used[k] < burst), "handled iff the client has budget left")
		used[k]++
		if ok {
			sym.Cover("handled")
		} else {
			sym.Cover("refused")
		}
	}
	sym.Observe("used", used)
}

// H_burst: a client gets exactly its burst, whatever the burst.
func H_burst() {
	env.Init()
	burst := []int{0, 1, 2, 3, 4, 5, 6, 7, 1000}[sym.Choose("burst", 9)]
	l := guard.NewLimiter(1+float64(sym.Case(3))*59, burst, true)
	var n counter
	h := guarded(l, &n)
	k := 6
	if sym.Thorough() {
		k = 12
	}
	for i := 0; i < k; i++ {
		ok := send(h, &n, request(client{"1.2.3.4", ""}, sym.Choose("port", 1+boolInt(i < 3)*2)))
		sym.Assert(ok == (i < burst), "handled iff within the burst")
	}
	sym.Cover("end")
}

// H_crowd: many other clients at the same instant change nothing for one client.
func H_crowd() {
	env.Init()
	burst := 2
	filter := sym.Case(2) == 1
	l := guard.NewLimiter(60, burst, filter)
	var n counter
	h := guarded(l, &n)
	me := client{"10.0.0.1", "me"}
	crowd := 40
	at := sym.Choose("first request after", 3)*18 + 1
	used := 0
	for i := 0; i < crowd; i++ {
		if i == at || i == 22 || i == 39 {
			ok := send(h, &n, request(me, 0))
			sym.Assert(ok == (used < burst), "the budget of a client is its own")
			used++
		}
		o := client{"10.0.1." + string([]byte{'0' + byte(i/10), '0' + byte(i%10)}), "me"}
		sym.Assert(send(h, &n, request(o, 0)), "a new client has its full budget")
	}
	sym.Assert(used == 3, "three requests")
	sym.Cover("end")
}

// H_ident: every pair of short client identities.
func H_ident() {
	env.Init()
	n := 3
	if sym.Thorough() {
		n = 4
	}
	c := sym.Case(n * n * 2)
	uaLen := 3
	if sym.Thorough() {
		uaLen = 4
	}
	filter := c%2 == 1
	mk := func(name string, n int) client {
		h := sym.String("address of "+name, n)
		u := sym.String("agent of "+name, sym.Choose("agent length", uaLen))
		for i := 0; i < len(h); i++ {
			sym.Assume(sym.Not(sym.In(h[i], ":[] ")))
		}
		for i := 0; i < len(u); i++ {
			sym.Assume(sym.And(u[i] != '\r', u[i] != '\n'))
		}
		return client{h, u}
	}
	a, b := mk("A", 1+c/2%n), mk("B", 1+c/2/n)
	burst := 1 + sym.Choose("burst", 2)
	l := guard.NewLimiter(60, burst, filter)
	var k counter
	h := l.LimitHTTP(func(w http.ResponseWriter, r *http.Request) { k.ran++ })
	same := sym.EqStr(a.host, b.host)
	if !filter {
		same = sym.And(same, sym.EqStr(a.ua, b.ua))
	}
	seq := []client{a, b, a, b, a}
	for i, x := range seq {
		r := env.Req("GET", "h", "/")
		r.RemoteAddr = x.host + []string{":1", ":2", ":65535", ":80", ":9"}[i]
		r.Header["User-Agent"] = []string{x.ua}
		ok := send(h, &k, r)
		if i == 1 {
			// decided by the solver: a new client is handled, the same client by its budget
			sym.Assert(sym.Or(sym.Iff(ok, true), same), "a client with another identity has its own budget")
			sym.Assert(sym.Implies(same, ok == (burst > 1)), "requests of one client share one budget")
		}
		if i < 2 {
			continue
		}
		if i == 2 || i == 3 {
			sym.Assert(sym.Implies(same, ok == (i < burst)), "requests of one client share one budget")
			sym.Assert(sym.Or(same, ok == (1 < burst)), "a client with another identity has its own budget")
		}
		if i == 4 {
			sym.Assert(!ok, "beyond the burst")
		}
	}
	sym.Cover("end")
}

// H_long: long addresses and User-Agents identify a client as a whole.
func H_long() {
	env.Init()
	n := sym.Size("length", []int{40, 130, 300}[sym.Case(3)], 1000)
	long := make([]byte, n)
	for i := range long {
		long[i] = 'x'
	}
	at := []int{0, n / 2, n - 1}[sym.Choose("position", 3)]
	other := string(long[:at]) + sym.String("byte", 1) + string(long[at+1:])
	a, b := client{"1.2.3.4", string(long)}, client{"1.2.3.4", other}
	filter := false
	if sym.Choose("address", 2) == 1 {
		filter = sym.Choose("filter", 2) == 1
		a, b = client{a.ua, "ua"}, client{b.ua, "ua"}
		sym.Assume(sym.Not(sym.In(other[at], ":[] ")))
	} else {
		sym.Assume(sym.And(other[at] != '\r', other[at] != '\n'))
	}
	l := guard.NewLimiter(60, 1, filter)
	var k counter
	h := l.LimitHTTP(func(w http.ResponseWriter, r *http.Request) { k.ran++ })
	for i, x := range []client{a, b, a, b} {
		r := env.Req("GET", "h", "/")
		r.RemoteAddr = x.host + ":1"
		r.Header["User-Agent"] = []string{x.ua}
		ok := send(h, &k, r)
		same := other[at] == 'x'
		switch i {
		case 0:
			sym.Assert(ok, "a new client has its full budget")
		case 1:
			sym.Assert(sym.Iff(ok, sym.Not(same)), "a client with another identity has its own budget, the same client has not")
		default:
			sym.Assert(!ok, "beyond the burst")
		}
	}
}

// H_request: nothing but the identity decides.
func H_request() {
	env.Init()
	burst := []int{0, 1, 2}[sym.Choose("burst", 3)]
	l := guard.NewLimiter(60, burst, sym.Choose("filter", 2) == 1)
	m, addr, path, host, ua := "GET", "8.8.8.8:1", "/", "h", "x"
	switch sym.Case(3) {
	case 0:
		m = lib.AnyMethod()
	case 1:
		addr, _ = lib.AnyClient()
	case 2:
		m, path, host, ua = lib.WordMethod("GET"), lib.WordPath("/"), lib.WordHost("h"), lib.WordText("x")
	}
	ran := 0
	h := l.LimitHTTP(func(w http.ResponseWriter, r *http.Request) { ran++ })
	for i := 0; i < 4; i++ {
		r := env.Req(m, host, path)
		r.RemoteAddr = addr
		r.Header["User-Agent"] = []string{ua}
		if i == 3 {
			r.Method, r.Host, r.URL.Path = "POST", "other", "/other"
		}
		rec := env.NewRec()
		h(rec, r)
		rec.Done()
		if i < burst {
			sym.Assert(ran == i+1, "within the burst")
		} else {
			sym.Assert(ran == burst && rec.Code == 429, "beyond the burst")
		}
	}
}

// H_large: large bursts are granted in full.
func H_large() {
	env.Init()
	burst := []int{64, 100, 200, 256, 257, 1 << 16, 1<<16 + 1, 1<<16 + 2, 1 << 31}[sym.Case(9)]
	burst = sym.Size("burst", burst, 1<<16+1)
	l := guard.NewLimiter([]float64{60, 0.001}[sym.Choose("rate", 2)], burst, sym.Choose("filter", 2) == 1)
	var n counter
	h := guarded(l, &n)
	k := burst + 2
	if k > 260 {
		k = 20
	}
	for i := 0; i < k; i++ {
		sym.Assert(send(h, &n, request(client{"1.2.3.4", "x"}, 0)) == (i < burst), "handled iff within the burst")
	}
}
