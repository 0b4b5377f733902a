// Package c09 decides property C09: concurrent requests of one client.
package c09

import (
	"net/http"
	"sync"

	"github.com/redmaner/MaguroHTTP/guard"
	"github.com/redmaner/MaguroHTTP/router"
	"github.com/redmaner/MaguroHTTP/verif/env"
	"github.com/redmaner/MaguroHTTP/verif/sym"
)

type world struct {
	mu  sync.Mutex
	ran map[string]int
	ref map[string]int
	h   http.HandlerFunc
}

func setup(burst int, filter bool) *world {
	w := &world{ran: map[string]int{}, ref: map[string]int{}}
	l := guard.NewLimiter(60, burst, filter)
	l.ErrorHandler = router.ErrorHandler(func(rw http.ResponseWriter, r *http.Request, code int) {
		w.mu.Lock()
		w.ref[router.StripHostPort(r.RemoteAddr)]++
		w.mu.Unlock()
		rw.WriteHeader(code)
	})
	w.h = l.LimitHTTP(func(rw http.ResponseWriter, r *http.Request) {
		w.mu.Lock()
		w.ran[router.StripHostPort(r.RemoteAddr)]++
		w.mu.Unlock()
		rw.WriteHeader(204)
	})
	return w
}

func (w *world) send(host, port, ua string) int {
	r := env.Req("GET", "h", "/")
	r.RemoteAddr = host + ":" + port
	r.Header["User-Agent"] = []string{ua}
	rec := env.NewRec()
	w.h(rec, r)
	rec.Done()
	return rec.Code
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func run(n, others int) {
	env.Init()
	burst := sym.Case(4)
	w := setup(burst, sym.Choose("filter", 2) == 1)
	before := sym.Choose("earlier requests", 2)
	for i := 0; i < before; i++ {
		w.send("1.1.1.1", "9", "x")
	}
	for i := 0; i < n; i++ {
		port := string([]byte{'1' + byte(i)})
		sym.Go(func() {
			c := w.send("1.1.1.1", port, "x")
			sym.Assert(c == 204 || c == 429, "handled or refused")
		})
	}
	for i := 0; i < others; i++ {
		sym.Go(func() {
			c := w.send("2.2.2.2", "1", "x")
			sym.Assert((c == 204) == (burst > 0), "another client has its own budget")
		})
	}
	sym.Wait()
	total := n + before
	sym.Observe("handled", w.ran["1.1.1.1"])
	sym.Assert(w.ran["1.1.1.1"] == min(total, burst), "exactly the budget of the client is handled")
	sym.Assert(w.ref["1.1.1.1"] == total-min(total, burst), "the rest is refused")
	sym.Assert(w.send("1.1.1.1", "8", "x") == 429 == (total >= burst), "the budget is used up for later requests too")
	sym.Cover("end")
}

// H_two: two concurrent requests of one client.
func H_two() { run(2, 0) }

// H_three: three concurrent requests of one client.
func H_three() { run(3, 0) }

// H_other: two concurrent requests of one client and one of another.
func H_other() { run(2, 1) }

// H_ident: two concurrent requests whose addresses and User-Agents are equal or not.
func H_ident() {
	env.Init()
	filter := sym.Case(2) == 1
	l := guard.NewLimiter(60, 1, filter)
	l.ErrorHandler = router.ErrorHandler(func(rw http.ResponseWriter, r *http.Request, code int) { rw.WriteHeader(code) })
	h := l.LimitHTTP(func(rw http.ResponseWriter, r *http.Request) { rw.WriteHeader(204) })
	a, b := sym.String("address", 1), sym.String("other address", 1)
	u, v := sym.String("agent", 1), sym.String("other agent", 1)
	sym.Assume(sym.Not(sym.Or(sym.In(a[0], ":[] "), sym.In(b[0], ":[] "))))
	sym.Assume(sym.Not(sym.Or(sym.In(u[0], "\r\n"), sym.In(v[0], "\r\n"))))
	var codes [3]int
	send := func(i int, host, ua string) {
		r := env.Req("GET", "h", "/")
		r.RemoteAddr = host + ":1"
		r.Header["User-Agent"] = []string{ua}
		rec := env.NewRec()
		h(rec, r)
		rec.Done()
		codes[i] = rec.Code
	}
	sym.Go(func() { send(0, a, u) })
	sym.Go(func() { send(1, b, v) })
	sym.Wait()
	send(2, b, v)
	same := sym.EqStr(a, b)
	if !filter {
		same = sym.And(same, sym.EqStr(u, v))
	}
	n := 0
	for _, c := range codes[:2] {
		sym.Assert(c == 204 || c == 429, "handled or refused")
		if c == 204 {
			n++
		}
	}
	sym.Observe("codes", codes[:])
	sym.Assert(n >= 1, "a new client has its budget")
	sym.Assert(sym.Iff(n == 1, same), "two clients have two budgets, one client has one")
	sym.Assert(codes[2] == 429, "the budget is used up for later requests too")
	sym.Cover("end")
}
