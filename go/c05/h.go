// Package c05 decides property C05: basic authentication.
package c05

import (
	"encoding/base64"
	"net/http"

	"github.com/redmaner/MaguroHTTP/guard"
	"github.com/redmaner/MaguroHTTP/router"
	"github.com/redmaner/MaguroHTTP/verif/env"
	"github.com/redmaner/MaguroHTTP/verif/lib"
	"github.com/redmaner/MaguroHTTP/verif/sym"
)

var tables = []map[string]string{
	{},
	{"u": "p"},
	{"u": ""},
	{"u": "p", "v": "q:"},
	{"": "p"},
	{"": ""},
	{"a:b": "p", "a": "b"},
	{"ab": "c"},
	{"abc": "xyz"},
	{"u": "v", "v": "u"},
}

// request sends one request with the given header values through the guard and
// returns whether the handler ran.
func request(b *guard.BasicAuth, hdr []string) (int, *env.Rec) {
	ran := 0
	h := b.Authenticate(func(w http.ResponseWriter, r *http.Request) {
		ran++
		w.Write([]byte("ok"))
	})
	r := env.Req("GET", "h", "/")
	if hdr != nil {
		r.Header["Authorization"] = hdr
	}
	rec := env.NewRec()
	h(rec, r)
	rec.Done()
	return ran, rec
}

func check(ran int, rec *env.Rec, want bool, custom bool, codes []int) {
	sym.Observe("ran", ran)
	sym.Observe("status", rec.Code)
	if ran > 0 {
		sym.Assert(want, "the handler runs only for configured credentials")
		sym.Assert(ran == 1 && rec.Code == 200 && len(codes) == 0, "the request is answered by the handler alone")
		sym.Assert(rec.Get("Www-Authenticate") == "", "no challenge for an authenticated user")
		sym.Cover("admitted")
		return
	}
	sym.Assert(sym.Not(want), "configured credentials are admitted")
	sym.Cover("refused")
	if custom {
		sym.Assert(len(codes) == 1 && codes[0] == 401, "the unauthorized handler is called with 401")
	} else {
		sym.Assert(rec.Code == 401, "the client is answered 401")
	}
	a := rec.Get("Www-Authenticate")
	sym.Assert(len(a) >= 6 && a[:6] == "Basic ", "the client is challenged")
}

// H_header: every header value against several user tables.
func H_header() {
	env.Init()
	n := 9
	if sym.Thorough() {
		n = 13
	}
	c := sym.Case(len(tables) * (n + 2))
	users := tables[c/(n+2)]
	k := c % (n + 2)
	b := guard.SimpleBasicAuth(users)
	custom := sym.Choose("custom handler", 2) == 1
	var codes []int
	if custom {
		b.UnauthorizedHandler = router.ErrorHandler(func(w http.ResponseWriter, r *http.Request, code int) {
			codes = append(codes, code)
			w.WriteHeader(code)
		})
	}
	var hdr []string
	switch {
	case k == n+1: // no header
		hdr = nil
	case k == n: // a header that is too short
		hdr = []string{sym.String("short", 5)}
	default:
		scheme := sym.String("scheme", 6)
		sym.Assume(sym.Or(sym.EqStr(scheme, "Basic "), sym.EqStr(scheme, "basic "), sym.EqStr(scheme, "Bearer"), sym.EqStr(scheme, "Basic:"), sym.EqStr(scheme, " Basic")))
		hdr = []string{scheme + sym.String("credentials", k)}
	}
	if hdr != nil {
		for i := 0; i < len(hdr[0]); i++ {
			sym.Assume(sym.Not(sym.In(hdr[0][i], "\r\n"))) // cannot occur in a header value
		}
	}
	ran, rec := request(b, hdr)
	want := false
	if hdr != nil {
		for u, p := range users {
			if containsColon(u) {
				continue // can never be given
			}
			want = sym.Or(want, valid(hdr[0], u+":"+p))
		}
	}
	check(ran, rec, want, custom, codes)
}

func containsColon(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] == ':' {
			return true
		}
	}
	return false
}

const alphabet = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"

// valid says whether hdr is "Basic " and a base64 encoding of text; the unused bits of the last
// character of a padded group may have any value (RFC 4648 leaves that to the decoder).
func valid(hdr, text string) bool {
	e := "Basic " + base64.StdEncoding.EncodeToString([]byte(text))
	if len(hdr) != len(e) {
		return false
	}
	free := 0
	switch len(text) % 3 {
	case 1:
		free = 16
	case 2:
		free = 4
	}
	if free == 0 {
		return sym.EqStr(hdr, e)
	}
	i := len(e) - 1
	for e[i] == '=' {
		i--
	}
	var d int
	for d = 0; alphabet[d] != e[i]; d++ {
	}
	d = d / free * free
	last := false
	for j := 0; j < free; j++ {
		last = sym.Or(last, hdr[i] == alphabet[d+j])
	}
	return sym.And(sym.EqStr(hdr[:i], e[:i]), last, sym.EqStr(hdr[i+1:], e[i+1:]))
}

// H_func: a custom authentication function gets the pair that was sent and decides.
func H_func() {
	env.Init()
	n, m := sym.Case(4), sym.Choose("password length", 4)
	user := sym.String("user", n)
	pass := sym.String("password", m)
	for i := 0; i < n; i++ {
		sym.Assume(user[i] != ':')
	}
	ok := sym.Bool("function accepts")
	calls := 0
	b := &guard.BasicAuth{Realm: "r"}
	if sym.Choose("with users", 2) == 1 {
		b.Users = map[string]guard.AuthUser{"x": {User: "x", Password: "y"}}
	}
	b.AuthFunc = func(u, p string, r *http.Request) bool {
		calls++
		sym.Assert(sym.And(sym.EqStr(u, user), sym.EqStr(p, pass)), "the function gets the pair that was sent")
		return ok
	}
	hdr := "Basic " + base64.StdEncoding.EncodeToString([]byte(user+":"+pass))
	ran, rec := request(b, []string{hdr})
	sym.Assert(calls == 1, "the function is asked once")
	check(ran, rec, ok, false, nil)
}

// H_colon: credentials without a colon never pass.
func H_colon() {
	env.Init()
	text := sym.String("text", sym.Case(5))
	for i := 0; i < len(text); i++ {
		sym.Assume(text[i] != ':')
	}
	b := guard.SimpleBasicAuth(map[string]string{"u": "p", "": ""})
	if sym.Choose("function", 2) == 1 {
		b.AuthFunc = func(u, p string, r *http.Request) bool { return true }
	}
	ran, rec := request(b, []string{"Basic " + base64.StdEncoding.EncodeToString([]byte(text))})
	check(ran, rec, false, false, nil)
}

// H_pair: every user and password of the given lengths, encoded correctly.
func H_pair() {
	env.Init()
	users := map[string]string{"u": "p", "ab": "", "v": "u:p", "w": "u"}
	user := sym.String("user", sym.Case(4))
	pass := sym.String("password", sym.Choose("password length", 4))
	for i := 0; i < len(user); i++ {
		sym.Assume(user[i] != ':')
	}
	b := guard.SimpleBasicAuth(users)
	want := false
	for u, p := range users {
		want = sym.Or(want, sym.And(sym.EqStr(user, u), sym.EqStr(pass, p)))
	}
	hdr := "Basic " + base64.StdEncoding.EncodeToString([]byte(user+":"+pass))
	ran, rec := request(b, []string{hdr})
	check(ran, rec, want, false, nil)
}

// H_table: tables that were not built by SimpleBasicAuth, with symbolic passwords.
func H_table() {
	env.Init()
	p1 := sym.String("password of u", sym.Choose("length", 3))
	p2 := sym.String("password of v", sym.Choose("length", 2))
	users := map[string]string{"u": p1, "v": p2}
	user := []string{"u", "v", "x", ""}[sym.Case(4)]
	pass := sym.String("password", sym.Choose("length", 3))
	b := guard.SimpleBasicAuth(users)
	b.Realm = "a\"b"
	want := false
	for u, p := range users {
		want = sym.Or(want, sym.And(sym.EqStr(user, u), sym.EqStr(pass, p)))
	}
	hdr := "Basic " + base64.StdEncoding.EncodeToString([]byte(user+":"+pass))
	ran, rec := request(b, []string{hdr})
	check(ran, rec, want, false, nil)
}

// H_sequence: an earlier request changes nothing for a later one.
func H_sequence() {
	env.Init()
	users := map[string]string{"u": "p", "v": "q"}
	b := guard.SimpleBasicAuth(users)
	ran := 0
	h := b.Authenticate(func(w http.ResponseWriter, r *http.Request) { ran++; w.Write([]byte("ok")) })
	texts := []string{"u:p", "v:q", "u:q", "x:p", ":", "u:", "up"}
	n := 3
	c := sym.Case(len(texts))
	for i := 0; i < n; i++ {
		t := texts[c]
		if i > 0 {
			t = texts[sym.Choose("credentials", len(texts))]
		}
		r := env.Req("GET", "h", "/")
		r.Header["Authorization"] = []string{"Basic " + base64.StdEncoding.EncodeToString([]byte(t))}
		rec := env.NewRec()
		ran = 0
		h(rec, r)
		rec.Done()
		check(ran, rec, t == "u:p" || t == "v:q", false, nil)
	}
}

// H_conc: concurrent requests are decided independently, without data races.
func H_conc() {
	env.Init()
	mode := sym.Case(2)
	var b *guard.BasicAuth
	if mode == 0 {
		b = guard.SimpleBasicAuth(map[string]string{"u": "p"})
	} else {
		b = &guard.BasicAuth{AuthFunc: func(u, p string, r *http.Request) bool { return u == "u" && p == "p" }}
	}
	h := b.Authenticate(func(w http.ResponseWriter, r *http.Request) { w.Write([]byte("ok")) })
	texts := []string{"u:p", "u:q", ":"}
	for i := 0; i < 3; i++ {
		t := texts[i]
		if i == 0 {
			t = texts[sym.Choose("credentials", 3)]
		}
		sym.Go(func() {
			r := env.Req("GET", "h", "/")
			r.Header["Authorization"] = []string{"Basic " + base64.StdEncoding.EncodeToString([]byte(t))}
			rec := env.NewRec()
			h(rec, r)
			rec.Done()
			if t == "u:p" {
				sym.Assert(rec.Code == 200 && rec.Body == "ok", "configured credentials are admitted")
			} else {
				sym.Assert(rec.Code == 401 && rec.Body != "ok", "others are refused")
			}
		})
	}
	sym.Wait()
	sym.Cover("done")
}

// rep returns n times the byte c.
func rep(c byte, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = c
	}
	return string(b)
}

// H_long: long credentials are compared as a whole.
func H_long() {
	env.Init()
	n := sym.Size("length", []int{20, 130, 300}[sym.Case(3)], 2000)
	inUser := sym.Choose("user is long", 2) == 1
	long := rep('x', n)
	given := long
	switch sym.Choose("given", 4) {
	case 0:
		at := []int{0, n / 2, n - 1}[sym.Choose("position", 3)]
		given = long[:at] + sym.String("byte", 1) + long[at+1:]
	case 1:
		given = long[:n-1]
	case 2:
		given = long + sym.String("byte", 1)
	case 3:
		given = long[:sym.Size("cut", n/2, n)]
	}
	if inUser {
		for i := 0; i < len(given); i++ {
			sym.Assume(given[i] != ':')
		}
	}
	b := guard.SimpleBasicAuth(map[string]string{"u": long, long: "p"})
	u, p := "u", given
	if inUser {
		u, p = given, "p"
	}
	ran, rec := request(b, []string{"Basic " + base64.StdEncoding.EncodeToString([]byte(u+":"+p))})
	check(ran, rec, sym.EqStr(given, long), false, nil)
}

// H_users: any user of a long table.
func H_users() {
	env.Init()
	n := sym.Size("users", 80, 700)
	users := map[string]string{}
	name := func(i int) string { return string([]byte{'u', 'a' + byte(i%26), 'a' + byte(i/26)}) }
	for i := 0; i < n; i++ {
		users[name(i)] = "p" + name(n-1-i)
	}
	b := guard.SimpleBasicAuth(users)
	i := []int{0, 1, n / 2, n - 2, n - 1}[sym.Case(5)]
	pass := "pu" + sym.String("password", 2)
	ran, rec := request(b, []string{"Basic " + base64.StdEncoding.EncodeToString([]byte(name(i)+":"+pass))})
	check(ran, rec, sym.EqStr(pass, users[name(i)]), false, nil)
}

// H_request: nothing but the credentials decides.
func H_request() {
	env.Init()
	b := guard.SimpleBasicAuth(map[string]string{"u": "p", "v": lib.WordText("w")})
	if sym.Choose("function", 2) == 1 {
		b.AuthFunc = func(u, p string, r *http.Request) bool { return sym.And(sym.EqStr(u, "u"), sym.EqStr(p, "p")) }
	}
	b.Realm = lib.WordText("r")
	var r *http.Request
	switch sym.Case(3) {
	case 0:
		r = env.Req(lib.AnyMethod(), "h", "/")
	case 1:
		r = env.Req("GET", "h", "/")
		r.RemoteAddr, _ = lib.AnyClient()
	case 2:
		r = env.Req(lib.WordMethod("GET"), lib.WordHost("h"), lib.WordPath("/"))
		if w := lib.WordText(""); w != "" {
			r.Header["User-Agent"] = []string{w}
		}
	}
	user, pass := "u", "p"
	switch sym.Choose("credentials", 4) {
	case 0:
		pass = sym.String("password", 1)
	case 1:
		user = sym.String("user", 1)
		sym.Assume(sym.And(user[0] != ':', user[0] != 'v'))
	case 2:
		user = lib.WordText("z")
		sym.Assume(user != "u" && user != "v" && !containsColon(user))
	case 3:
		pass = lib.WordText("z")
		sym.Assume(pass != "p")
	}
	ran := 0
	h := b.Authenticate(func(w http.ResponseWriter, r *http.Request) {
		ran++
		w.Write([]byte("ok"))
	})
	rec := env.NewRec()
	if sym.Choose("sent", 2) == 0 {
		h(rec, r)
		rec.Done()
		check(ran, rec, false, false, nil)
		return
	}
	r.Header["Authorization"] = []string{"Basic " + base64.StdEncoding.EncodeToString([]byte(user+":"+pass))}
	h(rec, r)
	rec.Done()
	check(ran, rec, sym.And(sym.EqStr(user, "u"), sym.EqStr(pass, "p")), false, nil)
}

// H_many: many requests, valid and invalid ones in turn, are each decided alone.
func H_many() {
	env.Init()
	b := guard.SimpleBasicAuth(map[string]string{"u": "p", "v": "q"})
	n := sym.Size("requests", 40, 400)
	each := sym.Choose("valid", 3)
	for i := 0; i < n; i++ {
		t, ok := "u:q", false
		if each == 1 && i%2 == 0 || each == 2 {
			t, ok = "u:p", true
		}
		ran, rec := request(b, []string{"Basic " + base64.StdEncoding.EncodeToString([]byte(t))})
		check(ran, rec, ok, false, nil)
	}
	user, pass := sym.String("user", 1), sym.String("password", 1)
	sym.Assume(user[0] != ':')
	ran, rec := request(b, []string{"Basic " + base64.StdEncoding.EncodeToString([]byte(user+":"+pass))})
	check(ran, rec, sym.Or(sym.And(sym.EqStr(user, "u"), sym.EqStr(pass, "p")), sym.And(sym.EqStr(user, "v"), sym.EqStr(pass, "q"))), false, nil)
}
