package lib

import (
	"net/http"
	"sort"
	"strings"

	"github.com/redmaner/MaguroHTTP/tuna"
	"github.com/redmaner/MaguroHTTP/verif/env"
	"github.com/redmaner/MaguroHTTP/verif/sym"
)

// Request describes a request.
type Request struct{ Method, Host, Path, Type string }

// Answer is everything an observer sees of a request.
type Answer struct {
	Rec  *env.Rec
	Seen []string // files read below /w and upstream requests
}

// Make makes the request.
func (q Request) Make() *http.Request {
	r := env.Req(q.Method, q.Host, q.Path)
	if q.Type != "" {
		r.Header["Content-Type"] = []string{q.Type}
	}
	return r
}

// Ask sends a request.
func Ask(s *tuna.Server, q Request) Answer {
	u := &Upstream{}
	u.Answer = func(r *http.Request) *http.Response { return u.Resp(Upcode(r), Upbody(r), Uphead(r)) }
	s.Transport = u
	env.Accesses = nil
	a := Answer{Rec: Do(s, q.Make())}
	for _, x := range env.Accesses {
		if Prefix(x.Name, "/w") {
			a.Seen = append(a.Seen, x.Op+" "+x.Name)
		}
	}
	for i, x := range u.Reqs {
		a.Seen = append(a.Seen, x.Method+" "+x.URL.String()+" "+Flat(x.Header)+" "+u.Bodies[i])
	}
	return a
}

// Upcode, Upbody and Uphead are what the upstream answers: what it says about one path it does not say about others.
func Upcode(r *http.Request) int {
	if r.URL.Path == "/b" {
		return 404
	}
	return 203
}

// Upbody is the body of an upstream response.
func Upbody(r *http.Request) string { return "up " + r.URL.String() }

// Uphead is the header of an upstream response.
func Uphead(r *http.Request) http.Header {
	h := http.Header{"X-Up": {"1"}}
	if r.URL.Path == "/a.txt" {
		for _, k := range []string{"Via", "Set-Cookie", "Cache-Control", "Content-Type", "Server", "Location", "Www-Authenticate", "X-Powered-By", "Connection", "Etag", "Vary", "Content-Encoding"} {
			h[k] = []string{"v", "w"}
		}
	}
	return h
}

// Flat returns a header as text.
func Flat(h http.Header) string {
	var l []string
	for k, v := range h {
		l = append(l, k+": "+strings.Join(v, "|"))
	}
	sort.Strings(l)
	return strings.Join(l, "\n")
}

// Same asserts that two answers are equal.
func Same(a, b Answer) {
	sym.Observe("code", b.Rec.Code)
	sym.Assert(a.Rec.Code == b.Rec.Code, "the same status")
	sym.Assert(a.Rec.Body == b.Rec.Body, "the same body")
	sym.Assert(Flat(a.Rec.H) == Flat(b.Rec.H), "the same header")
	sym.Assert(strings.Join(a.Seen, "\n") == strings.Join(b.Seen, "\n"), "the same files and upstream requests")
	switch a.Rec.Code {
	case 200:
		sym.Cover("200")
	case 203:
		sym.Cover("proxied")
	default:
		sym.Cover("error")
	}
}
