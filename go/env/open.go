package env

import (
	"net/http"
	"net/url"
	"strings"

	"github.com/redmaner/MaguroHTTP/verif/sym"
)

// Open requests: a request made by Req carries, besides what the harness gives it, any further
// header field, query parameter or cookie that the code under test asks for. The first time code
// of the repository asks for a name the request does not have, the engine branches: the request
// lacks it, or has it with one of the values below, any one-byte value, or a string that the code has
// as a constant and the baseline lacks. On the current tree nothing is asked for, so
// this costs nothing; a change that starts to look at further parts of a request is explored.

// opened is one open request. The list is never shared for writing by code under test; it is not
// locked, so that native replays under the race detector gain no ordering from it.
type opened struct {
	next    *opened
	header  string // identities of the maps
	query   string
	cookie  string
	url     *url.URL
	values  url.Values
	cookies map[string][]string
	asked   map[string]bool
}

var (
	openList *opened
	openLeft int
	// Values are further values that unexpected parts of requests take.
	Values []string
)

// closed are the header fields that harnesses set themselves where they matter.
var closed = map[string]bool{"User-Agent": true, "Authorization": true, "Content-Type": true}

func resetOpen() {
	openList = nil
	openLeft = 2
	Values = nil
}

// open makes r an open request.
func open(r *http.Request) {
	o := &opened{next: openList, url: r.URL, values: url.Values{}, cookies: map[string][]string{}, asked: map[string]bool{}}
	o.header, o.query, o.cookie = sym.MapID(r.Header), sym.MapID(o.values), sym.MapID(o.cookies)
	openList = o
}

// Shut makes the harness the only source of the request's parts.
func Shut(r *http.Request) {
	if o := openOf(r.URL); o != nil {
		*o = opened{next: o.next}
	}
}

func openOf(u *url.URL) *opened {
	for o := openList; o != nil; o = o.next {
		if o.url == u {
			return o
		}
	}
	return nil
}

// materialise branches on whether m has k, the first time it is asked for.
func materialise(m map[string][]string, k string) {
	if k == "" || !sym.IsConcrete(k) {
		return
	}
	id := sym.MapID(m)
	o := openList
	for o != nil && o.header != id && o.query != id && o.cookie != id {
		o = o.next
	}
	if o == nil {
		return
	}
	kind := "header"
	if o.query == id {
		kind = "query"
	} else if o.cookie == id {
		kind = "cookie"
	}
	if o.asked[kind+k] {
		return
	}
	if _, ok := m[k]; ok || kind == "header" && closed[k] {
		return
	}
	o.asked[kind+k] = true
	if openLeft == 0 {
		return
	}
	c := candidates(k)
	i := sym.Choose(kind+" "+k, len(c)+3)
	if i == 0 {
		return
	}
	openLeft--
	if i == len(c)+2 {
		w := sym.Word(kind+" "+k+" word", "")
		sym.Assume(w != "" && printable(w))
		m[k] = []string{w}
		return
	}
	if i == 1 {
		m[k] = []string{sym.String(kind+" "+k+" value", 1)}
		if kind == "header" {
			sym.Assume(sym.And(m[k][0][0] >= ' ', m[k][0][0] != 127))
		}
		return
	}
	m[k] = []string{c[i-2]}
}

// printable reports whether w may be part of a request.
func printable(w string) bool {
	for i := 0; i < len(w); i++ {
		if w[i] < ' ' || w[i] == 127 {
			return false
		}
	}
	return true
}

func candidates(k string) []string {
	l := strings.ToLower(k)
	has := func(ss ...string) bool {
		for _, s := range ss {
			if strings.Contains(l, s) {
				return true
			}
		}
		return false
	}
	c := append([]string(nil), Values...)
	switch {
	case has("proto", "scheme"):
		c = append(c, "https", "http")
	case has("forwarded-host", "original-host"):
		c = append(c, "h", "other")
	case has("forward", "real-ip", "client-ip", "remote", "connecting-ip"):
		c = append(c, "198.51.100.7", "127.0.0.1")
	case has("method"):
		c = append(c, "GET", "POST", "DELETE")
	case has("upgrade"):
		c = append(c, "websocket", "h2c")
	case l == "connection":
		c = append(c, "upgrade", "close", "keep-alive")
	case has("encoding"):
		c = append(c, "gzip", "chunked", "identity")
	case l == "range":
		c = append(c, "bytes=0-0")
	case has("if-none-match", "if-match"):
		c = append(c, "*", "\"x\"")
	case has("modified", "unmodified"):
		c = append(c, "Mon, 02 Jan 2040 15:04:05 GMT")
	case has("cache-control", "pragma"):
		c = append(c, "no-cache", "no-store")
	case has("accept"):
		c = append(c, "*/*", "text/html", "application/json", "text/plain")
	case has("origin", "referer"):
		c = append(c, "http://h", "http://other", "null")
	case l == "expect":
		c = append(c, "100-continue")
	case has("length"):
		c = append(c, "0", "10")
	case has("path", "uri", "url", "file"):
		c = append(c, "/", "/../secret", "../secret")
	case has("purpose", "fetch"):
		c = append(c, "prefetch", "navigate", "cors")
	case has("user-agent"):
		c = append(c, "curl/7", "Mozilla/5.0 (compatible; bot)")
	default:
		c = append(c, "true", "/../secret")
	}
	return c
}

// HeaderMap runs before an index expression on a header or parameter map.
func HeaderMap(m map[string][]string, k string) map[string][]string {
	materialise(m, k)
	return m
}

// HeaderGet is http.Header.Get.
func HeaderGet(h http.Header, k string) string {
	if sym.IsConcrete(k) {
		materialise(h, http.CanonicalHeaderKey(k))
	}
	return h.Get(k)
}

func HeaderValues(h http.Header, k string) []string {
	if sym.IsConcrete(k) {
		materialise(h, http.CanonicalHeaderKey(k))
	}
	return h.Values(k)
}

func ReqUserAgent(r *http.Request) string { return HeaderGet(r.Header, "User-Agent") }
func ReqReferer(r *http.Request) string   { return HeaderGet(r.Header, "Referer") }

// URLQuery is (*url.URL).Query.
func URLQuery(u *url.URL) url.Values {
	if o := openOf(u); o != nil && u.RawQuery == "" {
		return o.values
	}
	return u.Query()
}

func ValuesGet(v url.Values, k string) string {
	materialise(v, k)
	return v.Get(k)
}

func ValuesHas(v url.Values, k string) bool {
	materialise(v, k)
	_, ok := v[k]
	return ok
}

func FormValue(r *http.Request, k string) string {
	if o := openOf(r.URL); o != nil && r.URL.RawQuery == "" && r.Method != "POST" && r.Method != "PUT" && r.Method != "PATCH" {
		return ValuesGet(o.values, k)
	}
	return r.FormValue(k)
}

// Cookie is (*http.Request).Cookie.
func Cookie(r *http.Request, k string) (*http.Cookie, error) {
	o := openOf(r.URL)
	if _, ok := r.Header["Cookie"]; ok || o == nil {
		return r.Cookie(k)
	}
	materialise(o.cookies, k)
	if v := o.cookies[k]; len(v) > 0 {
		return &http.Cookie{Name: k, Value: v[0]}, nil
	}
	return nil, http.ErrNoCookie
}
