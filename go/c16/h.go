// Package c16 decides property C16: security headers.
package c16

import (
	"net/http"
	"strconv"
	"strings"

	"github.com/redmaner/MaguroHTTP/tuna"
	"github.com/redmaner/MaguroHTTP/verif/env"
	"github.com/redmaner/MaguroHTTP/verif/lib"
	"github.com/redmaner/MaguroHTTP/verif/sym"
)

var strict = []string{
	"X-Frame-Options", "SAMEORIGIN",
	"X-Content-Type-Options", "nosniff",
	"X-Xss-Protection", "1; mode=block",
	"Referrer-Policy", "no-referrer",
	"Content-Security-Policy", "default-src 'self'",
	"Server", "MaguroHTTP",
}

const (
	file     = iota // a served file
	content         // other served content
	local           // an error or redirect
	metrics         // the metrics page
	upstream        // a proxied answer
)

type kind struct {
	mode         string
	method, path string
	class        int
	code         int
}

var all = []kind{
	{"static", "GET", "/f", file, 200},
	{"static", "HEAD", "/f", file, 200},
	{"static", "GET", "/d", local, 301},
	{"static", "GET", "/zz", local, 404},
	{"static", "POST", "/f", local, 405},
	{"static", "CT", "/f", local, 406},
	{"static403", "GET", "/f", local, 403},
	{"static429", "GET", "/f", local, 429},
	{"static", "GET", "/d/../../zz", local, 404},
	{"exact", "GET", "/other", local, 404},
	{"download", "GET", "/", content, 200},
	{"download", "GET", "/f", file, 200},
	{"download", "GET", "/zz", local, 404},
	{"download403", "GET", "/f", local, 403},
	{"download429", "GET", "/", local, 429},
	{"downloaderr", "GET", "/", local, 500},
	{"proxy", "GET", "/f", upstream, 207},
	{"proxy403", "GET", "/f", local, 403},
	{"proxy429", "GET", "/f", local, 429},
	{"proxyfail", "GET", "/f", local, 502},
	{"proxy", "POST", "/f", local, 405},
	{"static", "GET", "/metrics", metrics, 200},
	{"static", "GET", "/metrics", local, 401},
	{"download", "GET", "/metrics", metrics, 200},
	{"proxymain", "GET", "/metrics", local, 401},
}

type tls struct {
	on           bool
	age          int
	pre, include bool
}

// run sends the request of kind k to a server with the given TLS settings and configured headers.
func run(k kind, t tls, hs map[string]string, vhost bool, custom bool) {
	env.Put("/w/f", "data")
	env.Put("/w/d/f", "data")
	env.Put("/e/e.html", "custom")
	// the metrics route belongs to the default host
	if k.path == "/metrics" && vhost {
		return
	}
	up := http.Header{"X-Up": {"1", "2"}}
	upSTS := sym.Choose("upstream STS", 2) == 1
	if upSTS {
		up["Strict-Transport-Security"] = []string{"max-age=1"}
	}
	set := func(c *tuna.Config) {
		c.Serve.ServeDir = "/w"
		c.Serve.ServeIndex = "list"
		c.Serve.Headers = hs
		c.Guard.RateBurst = 10
		if custom {
			c.Errors = map[string]string{"401": "/e/e.html", "403": "/e/e.html", "404": "/e/e.html", "405": "/e/e.html", "406": "/e/e.html", "429": "/e/e.html", "500": "/e/e.html", "502": "/e/e.html"}
		}
		m := k.mode
		if strings.HasSuffix(m, "403") {
			c.Guard.Firewall.Enabled = true
			m = m[:len(m)-3]
		}
		if strings.HasSuffix(m, "429") {
			c.Guard.Rate = 0
			c.Guard.RateBurst = 0
			m = m[:len(m)-3]
		}
		switch m {
		case "static":
			c.Serve.Methods = map[string]string{"/": "GET;HEAD"}
		case "exact":
			c.Serve.Methods = map[string]string{"/f": "GET"}
		case "download":
			c.Serve.Download.Enabled = true
			c.Serve.Download.Exts = []string{""}
		case "downloaderr":
			c.Serve.Download.Enabled = true
			c.Serve.Download.Exts = []string{""}
			c.Serve.ServeDir = "/missing"
		default:
			c.Proxy.Enabled = true
			c.Proxy.Rules = map[string]string{"h": "http://u"}
			c.Proxy.Methods = []string{"GET"}
			c.Proxy.Headers = hs
		}
	}
	lib.Conf("/v.hcl", set)
	s := lib.Server(func(c *tuna.Config) {
		c.Core.TLS.Enabled = t.on
		c.Core.TLS.TLSCert = "/c"
		c.Core.TLS.TLSKey = "/k"
		c.Core.TLS.HSTS.MaxAge = t.age
		c.Core.TLS.HSTS.Preload = t.pre
		c.Core.TLS.HSTS.IncludeSubdomains = t.include
		if k.path == "/metrics" {
			c.Core.Metrics.Enabled = true
			c.Core.Metrics.Path = "/metrics"
			c.Core.Metrics.Out = "/m.json"
			c.Core.Metrics.Users = map[string]string{"u": "p"}
		}
		if vhost {
			c.Core.VirtualHosting = true
			c.Core.VirtualHosts = map[string]string{"h": "/v.hcl"}
			c.Serve.Headers = map[string]string{"X-Main": "1"}
		} else {
			set(c)
		}
	})
	u := &lib.Upstream{Fail: k.mode == "proxyfail"}
	u.Answer = func(r *http.Request) *http.Response { return u.Resp(207, "up", up) }
	s.Transport = u
	r := env.Req(k.method, "h", k.path)
	if k.method == "CT" {
		r.Method = "GET"
		r.Header["Content-Type"] = []string{"x/y"}
	}
	if k.class == metrics {
		r.Header["Authorization"] = []string{"Basic dTpw"}
	}
	rec := lib.Do(s, r)
	sym.Observe("code", rec.Code)
	for i := 0; i < len(strict); i += 2 {
		sym.Observe(strict[i], rec.Sent[strict[i]])
	}
	sym.Observe("sts", rec.Sent["Strict-Transport-Security"])
	sym.Assert(rec.Code == k.code, "the request is answered as intended")
	sym.Cover(k.mode + " " + strconv.Itoa(k.code))

	conf := func(name string) (string, bool) {
		for n, v := range hs {
			if http.CanonicalHeaderKey(n) == name {
				return v, true
			}
		}
		return "", false
	}
	if k.class != upstream {
		for i := 0; i < len(strict); i += 2 {
			v, set := conf(strict[i])
			got := rec.Sent[strict[i]]
			sym.Assert(len(got) == 1, "each security header is sent once")
			switch {
			case set && (k.class == file || k.class == content):
				sym.Assert(got[0] == v, "the configured value replaces the strict one")
			case k.class == metrics && strict[i] == "Content-Security-Policy":
				sym.Assert(got[0] == "", "the metrics page clears the policy")
			case set:
				sym.Assert(got[0] == strict[i+1] || got[0] == v, "the strict or the configured value")
			default:
				sym.Assert(got[0] == strict[i+1], "the strict value of "+strict[i])
			}
		}
		fp, ok := conf("Feature-Policy")
		got := rec.Sent["Feature-Policy"]
		sym.Assert(len(got) == 1 && (strings.Contains(got[0], "geolocation 'none'") || (ok && got[0] == fp)), "a feature policy is sent")
	}
	if k.class != metrics && k.class != local {
		for n, v := range hs {
			n = http.CanonicalHeaderKey(n)
			if n == "Content-Type" {
				continue
			}
			got := rec.Sent[n]
			sym.Assert(len(got) == 1 && got[0] == v, "every configured header is sent with its value")
		}
	}
	if _, ok := conf("Strict-Transport-Security"); !ok {
		got := rec.Sent["Strict-Transport-Security"]
		if t.on {
			sym.Cover("sts")
			sym.Assert(len(got) == 1, "strict transport security is sent")
			parts := strings.Split(got[0], ";")
			n, i, p := 0, 0, 0
			for _, x := range parts {
				switch x = strings.TrimSpace(x); {
				case x == "max-age="+strconv.Itoa(t.age):
					n++
				case strings.ToLower(x) == "includesubdomains":
					i++
				case x == "preload":
					p++
				default:
					sym.Assert(x == "", "no other directive")
				}
			}
			sym.Assert(n == 1, "the configured max-age")
			sym.Assert((i == 1) == t.include && i < 2, "includeSubdomains as configured")
			sym.Assert((p == 1) == t.pre && p < 2, "preload as configured")
		} else if k.class == upstream && upSTS {
			sym.Assert(len(got) == 1 && got[0] == "max-age=1", "the upstream's own header passes")
		} else {
			sym.Assert(len(got) == 0, "no strict transport security without TLS")
		}
	}
}

func tlsSettings() tls {
	t := tls{age: 31557600}
	if sym.Choose("tls", 2) == 1 {
		t.on = true
		t.age = []int{0, 1, 63072000}[sym.Choose("age", 3)]
		t.pre = sym.Choose("preload", 2) == 1
		t.include = sym.Choose("subdomains", 2) == 1
	}
	return t
}

// H_tls: every TLS setting and kind of response.
func H_tls() {
	env.Init()
	run(all[sym.Case(len(all))], tlsSettings(), nil, sym.Choose("vhost", 2) == 1, sym.Choose("custom page", 2) == 1)
}

// H_conf: every kind of response with configured headers of any value.
func H_conf() {
	env.Init()
	names := []string{"X-Frame-Options", "x-content-type-options", "X-XSS-Protection", "Referrer-Policy", "Content-Security-Policy", "Feature-Policy", "Server", "X-New", "x-New-2", "Strict-Transport-Security"}
	hs := map[string]string{}
	hs[names[sym.Choose("first", len(names))]] = sym.String("value", sym.Choose("length", 3))
	second := []string{"", "X-Second", "Server"}[sym.Choose("second", 3)]
	if _, ok := hs[second]; second != "" && !ok {
		hs[second] = sym.String("second value", 1)
	}
	t := tls{on: sym.Choose("tls", 2) == 1, age: 5, pre: true}
	run(all[sym.Case(len(all))], t, hs, sym.Choose("vhost", 2) == 1, false)
}

// H_more: names of every known extension, partial and conditional answers, any method, well-known hosts and clients.
func H_more() {
	env.Init()
	exts := append(lib.Known(), "", ".ico", ".wasm")
	k := sym.Case(4)
	name, method, host, path := "/f", "GET", "h", ""
	hdr := map[string]string{}
	addr := ""
	switch k {
	case 0:
		name = "/f" + exts[sym.Choose("extension", len(exts))]
	case 1:
		switch sym.Choose("part", 6) {
		case 0:
			hdr["Range"] = "bytes=0-0"
		case 1:
			hdr["Range"] = "bytes=9-"
		case 2:
			hdr["Range"] = "bytes=-2"
		case 3:
			hdr["If-Modified-Since"] = "Fri, 31 Dec 2100 23:59:59 GMT"
		case 4:
			hdr["If-Modified-Since"] = "Fri, 31 Dec 1971 23:59:59 GMT"
		case 5:
			hdr["Range"] = "lines=1"
		}
		method = []string{"GET", "HEAD"}[sym.Choose("head", 2)]
	case 2:
		switch sym.Choose("vary", 3) {
		case 0:
			method = lib.AnyMethod()
		case 1:
			host = []string{"localhost", "127.0.0.1", "[::1]:80"}[sym.Choose("host", 3)]
		case 2:
			addr, _ = lib.AnyClient()
		}
	case 3:
		method, host, path = lib.WordMethod("GET"), lib.WordHost("h"), lib.Resolve(lib.WordPath("/f"))
		if path[len(path)-1] != '/' {
			name = path
		}
	}
	if path == "" {
		path = []string{name, "/d", "/zz"}[sym.Choose("path", 1+2*(k/2%2))]
	}
	env.Put("/w"+name, "data")
	env.PutDir("/w/d")
	dl := sym.Choose("download", 2) == 1
	val := "X" + lib.WordText("-")
	age := sym.Size("max age", []int{0, 31536000, 1 << 31, 1<<40 + 7}[sym.Choose("age", 4)], 1<<16)
	s := lib.Server(func(c *tuna.Config) {
		c.Core.TLS.Enabled = true
		c.Core.TLS.TLSCert = "/c"
		c.Core.TLS.TLSKey = "/k"
		c.Core.TLS.HSTS.MaxAge = age
		c.Serve.ServeDir = "/w"
		c.Serve.ServeIndex = "list"
		c.Serve.Headers = map[string]string{"X-Own": val, "X-Dash": "-", "X-Empty": ""}
		if dl {
			c.Serve.Download.Enabled = true
			c.Serve.Download.Exts = []string{".q"}
		} else {
			c.Serve.Methods = map[string]string{"/": "GET;HEAD;PUT"}
		}
	})
	r := env.Req(method, host, path)
	for k, v := range hdr {
		r.Header[k] = []string{v}
	}
	if addr != "" {
		r.RemoteAddr = addr
	}
	rec := lib.Do(s, r)
	sym.Observe("code", rec.Code)
	sym.Cover(strconv.Itoa(rec.Code))
	for i := 0; i < len(strict); i += 2 {
		got := rec.Sent[strict[i]]
		sym.Assert(len(got) == 1 && got[0] == strict[i+1], "the strict value of "+strict[i])
	}
	sts := rec.Sent["Strict-Transport-Security"]
	sym.Assert(len(sts) == 1 && strings.HasPrefix(sts[0], "max-age="+strconv.Itoa(age)) && strings.Trim(sts[0][8+len(strconv.Itoa(age)):], "; ") == "", "the configured strict transport security")
	if rec.Code == 200 || rec.Code == 206 || rec.Code == 304 {
		own, dash, empty := rec.Sent["X-Own"], rec.Sent["X-Dash"], rec.Sent["X-Empty"]
		sym.Assert(len(own) == 1 && own[0] == val && len(dash) == 1 && dash[0] == "-" && len(empty) == 1 && empty[0] == "", "every configured header is sent with its value")
	}
}

// H_any: any short header name and value, path, method and setting.
func H_any() {
	env.Init()
	c := sym.Case(8)
	name := ""
	stems := []string{"", "Serve", "x-frame-option", "X-"}
	n := 1 + sym.Choose("length", 2)
	if sym.Thorough() {
		n += sym.Choose("more", 2)
	}
	if c%4 > 0 {
		n = 1
	}
	name = stems[c%4] + sym.String("name", n)
	for i := 0; i < len(name); i++ {
		b := name[i]
		sym.Assume(sym.Or(sym.And(b >= 'a', b <= 'z'), sym.And(b >= 'A', b <= 'Z'), sym.And(b >= '0', b <= '9'), b == '-'))
	}
	value := sym.String("value", 2)
	age := sym.IntRange("age", 0, 19)
	pre, include, on := sym.Bool("preload"), sym.Bool("subdomains"), sym.Bool("TLS")
	dl := c >= 4
	env.PutDir("/w/d")
	env.Put("/w/f", "data")
	s := lib.Server(func(c *tuna.Config) {
		c.Core.TLS.Enabled = on
		c.Core.TLS.TLSCert, c.Core.TLS.TLSKey = "/c", "/k"
		c.Core.TLS.HSTS.MaxAge = age
		c.Core.TLS.HSTS.Preload, c.Core.TLS.HSTS.IncludeSubdomains = pre, include
		c.Serve.ServeDir = "/w"
		c.Serve.ServeIndex = "/i"
		c.Serve.Headers = map[string]string{name: value}
		if dl {
			c.Serve.Download.Enabled = true
			c.Serve.Download.Exts = []string{".q"}
		} else {
			c.Serve.Methods = map[string]string{"/": "GET;HEAD"}
		}
	})
	path := "/" + sym.String("path", sym.Choose("path", 2))
	sym.Assume(!strings.Contains(path, "\\"))
	rec := lib.Do(s, env.Req("GET", "h", path))
	sym.Observe("code", rec.Code)
	canon := http.CanonicalHeaderKey(name)
	sent := rec.Code == 200
	for i := 0; i < len(strict); i += 2 {
		got := rec.Sent[strict[i]]
		sym.Assert(len(got) == 1, "each security header is sent once")
		if canon == strict[i] {
			sym.Cover("replaced")
			sym.Assert(sym.EqStr(got[0], value) || !sent && got[0] == strict[i+1], "the configured value")
		} else {
			sym.Assert(got[0] == strict[i+1], "the strict value of "+strict[i])
		}
	}
	if sent {
		sym.Cover("sent")
		got := rec.Sent[canon]
		sym.Assert(len(got) == 1 && sym.EqStr(got[0], value), "every configured header is sent with its value")
	}
	sts := rec.Sent["Strict-Transport-Security"]
	if !on {
		sym.Assert(len(sts) == 0, "no strict transport security without TLS")
		return
	}
	sym.Assert(len(sts) == 1, "strict transport security is sent")
	x := sts[0]
	sym.Assert(lib.Prefix(x, "max-age="), "with a max-age")
	x = x[8:]
	k := 0
	i := 0
	for i < len(x) && x[i] >= '0' && x[i] <= '9' {
		k = k*10 + int(x[i]-'0')
		i++
	}
	sym.Assert(i > 0 && k == age, "the configured max-age")
	sym.Assert(sym.Iff(strings.Contains(x, "preload"), pre) && sym.Iff(strings.Contains(strings.ToLower(x), "includesubdomains"), include), "as configured")
}
