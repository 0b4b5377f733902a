// Package c31 decides property C31: log messages and their levels.
package c31

import (
	"context"
	"errors"
	"io"
	"net/http"
	"os"
	"strconv"
	"strings"

	"github.com/redmaner/MaguroHTTP/debug"
	"github.com/redmaner/MaguroHTTP/tuna"
	"github.com/redmaner/MaguroHTTP/verif/env"
	"github.com/redmaner/MaguroHTTP/verif/lib"
	"github.com/redmaner/MaguroHTTP/verif/sym"
)

var outputs = []string{"stdout", "stderr", "/l/log", "log"}

// names are the names of the outputs as package env records them.
var names = []string{"stdout", "stderr", "/l/log", "log"}

// lines returns what was written to output o and checks that nothing was written elsewhere.
func lines(o int) []string {
	r := env.LogLines(names[o])
	sym.Assert(len(r) == len(env.Logs), "only the configured output is written")
	return r
}

// msg is a message with its own type.
type msg struct{ text string }

func (m *msg) Error() string { return m.text }

// H_levels: every pair of levels.
func H_levels() {
	env.Init()
	env.PutDir("/l")
	o := sym.Case(4)
	level := sym.Int("level")
	l, err := debug.NewLogger(level, "n-", outputs[o])
	if level > 3 {
		sym.Assert(err != nil, "refused")
		sym.Cover("refused")
		return
	}
	sym.Assert(err == nil && l != nil, "accepted")
	m := sym.IntRange("message level", 0, 4)
	text := "text"
	l.Log(m, errors.New(text))
	r := lines(o)
	if m <= level {
		sym.Cover("written")
		sym.Assert(len(r) == 1 && strings.Contains(r[0], text), "the message is written once")
	} else {
		sym.Cover("silent")
		sym.Assert(len(r) == 0, "messages above the level are not written")
	}
	l.Log(m, nil)
	sym.Assert(len(lines(o)) == len(r), "nil messages are not written")
	// levels are independent of each other and of what was logged before
	k := sym.IntRange("next level", 0, 4)
	l.Log(k, errors.New("other"))
	q := lines(o)
	if k <= level {
		sym.Assert(len(q) == len(r)+1 && strings.Contains(q[len(r)], "other"), "the next message is written once")
	} else {
		sym.Assert(len(q) == len(r), "messages above the level are not written")
	}
}

// H_text: texts of messages.
func H_text() {
	env.Init()
	level := sym.IntRange("level", 0, 3)
	l, err := debug.NewLogger(level, "n-", "stdout")
	sym.Assert(err == nil, "accepted")
	text := ""
	special := []string{"100%", "%s %d", "%!x(", "a\nb", "a\n", "\x00", "%%"}
	if k := sym.Case(3 + len(special)); k < 3 {
		text = sym.String("text", k)
	} else {
		text = special[k-3]
	}
	m := sym.IntRange("message level", 0, 4)
	var e error
	switch sym.Choose("kind", 3) {
	case 0:
		e = errors.New(text)
	case 1:
		e = &msg{text}
	}
	l.Log(m, e)
	r := lines(0)
	if e == nil || m > level {
		sym.Assert(len(r) == 0, "silent")
		return
	}
	sym.Assert(len(r) == 1, "written once")
	t := r[0]
	for len(t) > 0 && t[len(t)-1] == '\n' && (len(text) == 0 || text[len(text)-1] != '\n') {
		t = t[:len(t)-1]
	}
	if len(text) > 0 && text[len(text)-1] == '\n' {
		// one more line end is no part of the message
		if !suffix(t, text) && len(t) > 0 {
			t = t[:len(t)-1]
		}
	}
	sym.Assert(suffix(t, text), "carrying its text")
	sym.Cover("written")
}

func suffix(s, x string) bool {
	return len(s) >= len(x) && sym.EqStr(s[len(s)-len(x):], x)
}

// H_file: outputs that cannot be opened.
func H_file() {
	env.Init()
	env.PutDir("/l")
	level := sym.IntRange("level", 0, 3)
	name := "/l/log"
	switch sym.Case(4) {
	case 0:
		name = "/gone/log"
	case 1:
		env.PutDir("/l/log")
	case 2:
		env.FaultAt = sym.IntRange("at", 1, 2)
	case 3:
		name = ""
	}
	l, err := debug.NewLogger(level, "n-", name)
	if err != nil {
		sym.Cover("refused")
		return
	}
	sym.Cover("opened")
	l.Log(0, errors.New("text"))
	r := env.LogLines(name)
	sym.Assert(len(env.Logs) == 1 && len(r) == 1 && strings.Contains(r[0], "text"), "written to the configured file")
}

// H_two: two loggers are independent.
func H_two() {
	env.Init()
	env.PutDir("/l")
	a, b := sym.IntRange("a", 0, 3), sym.IntRange("b", 0, 3)
	oa := sym.Case(3)
	ob := []int{1, 2, 0}[oa]
	la, e1 := debug.NewLogger(a, "a-", outputs[oa])
	lb, e2 := debug.NewLogger(b, "b-", outputs[ob])
	sym.Assert(e1 == nil && e2 == nil, "accepted")
	m := sym.IntRange("message level", 0, 4)
	if sym.Choose("first", 2) == 0 {
		la.Log(m, errors.New("one"))
		lb.Log(m, errors.New("two"))
	} else {
		lb.Log(m, errors.New("two"))
		la.Log(m, errors.New("one"))
	}
	ra, rb := env.LogLines(names[oa]), env.LogLines(names[ob])
	sym.Assert(sym.Iff(m <= a, len(ra) == 1) && (len(ra) == 0 || strings.Contains(ra[0], "one")), "the first logger's level")
	sym.Assert(sym.Iff(m <= b, len(rb) == 1) && (len(rb) == 0 || strings.Contains(rb[0], "two")), "the second logger's level")
	sym.Assert(len(ra) <= 1 && len(rb) <= 1 && len(env.Logs) == len(ra)+len(rb), "once")
}

func conf(k, level, o int) func(c *tuna.Config) {
	return func(c *tuna.Config) {
		c.Core.LogLevel = level
		c.Core.LogOut = outputs[o]
		c.Guard.Rate = 60
		c.Guard.RateBurst = 3
		c.Guard.Firewall.Enabled = true
		c.Guard.Firewall.Rules = map[string][]string{"/blocked": {"1.1.1.1"}}
		switch k {
		case 0:
			c.Serve.ServeDir = "/w"
			c.Serve.ServeIndex = "i"
			c.Serve.Methods = map[string]string{"/": "GET"}
		case 1:
			c.Serve.ServeDir = "/w"
			c.Serve.ServeIndex = "i"
			c.Serve.Download.Enabled = true
			c.Serve.Download.Exts = []string{".txt"}
			c.Serve.Methods = map[string]string{"/": "GET"}
		case 2:
			c.Proxy.Enabled = true
			c.Proxy.Rules = map[string]string{"h": "http://u"}
			c.Proxy.Methods = []string{"GET"}
		}
	}
}

// H_server: a server logs at its configured level.
func H_server() {
	env.Init()
	env.PutDir("/l")
	level := sym.Int("level")
	o := sym.Case(4)
	var s *tuna.Server
	how := sym.Choose("how", 2)
	exits, _ := sym.CatchExit(func() {
		if how == 0 {
			s = lib.Server(conf(0, level, o))
		} else {
			s = tuna.NewInstance(tuna.CoreConfig{Port: "80", LogLevel: level, LogOut: outputs[o], FileDir: "/f/"})
		}
	})
	if level > 3 {
		sym.Assert(exits, "refused")
		sym.Cover("refused")
		return
	}
	if how == 0 && exits {
		// a configuration may be refused for its negative level
		sym.Assert(level < 0, "accepted")
		return
	}
	sym.Assert(!exits, "accepted")
	env.Logs = nil
	m := sym.IntRange("message level", 0, 4)
	s.Log(m, errors.New("text"))
	s.Log(m, nil)
	r := lines(o)
	if m <= level {
		sym.Cover("written")
		sym.Assert(len(r) == 1 && strings.Contains(r[0], "text"), "the message is written once")
	} else {
		sym.Cover("silent")
		sym.Assert(len(r) == 0, "messages above the level are not written")
	}
}

// H_request: requests are logged from the network level on.
func H_request() {
	env.Init()
	env.PutDir("/l")
	env.PutDir("/w")
	env.Put("/w/a.txt", "A")
	k := sym.Case(6)
	level := sym.IntRange("level", 0, 3)
	o := k % 4
	s := lib.Server(conf(k%3, level, o))
	u := &lib.Upstream{}
	code := []int{200, 404, 500, 304}[sym.Choose("upstream", 4)]
	u.Answer = func(r *http.Request) *http.Response { return u.Resp(code, "text", http.Header{}) }
	s.Transport = u
	env.Logs = nil
	n := 1
	if k > 2 {
		n = 4 // the last one is refused
	}
	method := []string{"GET", "POST"}[sym.Choose("method", 2)]
	path := []string{"/a.txt", "/gone", "/blocked", "/"}[sym.Choose("path", 4)]
	for i := 0; i < n; i++ {
		r := env.Req(method, "h", path)
		r.RemoteAddr = []string{"1.1.1.1:9", "2.2.2.2:9"}[sym.Choose("client", 2)]
		before := len(lines(o))
		rec := lib.Do(s, r)
		all := lines(o)
		net := []string{}
		for _, x := range all[before:] {
			if strings.Contains(x, "NET") {
				net = append(net, x)
			}
		}
		if level < debug.LogNet {
			sym.Assert(len(net) == 0, "requests are not logged")
			sym.Cover("silent")
			continue
		}
		sym.Assert(len(net) == 1, "every answered request is logged once")
		st := string([]byte{byte('0' + rec.Code/100), byte('0' + rec.Code/10%10), byte('0' + rec.Code%10)})
		for _, x := range []string{st, method, "h" + path, r.RemoteAddr} {
			sym.Assert(strings.Contains(net[0], x), "with its status, method, host, path and client")
		}
		sym.Cover("logged")
	}
}

// H_errors: well-known errors, long and repeated messages, other names.
func H_errors() {
	env.Init()
	env.PutDir("/l")
	o := sym.Case(4)
	level := sym.Choose("level", 4)
	prefix := []string{"", "n-", "MaguroHTTP-", "%s", lib.WordText("p")}[sym.Choose("prefix", 5)]
	name := outputs[o]
	l, err := debug.NewLogger(level, prefix, name)
	sym.Assert(err == nil, "accepted")
	es := []error{io.EOF, io.ErrUnexpectedEOF, io.ErrClosedPipe, http.ErrServerClosed, http.ErrAbortHandler, context.Canceled, context.DeadlineExceeded, os.ErrNotExist, os.ErrPermission, &os.PathError{Op: "open", Path: "/x", Err: os.ErrNotExist},
		&msg{"write: broken pipe"}, &msg{"http: TLS handshake error"}, &msg{"connection reset by peer"}, &msg{"<nil>"}, &msg{"nil"}, &msg{""}, &msg{" "}, nil}
	k := sym.Choose("error", len(es)+1)
	if k == len(es) {
		text := lib.WordText(lib.Repeat(sym.Size("length", []int{100, 600, 5000}[sym.Choose("size", 3)], 1<<16)))
		es = append(es, &msg{text})
	}
	e := es[k]
	m := sym.Choose("message level", 5)
	n := 1 + 2*sym.Choose("times", 2)
	for i := 0; i < n; i++ {
		l.Log(m, e)
	}
	r := lines(o)
	if m > level || e == nil {
		sym.Assert(len(r) == 0, "messages above the level are not written")
		sym.Cover("silent")
		return
	}
	sym.Assert(len(r) == n, "every message is written once")
	for _, x := range r {
		sym.Assert(strings.Contains(x, e.Error()), "carrying its text")
	}
	sym.Cover("written")
}

// H_many: many messages.
func H_many() {
	env.Init()
	level := sym.Case(4)
	l, err := debug.NewLogger(level, "n-", "stdout")
	sym.Assert(err == nil, "accepted")
	n := sym.Size("messages", []int{30, 150}[sym.Choose("number", 2)], 1200)
	same := sym.Choose("same", 2) == 1
	want := 0
	for i := 0; i < n; i++ {
		text := "text"
		if !same {
			text = "text " + strconv.Itoa(i)
		}
		l.Log(i%5, &msg{text})
		if i%5 <= level {
			want++
		}
	}
	sym.Assert(len(lines(0)) == want, "every message at or below the level is written once")
}

// H_names: requests with well-known or newly mentioned parts are logged.
func H_names() {
	env.Init()
	env.PutDir("/w")
	env.Put("/w/a.txt", "A")
	k := sym.Case(3)
	level := 1 + 2*sym.Choose("level", 2)
	vhost := sym.Choose("vhost", 2) == 1
	host := "h"
	lib.Conf("/v.hcl", func(c *tuna.Config) { conf(k, level, 0)(c); c.Guard.RateBurst = 1000 })
	path, method, agent, client := "/a.txt", "GET", "", "1.1.1.1:9"
	switch sym.Choose("vary", 6) {
	case 0:
		path = lib.WordPath("/z")
	case 1:
		ps := []string{"/favicon.ico", "/robots.txt", "/healthz", "/health", "/ping", "/status", "/.well-known/x", "/%s", "/a b", "/metrics", "/static/a.css", "/" + lib.Repeat(sym.Size("length", []int{60, 300, 3000}[sym.Choose("size", 3)], 1<<15))}
		path = ps[sym.Choose("path", len(ps))]
	case 2:
		method = lib.AnyMethod()
	case 3:
		agent = []string{"kube-probe/1.1", "ELB-HealthChecker/2.0", "Googlebot", "curl", lib.WordText("x")}[sym.Choose("agent", 5)]
	case 4:
		client, _ = lib.AnyClient()
	case 5:
		host = []string{"localhost", "127.0.0.1", lib.WordHost("q")}[sym.Choose("host", 3)]
	}
	s := lib.Server(func(c *tuna.Config) {
		conf(k, level, 0)(c)
		c.Guard.RateBurst = 1000
		if k == 2 {
			c.Proxy.Rules = map[string]string{host: "http://u"}
		}
		if vhost {
			c.Core.VirtualHosting = true
			c.Core.VirtualHosts = map[string]string{"h": "/v.hcl", host: "/v.hcl"}
		}
	})
	s.Transport = &lib.Upstream{}
	env.Logs = nil
	for i := 1; i <= 2; i++ {
		r := env.Req(method, host, path)
		r.RemoteAddr = client
		r.Header["User-Agent"] = []string{agent}
		if k == 2 && vhost && host != "h" {
			r.Host = "h"
		}
		rec := lib.Do(s, r)
		net := []string{}
		for _, x := range lines(0) {
			if strings.Contains(x, "NET") {
				net = append(net, x)
			}
		}
		sym.Assert(len(net) == i, "every answered request is logged once")
		st := strconv.Itoa(rec.Code)
		for _, x := range []string{st, method, r.Host + path, client} {
			sym.Assert(strings.Contains(net[i-1], x), "with its status, method, host, path and client")
		}
	}
	sym.Cover("logged")
}
