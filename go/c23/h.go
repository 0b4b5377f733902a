// Package c23 decides property C23: saved metrics.
package c23

import (
	"net/http"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/redmaner/MaguroHTTP/tuna"
	"github.com/redmaner/MaguroHTTP/verif/env"
	"github.com/redmaner/MaguroHTTP/verif/lib"
	"github.com/redmaner/MaguroHTTP/verif/sym"
)

const out = "/m/out.json"

func conf(vhost bool) func(c *tuna.Config) {
	set := func(c *tuna.Config) {
		c.Guard.Rate = 0
		c.Guard.RateBurst = 100
		c.Serve.ServeDir = "/w"
		c.Serve.ServeIndex = "i.txt"
		c.Serve.Methods = map[string]string{"/": "GET"}
	}
	return func(c *tuna.Config) {
		if vhost {
			lib.Conf("/v.hcl", set)
			c.Core.VirtualHosting = true
			c.Core.VirtualHosts = map[string]string{"h": "/v.hcl"}
		} else {
			set(c)
		}
		lib.WithMetrics(c)
	}
}

// life is one run of the server.
type life struct {
	s     *tuna.Server
	gates []*sync.Mutex // one for each save
	saved int
}

// start starts a server that saves its metrics when save is called.
func start(saves int, set func(c *tuna.Config)) *life {
	l := &life{}
	for i := 0; i < saves; i++ {
		m := new(sync.Mutex)
		m.Lock()
		l.gates = append(l.gates, m)
	}
	env.SleepLeft = saves
	n := 0
	env.OnSleep = func(d time.Duration) {
		sym.Assert(d > 0, "saves are periodic")
		i := n
		n++
		if i < saves {
			sym.Gate(l.gates[i])
		}
	}
	l.s = lib.Server(set)
	return l
}

// release starts the next save.
func (l *life) release() {
	l.gates[l.saved].Unlock()
	l.saved++
}

// save lets the server save its metrics.
func (l *life) save() {
	l.release()
	sym.Quiesce()
}

func (l *life) get(path string) int {
	return lib.Do(l.s, env.Req("GET", "h", path)).Code
}

func same(a, b lib.Count) {
	sym.Observe("total", a.Total)
	sym.Assert(equal(a, b), "the metrics are the ones that were saved")
}

func equal(a, b lib.Count) bool {
	if a.Total != b.Total || a.Sum != b.Sum || len(a.Paths) != len(b.Paths) {
		return false
	}
	for k, v := range a.Paths {
		if b.Paths[k] != v {
			return false
		}
	}
	return true
}

func files(exists int) {
	env.PutDir("/w")
	env.Put("/w/a", "A")
	env.PutDir("/m")
	switch exists {
	case 1:
		env.Put(out, `{"TotalRequests": 2, "Paths": {"200": {"h/a": 1, "h/old": 1}}}`)
	case 2:
		env.Put(out, `{"TotalRequests": 0, "Paths": null}`)
	case 3:
		// larger than what is saved later
		env.Put(out, `{"TotalRequests": 1, "Paths": {"404": {"h/`+strings.Repeat("long", 100)+`": 1}}}`)
	}
}

// H_restart: what was saved is there after a restart.
func H_restart() {
	env.Init()
	files(sym.Choose("file", 4))
	set := conf(sym.Case(2) == 1)
	l := start(1, set)
	ps := []string{"/a", "/gone", "/metrics", "/old", "/x"}
	n := 2
	if sym.Thorough() {
		n = 3
	}
	for i := 0; i < n; i++ {
		l.get(ps[sym.Choose("request", len(ps))])
	}
	l.save()
	saved := lib.Show(l.s)
	for i := 0; i < 2; i++ {
		l = start(1, set)
		got := lib.Show(l.s)
		same(got, saved)
		if i == 0 {
			l.get("/a")
			l.save()
			saved = lib.Show(l.s)
			sym.Assert(saved.Total == got.Total+2, "counting goes on")
		}
	}
	sym.Cover("restarted")
}

// H_text: every byte in a path survives.
func H_text() {
	env.Init()
	files(0)
	set := conf(false)
	l := start(1, set)
	b := sym.String("byte", 1)
	pre := []string{"/", "/x", "/\xe2\x80", "/\xc2", "/&"}[sym.Case(5)]
	l.get(pre + b)
	l.get(pre + b)
	l.save()
	saved := lib.Show(l.s)
	sym.Assert(saved.Sum == 2 && saved.Total == 2, "counted")
	l = start(0, set)
	same(lib.Show(l.s), saved)
	sym.Cover("restarted")
}

// H_crash: the process stops while saving.
func H_crash() {
	env.Init()
	files(sym.Case(4))
	set := conf(false)
	var old, new lib.Count
	l := start(0, set)
	old = lib.Show(l.s)
	at := sym.IntRange("at", 0, 40)
	part := sym.Choose("part", 5)
	crashed, _ := sym.CatchExit(func() {
		l = start(1, set)
		l.get("/a")
		l.get("/gone")
		env.FaultCrash = true
		env.FaultAt = env.Ops + 1 + at
		env.FaultPart = []int{0, 1, 20, 60, 100000}[part]
		l.save()
		env.FaultAt = 0
		new = lib.Show(l.s)
	})
	env.FaultAt = 0
	if crashed {
		sym.Cover("stopped")
	} else {
		sym.Cover("saved")
	}
	exits, _ := sym.CatchExit(func() { l = start(1, set) })
	sym.Assert(!exits, "the next start succeeds")
	got := lib.Show(l.s)
	if !crashed {
		same(got, new)
	} else {
		full := lib.Count{Total: old.Total + 2, Sum: old.Sum + 2, Paths: map[string]int{}}
		for k, v := range old.Paths {
			full.Paths[k] = v
		}
		full.Paths["200 h/a"]++
		full.Paths["404 h/gone"]++
		sym.Assert(equal(got, old) || equal(got, full), "either the old or the new metrics, in full")
		if equal(got, old) {
			sym.Cover("old")
		} else {
			sym.Cover("new")
		}
	}
	// and it saves again
	l.get("/gone")
	l.save()
	now := lib.Show(l.s)
	sym.Assert(now.Total == got.Total+2, "counting goes on")
	l = start(0, set)
	same(lib.Show(l.s), now)
}

// H_fail: an operation fails while saving.
func H_fail() {
	env.Init()
	files(sym.Case(4))
	set := conf(false)
	l := start(0, set)
	old := lib.Show(l.s)
	at := sym.IntRange("at", 0, 40)
	l = start(2, set)
	l.get("/a")
	env.FaultAt = env.Ops + 1 + at
	env.FaultPart = []int{0, 1, 20, 60, 100000}[sym.Choose("part", 5)]
	n := env.Ops
	l.save()
	failed := env.Ops > n+at
	if failed {
		sym.Cover("failed")
	}
	env.FaultAt = 0
	new := lib.Show(l.s)
	sym.Assert(new.Total == old.Total+1, "nothing is lost in the running server")
	if sym.Choose("restart now", 2) == 1 {
		exits, _ := sym.CatchExit(func() { l = start(1, set) })
		sym.Assert(!exits, "the next start succeeds")
		got := lib.Show(l.s)
		sym.Assert(equal(got, new) || failed && equal(got, old), "either the old or the new metrics, in full")
		return
	}
	// the next save succeeds
	l.save()
	new = lib.Show(l.s)
	exits, _ := sym.CatchExit(func() { l = start(1, set) })
	sym.Assert(!exits, "the next start succeeds")
	same(lib.Show(l.s), new)
}

// H_twice: failures and stops during two saves.
func H_twice() {
	env.Init()
	files(1)
	set := conf(false)
	a, b := sym.IntRange("first", 0, 40), sym.IntRange("second", 0, 40)
	kind := sym.Case(4)
	var l *life
	all := []lib.Count{}
	sym.CatchExit(func() {
		l = start(2, set)
		all = append(all, lib.Show(l.s))
		l.get("/a")
		env.FaultAt, env.FaultCrash, env.FaultPart = env.Ops+1+a, kind&1 == 1, 20
		l.save()
		env.FaultAt = 0
		all = append(all, lib.Show(l.s))
		l.get("/b")
		env.FaultAt, env.FaultCrash, env.FaultPart = env.Ops+1+b, kind&2 == 2, 20
		l.save()
		env.FaultAt = 0
		all = append(all, lib.Show(l.s))
	})
	env.FaultAt = 0
	exits, _ := sym.CatchExit(func() { l = start(1, set) })
	sym.Assert(!exits, "the next start succeeds")
	got := lib.Show(l.s)
	// the views above were counted: compare without them
	ok := false
	delete(got.Paths, "200 h/metrics")
	for t := 2; t <= 4; t++ {
		w := map[string]int{"200 h/a": 1, "200 h/old": 1}
		if t > 2 {
			w["200 h/a"]++
		}
		if t > 3 {
			w["404 h/b"] = 1
		}
		ok = ok || equal(lib.Count{Paths: got.Paths}, lib.Count{Paths: w})
	}
	sym.Assert(ok && got.Total == got.Sum, "one of the saved metrics, in full")
	sym.Cover("restarted")
}

// H_period: metrics are saved again and again.
func H_period() {
	env.Init()
	files(sym.Case(4))
	set := conf(sym.Choose("vhost", 2) == 1)
	n := 3
	l := start(n, set)
	last := ""
	for i := 0; i < n; i++ {
		p := "/r" + string([]byte{byte('0' + i)})
		l.get(p)
		l.save()
		d, ok := env.Data(out)
		sym.Assert(ok && d != last, "saved again")
		sym.Assert(strings.Contains(d, p), "what was counted is saved")
		last = d
	}
	sym.Assert(len(env.Slept) == n+1, "and it goes on")
	saved := lib.Show(l.s)
	l = start(0, set)
	same(lib.Show(l.s), saved)
	sym.Cover("saved")
}

// stop runs the server, makes it listen, runs f and stops it with a signal.
func stop(l *life, sig syscall.Signal, f func()) {
	env.OnListen = func(c env.ListenCall) error {
		f()
		env.Signal(sig)
		sym.BlockForever()
		return nil
	}
	l.s.Serve()
}

// H_stop: metrics are saved on shutdown.
func H_stop() {
	env.Init()
	env.Put("/c", "cert")
	env.Put("/k", "key")
	files(sym.Case(4))
	set := conf(sym.Choose("vhost", 2) == 1)
	sig := []syscall.Signal{syscall.SIGINT, syscall.SIGTERM}[sym.Choose("signal", 2)]
	var l *life
	var all lib.Count
	exits, _ := sym.CatchExit(func() {
		l = start(0, set)
		stop(l, sig, func() {
			l.get("/a")
			l.get("/gone")
			all = lib.Show(l.s)
		})
	})
	sym.Assert(exits, "the server stops")
	all.Paths["200 h/metrics"]++
	all.Total++
	all.Sum++
	l = start(0, set)
	same(lib.Show(l.s), all)
	sym.Cover("restarted")
}

// H_both: a periodic save and the one on shutdown.
func H_both() {
	env.Init()
	env.Put("/c", "cert")
	env.Put("/k", "key")
	c := sym.Case(2)
	files(c)
	set := conf(false)
	var l *life
	exits, _ := sym.CatchExit(func() {
		l = start(1, set)
		stop(l, syscall.SIGTERM, func() {
			l.get("/gone")
			l.release()
		})
	})
	sym.Assert(exits, "the server stops")
	exits, _ = sym.CatchExit(func() { l = start(0, set) })
	sym.Assert(!exits, "the next start succeeds")
	want := lib.Count{}
	if c == 1 {
		want = lib.Count{Total: 2, Sum: 2, Paths: map[string]int{"200 h/a": 1, "200 h/old": 1}}
	}
	want.Add(404, "h/gone")
	same(lib.Show(l.s), want)
	sym.Cover("restarted")
}

// H_busy: requests while saving.
func H_busy() {
	env.Init()
	files(sym.Case(2))
	set := conf(false)
	l := start(1, set)
	l.get("/x")
	before := lib.Show(l.s)
	sym.Go(func() { l.get("/x") })
	sym.Go(func() { l.get("/y") })
	l.release()
	sym.Wait()
	sym.Quiesce()
	l = start(0, set)
	got := lib.Show(l.s)
	sym.Assert(got.Total == got.Sum, "a consistent state is saved")
	x, y := got.Paths["404 h/x"], got.Paths["404 h/y"]
	sym.Assert(x >= 1 && x <= 2 && y <= 1 && got.Total == before.Total+1+x-1+y, "no more and no less than was counted")
	sym.Cover("restarted")
}

// H_crashbusy: the process stops while saving and serving.
func H_crashbusy() {
	env.Init()
	files(1)
	set := conf(false)
	at := sym.IntRange("at", 0, 40)
	var l *life
	sym.CatchExit(func() {
		l = start(1, set)
		env.FaultCrash = true
		env.FaultAt = env.Ops + 1 + at
		env.FaultPart = 30
		sym.Go(func() { l.get("/x") })
		l.release()
		sym.Wait()
		sym.Quiesce()
	})
	env.FaultAt = 0
	exits, _ := sym.CatchExit(func() { l = start(0, set) })
	sym.Assert(!exits, "the next start succeeds")
	got := lib.Show(l.s)
	x := got.Paths["404 h/x"]
	sym.Assert(got.Total == 2+x && got.Sum == got.Total && x <= 1, "one of the saved metrics, in full")
	sym.Cover("restarted")
}

// H_off: without metrics saved metrics are left alone.
func H_off() {
	env.Init()
	env.Put("/c", "cert")
	env.Put("/k", "key")
	exists := sym.Case(2)
	files(exists)
	before, _ := env.Data(out)
	var l *life
	off := sym.Choose("off", 2)
	exits, _ := sym.CatchExit(func() {
		l = start(2, func(c *tuna.Config) {
			conf(false)(c)
			if off == 0 {
				c.Core.Metrics.Enabled = false
			} else {
				c.Core.TLS.Enabled = false
			}
		})
		l.get("/a")
		l.save()
		stop(l, syscall.SIGTERM, func() { l.get("/a") })
	})
	sym.Assert(exits, "the server stops")
	after, ok := env.Data(out)
	sym.Assert(ok == (exists == 1) && after == before, "saved metrics are left alone")
	sym.Cover("stopped")
}

// H_nodir: metrics that cannot be saved do not stop the server.
func H_nodir() {
	env.Init()
	env.Put("/w/a", "A")
	if sym.Case(2) == 1 {
		env.PutDir(out + ".tmp")
		env.PutDir(out + "/x")
	}
	exits, _ := sym.CatchExit(func() {
		l := start(2, conf(false))
		l.get("/a")
		l.save()
		l.get("/a")
		l.save()
		sym.Assert(lib.Show(l.s).Total == 2, "counting goes on")
	})
	if exits {
		sym.Cover("refused")
	} else {
		sym.Cover("served")
	}
}

// H_codes: responses with every kind of code are saved.
func H_codes() {
	env.Init()
	env.PutDir("/m")
	codes := []int{200, 204, 299, 404, 451, 599, 600, 999}
	set := func(c *tuna.Config) {
		c.Guard.RateBurst = 100
		c.Proxy.Enabled = true
		c.Proxy.Rules = map[string]string{"h": "http://u", "g.example": "http://u"}
		c.Proxy.Methods = []string{"GET", "POST"}
		lib.WithMetrics(c)
	}
	code := 0
	u := &lib.Upstream{}
	u.Answer = func(r *http.Request) *http.Response { return u.Resp(code, "", http.Header{}) }
	l := start(1, set)
	l.s.Transport = u
	n := 2
	if sym.Thorough() {
		n = 3
	}
	first := sym.Case(len(codes))
	for i := 0; i < n; i++ {
		code = codes[first]
		if i > 0 {
			code = codes[sym.Choose("code", len(codes))]
		}
		h, m, p := "h", "GET", "/a"
		if i == 0 || sym.Thorough() {
			h = []string{"h", "g.example:8080"}[sym.Choose("host", 2)]
			m = []string{"GET", "POST", "PUT"}[sym.Choose("method", 3)]
			p = []string{"/a", "/"}[sym.Choose("path", 2)]
		}
		lib.Do(l.s, env.Req(m, h, p))
	}
	l.save()
	saved := lib.Show(l.s)
	sym.Assert(saved.Total == n && saved.Sum == n, "counted")
	l = start(1, set)
	same(lib.Show(l.s), saved)
	// saved again without a change in between other than the page view
	l.save()
	l = start(0, set)
	saved.Add(200, "h/metrics")
	same(lib.Show(l.s), saved)
	sym.Cover("restarted")
}

// H_large: large metrics are saved in full or not at all.
func H_large() {
	env.Init()
	env.PutDir("/w")
	env.PutDir("/m")
	size := 900
	cs := sym.Case(8)
	n := sym.Size("paths", []int{10, 76}[cs%2], 300)
	var b strings.Builder
	b.WriteString(`{"TotalRequests": ` + strconv.Itoa(n) + `, "Paths": {"404": {`)
	old := lib.Count{Total: n, Sum: n, Paths: map[string]int{}}
	for i := 0; i < n; i++ {
		if i > 0 {
			b.WriteString(", ")
		}
		p := "h/" + strconv.Itoa(i) + lib.Repeat(size)
		b.WriteString(`"` + p + `": 1`)
		old.Paths["404 "+p] = 1
	}
	b.WriteString(`}}}`)
	env.Put(out, b.String())
	set := conf(false)
	var l *life
	at := sym.IntRange("at", 0, 6)
	crash := sym.Choose("crash", 2) == 1
	sym.CatchExit(func() {
		l = start(1, set)
		l.get("/gone")
		env.FaultCrash = crash
		env.FaultAt = env.Ops + 1 + at
		env.FaultPart = []int{0, 4096, 65536, 1 << 24}[cs/2]
		l.save()
	})
	env.FaultAt = 0
	exits, _ := sym.CatchExit(func() { l = start(0, set) })
	sym.Assert(!exits, "the next start succeeds")
	got := lib.Show(l.s)
	full := lib.Count{Total: n + 1, Sum: n + 1, Paths: map[string]int{"404 h/gone": 1}}
	for k, v := range old.Paths {
		full.Paths[k] = v
	}
	sym.Assert(equal(got, old) || equal(got, full), "either the old or the new metrics, in full")
	sym.Cover("restarted")
}

// H_loaded: exactly what is in the file is loaded, and saved again.
func H_loaded() {
	env.Init()
	env.PutDir("/w")
	env.PutDir("/m")
	all := []struct {
		data string
		want lib.Count
	}{
		{`{"TotalRequests": 9, "Paths": {"200": {"h/a": 1}, "404": {"h/b": 1}}}`, lib.Count{Total: 9, Sum: 2, Paths: map[string]int{"200 h/a": 1, "404 h/b": 1}}},
		{`{"TotalRequests": 1, "Paths": {"200": {"h/a": 5}}}`, lib.Count{Total: 1, Sum: 5, Paths: map[string]int{"200 h/a": 5}}},
		{`{"TotalRequests": 12, "Paths": {"100": {"h/": 1}, "204": {"h/": 1}, "301": {"h/": 1}, "304": {"h/": 1}, "400": {"h/": 1}, "401": {"h/": 1}, "403": {"h/": 1}, "429": {"h/": 1}, "500": {"h/": 1}, "502": {"h/": 1}, "503": {"h/": 1}, "999": {"h/": 1}}}`,
			lib.Count{Total: 12, Sum: 12, Paths: map[string]int{"100 h/": 1, "204 h/": 1, "301 h/": 1, "304 h/": 1, "400 h/": 1, "401 h/": 1, "403 h/": 1, "429 h/": 1, "500 h/": 1, "502 h/": 1, "503 h/": 1, "999 h/": 1}}},
		{`{"TotalRequests": 3000000000, "Paths": {"200": {"h/a": 2999999999, "H/a": 1}}}`, lib.Count{Total: 3000000000, Sum: 3000000000, Paths: map[string]int{"200 h/a": 2999999999, "200 H/a": 1}}},
		{`{"TotalRequests": 4, "Paths": {"200": {"": 1, "/": 1, "::1/x": 1, "a b/c d?e": 1}}}`, lib.Count{Total: 4, Sum: 4, Paths: map[string]int{"200 ": 1, "200 /": 1, "200 ::1/x": 1, "200 a b/c d?e": 1}}},
		{`{"TotalRequests": 0, "Paths": {}}`, lib.Count{}},
		{`{"TotalRequests": 8}`, lib.Count{Total: 8}},
	}
	x := all[sym.Case(len(all))]
	env.Put(out, x.data)
	set := conf(sym.Choose("vhost", 2) == 1)
	l := start(1, set)
	if sym.Choose("save first", 2) == 1 {
		l.save()
		l = start(1, set)
	}
	same(lib.Show(l.s), x.want)
	l.save()
	l = start(0, set)
	x.want.Add(200, "h/metrics")
	same(lib.Show(l.s), x.want)
}

// H_many: many saves and restarts, with paths and hosts a changed tree newly mentions.
func H_many() {
	env.Init()
	files(sym.Case(4))
	set := conf(sym.Choose("vhost", 2) == 1)
	n := sym.Size("saves", 8, 120)
	l := start(n, set)
	p := lib.WordPath("/gone")
	host := lib.WordHost("h")
	for i := 0; i < n; i++ {
		for j := 0; j <= i%3; j++ {
			lib.Do(l.s, env.Req("GET", host, p+strconv.Itoa(i)))
		}
		l.save()
	}
	saved := lib.Show(l.s)
	for i := 0; i < n; i++ {
		l = start(1, set)
		same(lib.Show(l.s), saved)
		l.get(p)
		l.save()
		saved = lib.Show(l.s)
		if i >= 12 {
			break
		}
	}
	sym.Cover("restarted")
}
