// Package c30 decides property C30: shutdown saves metrics and drains connections.
package c30

import (
	"errors"
	"net/http"
	"sync"
	"syscall"
	"time"

	"github.com/redmaner/MaguroHTTP/tuna"
	"github.com/redmaner/MaguroHTTP/verif/env"
	"github.com/redmaner/MaguroHTTP/verif/lib"
	"github.com/redmaner/MaguroHTTP/verif/sym"
)

const out = "/m/out.json"

// proc is a running server process.
type proc struct {
	s         *tuna.Server
	accepting bool        // the listener accepts connections
	closed    bool        // a graceful shutdown began
	closing   *sync.Mutex // locked while accepting
	flight    *sync.Mutex // locked while a request is in flight
	begun     bool
	drained   bool
	saved     string // saved metrics when the shutdown began
	late      error  // what the shutdown reports
}

func locked() *sync.Mutex {
	m := new(sync.Mutex)
	m.Lock()
	return m
}

// create makes a server whose listener and shutdown behave like net/http's.
func create(set func(c *tuna.Config)) *proc {
	p := &proc{closing: locked(), flight: locked()}
	env.Put("/c", "pem")
	env.Put("/k", "pem")
	env.PutDir("/w")
	env.Put("/w/a", "A")
	env.PutDir("/m")
	env.OnListen = func(c env.ListenCall) error {
		if p.closed {
			return http.ErrServerClosed
		}
		p.accepting = true
		sym.Assert(env.Notified(sigs[0]) && env.Notified(sigs[1]), "signals are handled when connections are accepted")
		sym.Gate(p.closing)
		return http.ErrServerClosed
	}
	env.OnShutdown = func(s *http.Server) error {
		sym.Assert(!p.begun, "one shutdown")
		p.begun = true
		p.saved, _ = env.Data(out)
		p.closed = true
		p.accepting = false
		p.closing.Unlock()
		sym.Gate(p.flight)
		p.drained = true
		return p.late
	}
	p.s = lib.Server(func(c *tuna.Config) {
		c.Guard.Rate = 60
		c.Guard.RateBurst = 100
		c.Serve.ServeDir = "/w"
		c.Serve.ServeIndex = "i"
		c.Serve.Methods = map[string]string{"/": "GET"}
		set(c)
	})
	return p
}

// run runs the server; the process ends when Serve returns.
func (p *proc) run() {
	sym.Go(func() {
		defer func() {
			if x := recover(); x != nil {
				env.Exit(2)
			}
		}()
		p.s.Serve()
		env.Exit(0)
	})
}

func (p *proc) get(path string) {
	r := env.Req("GET", "h", path)
	lib.Do(p.s, r)
}

func index(what string) int {
	for i, e := range env.Events {
		if e == what {
			return i
		}
	}
	return -1
}

// ended checks a process that has ended after a signal.
func (p *proc) ended(exits bool) {
	sym.Observe("begun", p.begun)
	sym.Observe("drained", p.drained)
	sym.Assert(exits, "the process ends")
	sym.Assert(p.begun, "with a graceful shutdown")
	sym.Assert(p.drained, "and only after requests in flight are answered")
	sym.Assert(index("close") < 0, "connections are not cut")
	sym.Assert(env.ShutdownTimeout >= time.Second, "that waits a bounded time")
	sym.Cover("ended")
}

var sigs = []syscall.Signal{syscall.SIGINT, syscall.SIGTERM}

// mode sets up one of four kinds of servers.
func mode(k int) func(c *tuna.Config) {
	return func(c *tuna.Config) {
		switch k {
		case 1:
			lib.WithMetrics(c)
		case 2:
			c.Core.TLS.Enabled = true
			c.Core.TLS.TLSCert = "/c"
			c.Core.TLS.TLSKey = "/k"
		case 3:
			// metrics need TLS
			lib.WithMetrics(c)
			c.Core.TLS.Enabled = false
		case 4:
			lib.WithMetrics(c)
			c.Core.Port = "443"
			c.Core.TLS.AutoCert.Enabled = true
			c.Core.TLS.AutoCert.Certificates = []string{"a.example"}
		}
	}
}

// H_signal: a signal while serving.
func H_signal() {
	env.Init()
	k := sym.Case(5)
	sig := sigs[sym.Choose("signal", 2)]
	existing := sym.Choose("saved metrics", 2)
	if existing == 1 {
		env.Put(out, `{"TotalRequests": 1, "Paths": {"200": {"h/old": 1}}}`)
	}
	before, _ := env.Data(out)
	p := (*proc)(nil)
	late := sym.Choose("late", 2) == 1
	n := sym.Choose("requests", 3)
	exits, _ := sym.CatchExit(func() {
		p = create(mode(k))
		if late {
			p.late = errors.New("context deadline exceeded")
		}
		p.run()
		sym.Quiesce()
		sym.Assert(p.accepting && !p.begun, "serving")
		for i := 0; i < n; i++ {
			p.get("/a")
		}
		sym.Quiesce()
		sym.Assert(p.accepting && !p.begun, "serving")
		sym.Assert(env.Signal(sig), "the signal is handled")
		sym.Quiesce()
		// a request is still in flight
		sym.Assert(p.begun && !p.accepting, "no more connections")
		sym.Assert(!p.drained, "waiting")
		p.flight.Unlock()
		sym.Quiesce()
		sym.Fail("the process goes on")
	})
	p.ended(exits)
	if k == 1 || k == 4 {
		sym.Assert(p.saved != "" && p.saved != before, "metrics are saved before")
		env.OnListen, env.OnShutdown = nil, nil
		env.SleepLeft = 0
		q := create(mode(k))
		sym.Assert(lib.Show(q.s).Total == existing+n, "every request is in the saved metrics")
	} else {
		sym.Assert(p.saved == before, "no metrics")
	}
}

// H_any: a signal at any moment after start, whatever runs first.
func H_any() {
	env.Init()
	k := sym.Case(2)
	sig := sigs[sym.Choose("signal", 2)]
	p := (*proc)(nil)
	exits, _ := sym.CatchExit(func() {
		p = create(mode(k))
		asked := locked()
		once := false
		env.OnNotify = func() {
			if !once && env.Notified(sig) {
				once = true
				asked.Unlock()
			}
		}
		p.run()
		sym.Gate(asked)
		env.Signal(sig)
		p.flight.Unlock()
		sym.Quiesce()
		sym.Fail("the process goes on")
	})
	p.ended(exits)
	if k == 1 {
		sym.Assert(p.saved != "", "metrics are saved before")
	}
}

// H_more: more signals do not cut the shutdown short.
func H_more() {
	env.Init()
	k := sym.Case(2)
	a, b := sigs[sym.Choose("first", 2)], sigs[sym.Choose("second", 2)]
	p := (*proc)(nil)
	exits, _ := sym.CatchExit(func() {
		p = create(mode(k))
		p.run()
		sym.Quiesce()
		env.Signal(a)
		if sym.Choose("at once", 2) == 0 {
			sym.Quiesce()
		}
		env.Signal(b)
		env.Signal(b)
		sym.Quiesce()
		sym.Assert(p.begun && !p.drained, "waiting")
		p.flight.Unlock()
		sym.Quiesce()
		sym.Fail("the process goes on")
	})
	p.ended(exits)
}

// H_fault: metrics that cannot be saved do not prevent the shutdown.
func H_fault() {
	env.Init()
	if sym.Case(2) == 1 {
		env.Put(out, `{"TotalRequests": 1, "Paths": {"200": {"h/old": 1}}}`)
	}
	at := sym.IntRange("at", 1, 20)
	part := sym.Choose("part", 2)
	sig := sigs[sym.Choose("signal", 2)]
	p := (*proc)(nil)
	exits, _ := sym.CatchExit(func() {
		p = create(mode(1))
		p.run()
		p.get("/a")
		sym.Quiesce()
		env.FaultAt = env.Ops + at
		env.FaultPart = part * 10
		env.Signal(sig)
		sym.Quiesce()
		p.flight.Unlock()
		sym.Quiesce()
		sym.Fail("the process goes on")
	})
	env.FaultAt = 0
	p.ended(exits)
}

// H_busy: requests while the server shuts down.
func H_busy() {
	env.Init()
	k := sym.Case(2)
	sig := sigs[sym.Choose("signal", 2)]
	p := (*proc)(nil)
	done := false
	exits, _ := sym.CatchExit(func() {
		p = create(mode(k))
		p.run()
		sym.Quiesce()
		sym.Go(func() {
			p.get("/a")
			done = true
			p.flight.Unlock()
		})
		env.Signal(sig)
		sym.Quiesce()
		sym.Fail("the process goes on")
	})
	p.ended(exits)
	sym.Assert(done, "the request in flight is answered")
}

// H_periodic: a signal while metrics are being saved.
func H_periodic() {
	env.Init()
	sig := sigs[sym.Case(2)]
	p := (*proc)(nil)
	gate := locked()
	exits, _ := sym.CatchExit(func() {
		env.SleepLeft = 1
		env.OnSleep = func(d time.Duration) {
			if env.SleepLeft > 0 {
				sym.Gate(gate)
			}
		}
		p = create(mode(1))
		p.run()
		p.get("/a")
		sym.Quiesce()
		gate.Unlock()
		env.Signal(sig)
		p.flight.Unlock()
		sym.Quiesce()
		sym.Fail("the process goes on")
	})
	p.ended(exits)
	sym.Assert(p.saved != "", "metrics are saved before")
}

// H_none: without a signal the server goes on.
func H_none() {
	env.Init()
	k := sym.Case(5)
	p := (*proc)(nil)
	exits, _ := sym.CatchExit(func() {
		env.SleepLeft = 3
		p = create(mode(k))
		p.run()
		sym.Quiesce()
		for i := 0; i < 3; i++ {
			p.get([]string{"/a", "/gone", "/metrics", "/../x"}[sym.Choose("request", 4)])
		}
		sym.Quiesce()
	})
	sym.Assert(!exits && p.accepting && !p.begun && index("close") < 0, "serving")
	sym.Cover("serving")
}

// H_program: a program that uses the server without a configuration file.
func H_program() {
	env.Init()
	sig := sigs[sym.Case(2)]
	p := (*proc)(nil)
	exits, _ := sym.CatchExit(func() {
		p = create(mode(0))
		cfg := tuna.CoreConfig{Port: "443", LogOut: "stdout", FileDir: "/f/"}
		p.s = tuna.NewInstance(cfg)
		p.run()
		sym.Quiesce()
		env.Signal(sig)
		sym.Quiesce()
		sym.Assert(p.begun && !p.drained, "waiting")
		p.flight.Unlock()
		sym.Quiesce()
		sym.Fail("the process goes on")
	})
	p.ended(exits)
}

// H_config: servers with many virtual hosts, in other modes, with other timeouts, under load.
func H_config() {
	env.Init()
	c := sym.Case(6)
	sig := sigs[sym.Choose("signal", 2)]
	hosts, timeout, n, kind, level := 0, 30, 1, 0, 0
	switch c {
	case 0:
		hosts = sym.Size("hosts", []int{1, 3, 12, 40}[sym.Choose("hosts", 4)], 120)
	case 1:
		timeout = sym.Size("timeout", []int{0, 1, 2, 60, 600, -1}[sym.Choose("timeout", 6)], 1<<30)
	case 2:
		n = sym.Size("requests", []int{0, 30, 150}[sym.Choose("requests", 3)], 1200)
	case 3:
		kind = 1 + sym.Choose("kind", 4)
	case 4:
		level = 1 + sym.Choose("log level", 3)
	}
	addr := []string{"", "127.0.0.1"}[sym.Choose("address", 2)]
	host := "h"
	if c == 5 {
		hosts = 2
		host = lib.WordHost("q")
	}
	set := func(c *tuna.Config) {
		c.Guard.RateBurst = 1 << 30
		c.Serve.ServeDir = "/w"
		c.Serve.ServeIndex = "i"
		c.Serve.Methods = map[string]string{"/": "GET"}
		switch kind {
		case 1:
			c.Proxy.Enabled = true
			c.Proxy.Rules = map[string]string{"h": "http://u"}
			c.Proxy.Methods = []string{"GET"}
		case 2:
			c.Serve.Methods = nil
			c.Serve.Download.Enabled = true
			c.Serve.Download.Exts = []string{".t"}
		case 3:
			c.Guard.Firewall.Enabled = true
		case 4:
			c.Core.WebDAV = true
		}
	}
	lib.Conf("/v.hcl", set)
	conf := func(c *tuna.Config) {
		lib.WithMetrics(c)
		set(c)
		c.Core.Address = addr
		c.Core.LogLevel = level
		c.Core.ReadTimeout, c.Core.ReadHeaderTimeout, c.Core.WriteTimeout = timeout, timeout, timeout
		if hosts > 0 {
			c.Core.VirtualHosting = true
			c.Core.VirtualHosts = map[string]string{host: "/v.hcl"}
			for i := 1; i < hosts; i++ {
				c.Core.VirtualHosts["v"+string([]byte{byte('a' + i%26), byte('a' + i/26)})] = "/v.hcl"
			}
		}
	}
	p := (*proc)(nil)
	exits, _ := sym.CatchExit(func() {
		p = create(conf)
		p.s.Transport = &lib.Upstream{}
		p.run()
		sym.Quiesce()
		for i := 0; i < n; i++ {
			lib.Do(p.s, env.Req("GET", host, "/a"))
		}
		sym.Assert(env.Signal(sig), "the signal is handled")
		sym.Quiesce()
		sym.Assert(p.begun && !p.accepting, "no more connections")
		sym.Assert(!p.drained, "waiting")
		p.flight.Unlock()
		sym.Quiesce()
		sym.Fail("the process goes on")
	})
	p.ended(exits)
	sym.Assert(env.ShutdownTimeout >= time.Second, "requests in flight have time")
	env.OnListen, env.OnShutdown = nil, nil
	env.SleepLeft = 0
	q := create(conf)
	sym.Assert(lib.Show(q.s).Total == n, "every request is in the saved metrics")
}
