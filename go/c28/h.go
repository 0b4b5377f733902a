// Package c28 decides property C28: a server configured for TLS never speaks plaintext.
package c28

import (
	"crypto/tls"
	"errors"
	"strings"
	"time"

	"github.com/redmaner/MaguroHTTP/tuna"
	"github.com/redmaner/MaguroHTTP/verif/env"
	"github.com/redmaner/MaguroHTTP/verif/lib"
	"github.com/redmaner/MaguroHTTP/verif/sym"
)

// forwardSecret are the cipher suites with forward secrecy and authenticated encryption.
var forwardSecret = []uint16{
	tls.TLS_AES_128_GCM_SHA256, tls.TLS_AES_256_GCM_SHA384, tls.TLS_CHACHA20_POLY1305_SHA256,
	tls.TLS_ECDHE_ECDSA_WITH_AES_128_GCM_SHA256, tls.TLS_ECDHE_RSA_WITH_AES_128_GCM_SHA256,
	tls.TLS_ECDHE_ECDSA_WITH_AES_256_GCM_SHA384, tls.TLS_ECDHE_RSA_WITH_AES_256_GCM_SHA384,
	tls.TLS_ECDHE_ECDSA_WITH_CHACHA20_POLY1305, tls.TLS_ECDHE_RSA_WITH_CHACHA20_POLY1305,
}

// serve runs the server until it listens or gives up, and reports how often it listened.
func serve(s *tuna.Server, answer error) []env.ListenCall {
	env.OnListen = func(c env.ListenCall) error {
		if answer == nil {
			env.Exit(77)
		}
		return answer
	}
	sym.CatchExit(func() {
		defer func() {
			if x := recover(); x != nil {
				env.Exit(2)
			}
		}()
		s.Serve()
		env.Exit(0)
	})
	return env.Listens
}

// crypto checks the parameters of a TLS listener.
func crypto(c *tls.Config) {
	sym.Assert(c != nil && c.MinVersion >= tls.VersionTLS12, "at least TLS 1.2")
	sym.Assert(c.MaxVersion == 0 || c.MaxVersion >= tls.VersionTLS12 && c.MaxVersion <= tls.VersionTLS13, "at most TLS 1.3")
	n := 0
	for _, x := range c.CipherSuites {
		ok := false
		for _, y := range forwardSecret {
			ok = ok || x == y
		}
		sym.Assert(ok, "only forward-secret AEAD cipher suites")
		n++
	}
	sym.Assert(n > 0, "cipher suites are chosen")
	if c.GetConfigForClient != nil {
		sym.Fail("another configuration may be used")
	}
}

// one checks a call that listens with the certificate of two files.
func one(l env.ListenCall, cert, key string) {
	sym.Assert(l.TLS, "listens with TLS")
	crypto(l.Srv.TLSConfig)
	sym.Assert(l.Srv.TLSConfig.GetCertificate == nil, "no other certificates")
	cs := l.Srv.TLSConfig.Certificates
	if l.Cert == "" && len(cs) > 0 {
		for _, c := range cs {
			sym.Assert(string(c.Certificate[0]) == cert && string(c.OCSPStaple) == key, "the configured certificate")
		}
		return
	}
	sym.Assert(l.Cert == cert && l.Key == key && len(cs) == 0, "the configured certificate")
}

func part(c *tuna.Config) {
	c.Serve.ServeDir = "/w"
	c.Serve.Methods = map[string]string{"/": "GET"}
}

// H_files: certificates in files.
func H_files() {
	env.Init()
	vhost := sym.Choose("vhost", 2) == 1
	lib.Conf("/v.hcl", part)
	on := sym.Bool("TLS")
	names := []bool{sym.Bool("a CA"), sym.Bool("metrics")}
	s := lib.Server(func(c *tuna.Config) {
		part(c)
		c.Core.Port = []string{"443", "80", "8443"}[sym.Choose("port", 3)]
		c.Core.TLS.Enabled = on
		c.Core.TLS.TLSCert, c.Core.TLS.TLSKey = "/c", "/k"
		if names[0] {
			c.Core.TLS.PrivateCA = []string{"/gone", "/ca"}
		}
		c.Core.VirtualHosting = vhost
		c.Core.VirtualHosts = map[string]string{"h": "/v.hcl"}
		if names[1] {
			c.Core.Metrics.Enabled = true
			c.Core.Metrics.Path = "/metrics"
			c.Core.Metrics.Out = "/m"
		}
	})
	env.Put("/ca", "no certificate")
	cert, key := 0, 0
	if k := sym.Case(9); true {
		cert, key = k%3, k/3
	}
	for i, n := range []string{"/c", "/k"} {
		switch []int{cert, key}[i] {
		case 1:
			env.Put(n, "pem")
		case 2:
			env.PutDir(n)
		}
	}
	ls := serve(s, nil)
	sym.Observe("listens", len(ls))
	if !on {
		sym.Assert(len(ls) == 1 && !ls[0].TLS, "listens without TLS")
		sym.Cover("plain")
		return
	}
	if len(ls) == 0 {
		sym.Assert(cert != 1 || key != 1, "listens if it can")
		sym.Cover("refused")
		return
	}
	sym.Assert(len(ls) == 1, "listens once")
	one(ls[0], "/c", "/k")
	sym.Cover("TLS")
}

// H_vanish: certificates that are there at start only.
func H_vanish() {
	env.Init()
	env.Put("/c", "pem")
	env.Put("/k", "pem")
	s := lib.Server(func(c *tuna.Config) {
		part(c)
		c.Core.TLS.Enabled = true
		c.Core.TLS.TLSCert, c.Core.TLS.TLSKey = "/c", "/k"
	})
	switch sym.Case(4) {
	case 1:
		env.Del("/c")
	case 2:
		env.Del("/k")
	case 3:
		env.DenyRead = "/k"
	}
	ls := serve(s, nil)
	for _, l := range ls {
		one(l, "/c", "/k")
	}
	if len(ls) == 0 {
		sym.Cover("refused")
	} else {
		sym.Cover("TLS")
	}
}

// H_fail: listening fails.
func H_fail() {
	env.Init()
	env.Put("/c", "pem")
	env.Put("/k", "pem")
	auto := sym.Bool("autocert")
	s := lib.Server(func(c *tuna.Config) {
		part(c)
		c.Core.Port = "443"
		c.Core.TLS.Enabled = true
		c.Core.TLS.TLSCert, c.Core.TLS.TLSKey = "/c", "/k"
		c.Core.TLS.AutoCert.Enabled = auto
		c.Core.TLS.AutoCert.Certificates = []string{"a.example"}
	})
	var err error
	switch sym.Case(2) {
	case 0:
		err = errors.New("tls: private key does not match public key")
	case 1:
		err = errors.New("listen tcp :443: bind: permission denied")
	}
	ls := serve(s, err)
	sym.Assert(len(ls) >= 1, "listens")
	for _, l := range ls {
		sym.Assert(l.TLS, "never listens without TLS")
		crypto(l.Srv.TLSConfig)
	}
	sym.Cover("failed")
}

// H_auto: certificates restricted to the configured names.
func H_auto() {
	env.Init()
	lists := [][]string{{"a.example"}, {"a.example", "b.example"}, {"www.b.example", "b.example", "c.example"}}
	list := lists[sym.Case(3)]
	files := sym.Choose("files", 3)
	s := lib.Server(func(c *tuna.Config) {
		part(c)
		c.Core.Port = "443"
		c.Core.TLS.Enabled = true
		c.Core.TLS.AutoCert.Enabled = true
		c.Core.TLS.AutoCert.Certificates = list
		if files > 0 {
			c.Core.TLS.TLSCert, c.Core.TLS.TLSKey = "/c", "/k"
		}
	})
	if files == 2 {
		env.Put("/c", "pem")
		env.Put("/k", "pem")
	}
	ls := serve(s, nil)
	sym.Assert(len(ls) == 1 && ls[0].TLS, "listens with TLS")
	c := ls[0].Srv.TLSConfig
	crypto(c)
	sym.Assert(c.GetCertificate != nil, "certificates are requested")
	if ls[0].Cert != "" {
		sym.Assert(ls[0].Cert == "/c" && ls[0].Key == "/k", "the configured certificate")
	}
	alpn := ""
	for _, p := range c.NextProtos {
		alpn += p + " "
	}
	sym.Assert(strings.Contains(alpn, "acme-tls/1"), "certificates can be validated")
	// which names
	names := append([]string{"evil.example", "x.a.example", "aexample.org", "c.example.org"}, list...)
	name := names[sym.Choose("name", 5)]
	listed := false
	for _, n := range list {
		listed = listed || n == name
	}
	env.PolicyAsked = nil
	_, err := c.GetCertificate(&tls.ClientHelloInfo{ServerName: name})
	sym.Assert(len(env.PolicyAsked) == 1 && env.PolicyAsked[0] == name, "the name is checked")
	if listed {
		sym.Assert(err == env.ErrListed, "configured names are allowed")
		sym.Cover("listed")
	} else {
		sym.Assert(err == env.ErrUnlisted, "other names are refused")
		sym.Cover("unlisted")
	}
}

// H_address: address, port and timeouts.
func H_address() {
	env.Init()
	env.Put("/c", "pem")
	env.Put("/k", "pem")
	on := sym.Bool("TLS")
	addr := sym.String("address", sym.Case(4))
	port := sym.String("port", 1+sym.Choose("port", 3))
	for i := 0; i < len(addr); i++ {
		sym.Assume(addr[i] != ':')
	}
	t := []int{sym.IntRange("read", 0, 1000000), sym.IntRange("header", 0, 1000000), sym.IntRange("write", 0, 1000000)}
	given := sym.Bool("timeouts are given")
	s := lib.Server(func(c *tuna.Config) {
		part(c)
		c.Core.Address, c.Core.Port = addr, port
		if given {
			c.Core.ReadTimeout, c.Core.ReadHeaderTimeout, c.Core.WriteTimeout = t[0], t[1], t[2]
		}
		c.Core.TLS.Enabled = on
		c.Core.TLS.TLSCert, c.Core.TLS.TLSKey = "/c", "/k"
	})
	ls := serve(s, nil)
	sym.Assert(len(ls) == 1, "listens once")
	l := ls[0]
	sym.Assert(sym.Iff(l.TLS, on), "with TLS iff configured")
	sym.Assert(sym.EqStr(l.Addr, addr+":"+port), "on the configured address and port")
	if !given {
		t = []int{30, 8, 30}
	}
	sym.Assert(l.Srv.ReadTimeout == time.Duration(t[0])*time.Second, "read timeout")
	sym.Assert(l.Srv.ReadHeaderTimeout == time.Duration(t[1])*time.Second, "header timeout")
	sym.Assert(l.Srv.WriteTimeout == time.Duration(t[2])*time.Second, "write timeout")
	sym.Cover("listens")
}

// H_program: a program that uses the server without a configuration file.
func H_program() {
	env.Init()
	k := sym.Case(4)
	if k != 1 {
		env.Put("/c", "pem")
		env.Put("/k", "pem")
	}
	cfg := tuna.CoreConfig{Port: "443", LogOut: "stdout", FileDir: "/f/"}
	cfg.TLS.Enabled = sym.Bool("TLS")
	cfg.TLS.AutoCert.Enabled = k == 3
	if k < 2 {
		cfg.TLS.TLSCert, cfg.TLS.TLSKey = "/c", "/k"
	}
	s := tuna.NewInstance(cfg)
	ls := serve(s, nil)
	if !cfg.TLS.Enabled {
		sym.Assert(len(ls) == 1 && !ls[0].TLS, "listens without TLS")
		sym.Cover("plain")
		return
	}
	if k == 0 {
		sym.Assert(len(ls) == 1, "listens")
	}
	for _, l := range ls {
		sym.Assert(k == 0, "nothing to listen with")
		one(l, "/c", "/k")
	}
	sym.Cover("TLS or nothing")
}

// H_known: well-known addresses, ports, certificate names and modes.
func H_known() {
	env.Init()
	env.Put("/c", "pem")
	env.Put("/k", "pem")
	addr, port, cert, key := "", "443", "/c", "/k"
	c := sym.Case(5)
	switch c {
	case 0:
		as := []string{"127.0.0.1", "localhost", "::1", "[::1]", "0.0.0.0", "10.0.0.1", "192.168.0.1", "example.com", "*", lib.WordHost("a")}
		addr = as[sym.Choose("address", len(as))]
	case 1:
		ps := []string{"80", "8080", "8000", "443", "8443", "0", "http", "https", "3000", "65536", lib.WordText("81")}
		port = ps[sym.Choose("port", len(ps))]
	case 2:
		ns := []string{"/etc/ssl/cert.pem", "cert.crt", "/snakeoil", "/c d", "./c", "/" + lib.WordName("x")}
		cert = ns[sym.Choose("certificate", len(ns))]
		key = []string{cert, "/etc/ssl/key.pem", "k.key"}[sym.Choose("key", 3)]
		env.PutDir("/etc/ssl")
		env.Put(cert, "pem")
		env.Put(key, "pem")
	}
	level := []int{0, 3}[sym.Choose("log level", 2)]
	mode := 0
	if c == 3 {
		mode = sym.Choose("mode", 5)
	}
	t := 30
	if c == 4 {
		ts := []int{0, 1, 2, 29, 31, 300, 86400, -1}
		t = sym.Size("timeout", ts[sym.Choose("timeout", len(ts))], 1<<30)
	}
	lib.Conf("/v.hcl", part)
	s := lib.Server(func(c *tuna.Config) {
		part(c)
		c.Core.Address, c.Core.Port, c.Core.LogLevel = addr, port, level
		c.Core.TLS.Enabled = true
		c.Core.TLS.TLSCert, c.Core.TLS.TLSKey = cert, key
		c.Core.ReadTimeout, c.Core.ReadHeaderTimeout, c.Core.WriteTimeout = t, t, t
		c.Core.TLS.HSTS.MaxAge = []int{0, 31557600}[mode&1]
		switch mode {
		case 1:
			c.Core.WebDAV = true
		case 2:
			c.Proxy.Enabled = true
			c.Proxy.Rules = map[string]string{"h": "http://u"}
			c.Proxy.Methods = []string{"GET"}
		case 3:
			c.Serve.ServeIndex = "/i"
			c.Serve.Download.Enabled = true
		case 4:
			c.Core.VirtualHosting = true
			c.Core.VirtualHosts = map[string]string{"localhost": "/v.hcl", "a": "/v.hcl", "b": "/v.hcl", "c": "/v.hcl"}
		}
	})
	ls := serve(s, nil)
	sym.Assert(len(ls) == 1, "listens once")
	one(ls[0], cert, key)
	sym.Assert(ls[0].Addr == addr+":"+port, "on the configured address and port")
	d := time.Duration(t) * time.Second
	sym.Assert(ls[0].Srv.ReadTimeout == d && ls[0].Srv.ReadHeaderTimeout == d && ls[0].Srv.WriteTimeout == d, "with the configured timeouts")
}

// H_names: many and unusual names for requested certificates.
func H_names() {
	env.Init()
	n := sym.Size("names", []int{1, 9, 40}[sym.Case(3)], 300)
	var list []string
	for i := 0; i < n; i++ {
		list = append(list, "n"+string([]byte{byte('a' + i%26), byte('a' + i/26)})+".example")
	}
	special := []string{"*", "*.example", "", "localhost", ".", ".example", "example", "127.0.0.1", "N.example", lib.WordHost("w.example")}
	at := sym.Choose("place", 3)
	x := special[sym.Choose("special", len(special))]
	switch at {
	case 0:
		list = append([]string{x}, list...)
	case 1:
		list = append(list, x)
	}
	addr := []string{"", "127.0.0.1"}[sym.Choose("address", 2)]
	s := lib.Server(func(c *tuna.Config) {
		part(c)
		c.Core.Address, c.Core.Port = addr, "443"
		c.Core.TLS.Enabled = true
		c.Core.TLS.AutoCert.Enabled = true
		c.Core.TLS.AutoCert.Certificates = list
	})
	ls := serve(s, nil)
	sym.Assert(len(ls) == 1 && ls[0].TLS, "listens with TLS")
	c := ls[0].Srv.TLSConfig
	crypto(c)
	sym.Assert(c.GetCertificate != nil, "certificates are requested")
	names := []string{"evil.example", "x.na" + "a.example", "www.example", "10.0.0.1", "a.local" + "host", "naa.example", list[len(list)-1]}
	k := sym.Choose("name", len(names))
	name := names[k]
	if k == len(names)-1 && (at != 2) {
		name = list[n/2] // whatever is special
		sym.Assume(name != x)
	}
	listed := false
	for _, y := range list {
		listed = listed || y == name
	}
	env.PolicyAsked = nil
	_, err := c.GetCertificate(&tls.ClientHelloInfo{ServerName: name})
	sym.Assert(len(env.PolicyAsked) == 1 && env.PolicyAsked[0] == name, "the name is checked")
	if listed {
		sym.Assert(err == env.ErrListed, "configured names are allowed")
		sym.Cover("listed")
	} else {
		sym.Assert(err == env.ErrUnlisted, "other names are refused")
		sym.Cover("unlisted")
	}
}
