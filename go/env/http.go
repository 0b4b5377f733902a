package env

import (
	"context"
	"crypto/tls"
	"crypto/x509"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"os"
	"path"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	"github.com/redmaner/MaguroHTTP/verif/sym"
	"golang.org/x/crypto/acme/autocert"
)

// ---- responses and requests ----

// Rec is a http.ResponseWriter with the semantics of net/http's server.
type Rec struct {
	H       http.Header
	Sent    http.Header // snapshot taken with the status line
	Code    int
	Body    string
	Writes  int
	NHeader int // WriteHeader calls
	FailAt  int // this write and later ones fail (1-based, 0 never)
	Extra   int // WriteHeader calls after the status line was sent
}

func NewRec() *Rec { return &Rec{H: http.Header{}} }

func (r *Rec) Header() http.Header { return r.H }

func (r *Rec) WriteHeader(code int) {
	r.NHeader++
	if r.Code != 0 {
		r.Extra++
		return
	}
	if code < 100 || code > 999 {
		panic(fmt.Sprintf("invalid WriteHeader code %v", code))
	}
	if code >= 100 && code <= 199 && code != 101 {
		return
	}
	r.Code = code
	r.Sent = http.Header{}
	for k, v := range r.H {
		r.Sent[k] = append([]string(nil), v...)
	}
}

func (r *Rec) Write(b []byte) (int, error) { return r.WriteString(string(b)) }

func (r *Rec) WriteString(s string) (int, error) {
	if r.Code == 0 {
		r.WriteHeader(200)
	}
	r.Writes++
	if r.FailAt > 0 && r.Writes >= r.FailAt {
		return 0, ErrFault
	}
	r.Body += s
	return len(s), nil
}

// Done ends the response as the server does when the handler returns.
func (r *Rec) Done() {
	if r.Code == 0 {
		r.WriteHeader(200)
	}
}

// Get returns the header the client received.
func (r *Rec) Get(k string) string { return r.Sent.Get(k) }

// Req builds a request as the server delivers it.
func Req(method, host, p string) *http.Request {
	r := &http.Request{
		Method: method, Host: host, URL: &url.URL{Path: p}, Header: http.Header{},
		RemoteAddr: "192.0.2.1:1234", RequestURI: p, Body: http.NoBody,
		Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
	}
	open(r)
	return r
}

// Body is a request or response body.
type Body struct {
	Data   string
	pos    int
	Closed int
	FailAt int // reading fails once this many bytes were delivered (-1 never)
}

func NewBody(s string) *Body { return &Body{Data: s, FailAt: -1} }

func (b *Body) Read(p []byte) (int, error) {
	if b.FailAt >= 0 && b.pos >= b.FailAt {
		return 0, ErrFault
	}
	if b.pos >= len(b.Data) {
		return 0, io.EOF
	}
	d := b.Data[b.pos:]
	if b.FailAt >= 0 && b.pos+len(d) > b.FailAt {
		d = d[:b.FailAt-b.pos]
	}
	n := copy(p, d)
	b.pos += n
	return n, nil
}

func (b *Body) Close() error { b.Closed++; return nil }

// ---- serving files: net/http/fs.go with single ranges and If-Modified-Since, without other conditional requests ----

func containsDotDot(v string) bool {
	if !strings.Contains(v, "..") {
		return false
	}
	// split at / and \, bytewise: no byte of a multi-byte rune equals one of them
	j := 0
	for i := 0; i <= len(v); i++ {
		if i == len(v) || v[i] == '/' || v[i] == '\\' {
			if v[j:i] == ".." {
				return true
			}
			j = i + 1
		}
	}
	return false
}

func localRedirect(w http.ResponseWriter, r *http.Request, newPath string) {
	if q := r.URL.RawQuery; q != "" {
		newPath += "?" + q
	}
	w.Header().Set("Location", newPath)
	w.WriteHeader(http.StatusMovedPermanently)
}

// ServeFile is http.ServeFile.
func ServeFile(w http.ResponseWriter, r *http.Request, name string) {
	if containsDotDot(r.URL.Path) {
		serveError(w, "invalid URL path", http.StatusBadRequest)
		return
	}
	dir, file := filepath.Split(name)
	serveFile(w, r, dir, file)
}

func serveError(w http.ResponseWriter, text string, code int) {
	h := w.Header()
	h.Del("Cache-Control")
	h.Del("Content-Encoding")
	h.Del("Etag")
	h.Del("Last-Modified")
	http.Error(w, text, code)
}

func dirOpen(dir, name string) (*os.File, error) {
	p := path.Clean("/" + name)[1:]
	if p == "" {
		p = "."
	}
	if dir == "" {
		dir = "."
	}
	return Open(filepath.Join(dir, p))
}

func serveFile(w http.ResponseWriter, r *http.Request, dir, name string) {
	if strings.HasSuffix(r.URL.Path, "/index.html") {
		localRedirect(w, r, "./")
		return
	}
	f, err := dirOpen(dir, name)
	if err != nil {
		code := 500
		if p, ok := err.(*os.PathError); ok {
			switch p.Err {
			case os.ErrNotExist:
				code = 404
			case os.ErrPermission:
				code = 403
			}
		}
		text := "500 Internal Server Error"
		if code == 404 {
			text = "404 page not found"
		} else if code == 403 {
			text = "403 Forbidden"
		}
		serveError(w, text, code)
		return
	}
	h := handles[f]
	if h.n.dir {
		u := r.URL.Path
		if u == "" || u[len(u)-1] != '/' {
			localRedirect(w, r, path.Base(u)+"/")
			FClose(f)
			return
		}
		ff, err := dirOpen(dir, strings.TrimSuffix(name, "/")+"/index.html")
		if err == nil {
			FClose(f)
			f = ff
			h = handles[f]
		}
	}
	if h.n.dir {
		w.Header().Set("Content-Type", "text/html; charset=utf-8")
		io.WriteString(w, "<pre>\n")
		for _, c := range children(h.n.name) {
			io.WriteString(w, "<a href>"+path.Base(c.name)+"</a>\n")
		}
		io.WriteString(w, "</pre>\n")
		FClose(f)
		return
	}
	content(w, r, h)
	FClose(f)
}

// SniffedType stands for a content type that net/http derives by itself.
const SniffedType = "sniffed/type"

// part answers conditional and range requests: it returns true if the answer is complete.
func part(w http.ResponseWriter, r *http.Request, h *handle) bool {
	first := func(k string) string {
		if v := r.Header[k]; len(v) > 0 {
			return v[0]
		}
		return ""
	}
	if s := first("If-Modified-Since"); s != "" && (r.Method == "GET" || r.Method == "HEAD") {
		if t, err := http.ParseTime(s); err == nil && t.UnixNano() >= h.n.mtime {
			w.Header().Del("Content-Type")
			w.Header().Del("Content-Length")
			w.WriteHeader(304)
			return true
		}
	}
	s := first("Range")
	if s == "" {
		return false
	}
	size := len(h.n.data)
	from, to := 0, size-1
	switch {
	case !strings.HasPrefix(s, "bytes="):
		serveError(w, "invalid range", 416)
		return true
	case s[6] == '-':
		n, err := strconv.Atoi(s[7:])
		if err != nil {
			serveError(w, "invalid range", 416)
			return true
		}
		if n > size {
			n = size
		}
		from = size - n
	default:
		i := strings.IndexByte(s, '-')
		n, err := strconv.Atoi(s[6:i])
		if err != nil {
			serveError(w, "invalid range", 416)
			return true
		}
		from = n
		if m, err := strconv.Atoi(s[i+1:]); err == nil && m < to {
			to = m
		}
	}
	if from >= size {
		w.Header().Set("Content-Range", "bytes */"+strconv.Itoa(size))
		serveError(w, "invalid range: failed to overlap", 416)
		return true
	}
	w.Header().Set("Accept-Ranges", "bytes")
	w.Header().Set("Content-Range", "bytes "+strconv.Itoa(from)+"-"+strconv.Itoa(to)+"/"+strconv.Itoa(size))
	w.WriteHeader(206)
	if r.Method != "HEAD" {
		io.WriteString(w, h.n.data[from:to+1])
	}
	return true
}

func content(w http.ResponseWriter, r *http.Request, h *handle) {
	if (r.Header["Range"] != nil || r.Header["If-Modified-Since"] != nil) && part(w, r, h) {
		return
	}
	if _, ok := w.Header()["Content-Type"]; !ok {
		w.Header().Set("Content-Type", SniffedType)
	}
	w.Header().Set("Accept-Ranges", "bytes")
	w.WriteHeader(200)
	if r.Method != "HEAD" && len(h.n.data) > 0 {
		io.WriteString(w, h.n.data)
	}
}

// ServeContent is http.ServeContent for files of the environment and any other reader.
func ServeContent(w http.ResponseWriter, r *http.Request, name string, mod time.Time, c io.ReadSeeker) {
	var h *handle
	switch x := c.(type) {
	case *os.File:
		h = handles[x]
	case *FileW:
		h = handles[x.f]
	}
	if h != nil {
		content(w, r, h)
		return
	}
	if _, ok := w.Header()["Content-Type"]; !ok {
		w.Header().Set("Content-Type", SniffedType)
	}
	w.Header().Set("Accept-Ranges", "bytes")
	w.WriteHeader(200)
	if r.Method != "HEAD" {
		io.Copy(w, c)
	}
}

// ---- listeners, signals ----

// ListenCall is one attempt to listen.
type ListenCall struct {
	TLS       bool
	Cert, Key string
	Srv       *http.Server
	Addr      string
}

var (
	// Listens records calls that start listening.
	Listens []ListenCall
	// OnListen, if set, runs when the server listens; its result is returned to the caller.
	OnListen func(c ListenCall) error
	// Events records the order of shutdown steps.
	Events []string
	// ShutdownTimeout is the deadline given to Shutdown.
	ShutdownTimeout time.Duration
	notifies        []notify
	// OnNotify, if set, runs when the process asks for signals.
	OnNotify func()
	// OnShutdown, if set, runs when a shutdown begins; the shutdown is done when it returns.
	OnShutdown func(s *http.Server) error
	// PolicyAsked are the names that a host policy was asked about.
	PolicyAsked []string
	// Whitelist is what autocert's host policy was built from.
	Whitelist []string
)

type notify struct {
	c    chan<- os.Signal
	sigs []os.Signal
}

func resetServer() {
	Listens = nil
	OnListen = nil
	Events = nil
	ShutdownTimeout = 0
	notifies = nil
	Whitelist = nil
	OnShutdown = nil
	OnNotify = nil
	PolicyAsked = nil
}

func listen(c ListenCall) error {
	Listens = append(Listens, c)
	Events = append(Events, "listen")
	if OnListen != nil {
		return OnListen(c)
	}
	sym.BlockForever()
	return nil
}

func ListenAndServe(s *http.Server) error { return listen(ListenCall{Srv: s, Addr: s.Addr}) }

// ListenAndServeTLS fails without a certificate, like the original.
func ListenAndServeTLS(s *http.Server, cert, key string) error {
	if err := certs(s, cert, key); err != nil {
		return err
	}
	return listen(ListenCall{TLS: true, Cert: cert, Key: key, Srv: s, Addr: s.Addr})
}

func certs(s *http.Server, cert, key string) error {
	if s.TLSConfig != nil && (len(s.TLSConfig.Certificates) > 0 || s.TLSConfig.GetCertificate != nil || s.TLSConfig.GetConfigForClient != nil) && cert == "" && key == "" {
		return nil
	}
	_, err := LoadX509KeyPair(cert, key)
	return err
}

// LoadX509KeyPair returns a certificate made of the names of its files.
func LoadX509KeyPair(cert, key string) (tls.Certificate, error) {
	for _, n := range []string{cert, key} {
		if _, err := ReadFile(n); err != nil {
			return tls.Certificate{}, err
		}
	}
	return tls.Certificate{Certificate: [][]byte{[]byte(cert)}, OCSPStaple: []byte(key)}, nil
}

// listener is what Listen returns.
type listener struct {
	addr string
	tls  *tls.Config
}

func (l *listener) Accept() (net.Conn, error) { return nil, errors.New("closed") }
func (l *listener) Close() error              { return nil }
func (l *listener) Addr() net.Addr            { return nil }

func Listen(network, addr string) (net.Listener, error) { return &listener{addr: addr}, nil }
func TLSListen(network, addr string, c *tls.Config) (net.Listener, error) {
	return &listener{addr: addr, tls: c}, nil
}
func TLSNewListener(l net.Listener, c *tls.Config) net.Listener {
	n := &listener{tls: c}
	if x, ok := l.(*listener); ok {
		n.addr = x.addr
	}
	return n
}

func ServerServe(s *http.Server, l net.Listener) error {
	c := ListenCall{Srv: s}
	if x, ok := l.(*listener); ok {
		c.Addr = x.addr
		if x.tls != nil {
			c.TLS = true
			s.TLSConfig = x.tls
		}
	}
	return listen(c)
}

func ServerServeTLS(s *http.Server, l net.Listener, cert, key string) error {
	if err := certs(s, cert, key); err != nil {
		return err
	}
	c := ListenCall{TLS: true, Cert: cert, Key: key, Srv: s}
	if x, ok := l.(*listener); ok {
		c.Addr = x.addr
	}
	return listen(c)
}

// Shutdown makes listening return and waits until requests in flight are answered.
func Shutdown(s *http.Server, ctx context.Context) error {
	if t, ok := ctx.(*tctx); ok {
		ShutdownTimeout = t.d
		if t.cancelled {
			Events = append(Events, "close")
			return context.Canceled
		}
	}
	Events = append(Events, "shutdown")
	if OnShutdown != nil {
		err := OnShutdown(s)
		Events = append(Events, "drained")
		return err
	}
	return nil
}

func ServerClose(s *http.Server) error { Events = append(Events, "close"); return nil }

func SetKeepAlivesEnabled(s *http.Server, v bool) {}
func RegisterOnShutdown(s *http.Server, f func()) {}
func StopNotify(c chan<- os.Signal)               {}
func Notify(c chan<- os.Signal, sigs ...os.Signal) {
	notifies = append(notifies, notify{c, sigs})
	if OnNotify != nil {
		OnNotify()
	}
}

// Signal delivers s to the process: like package os/signal it does not wait for receivers. It
// reports whether anybody asked for the signal; without, the default action ends the process.
func Signal(s os.Signal) bool {
	any := false
	for _, n := range notifies {
		for _, x := range n.sigs {
			if x == s {
				any = true
				select {
				case n.c <- s:
				default:
				}
			}
		}
	}
	return any
}

// Notified reports whether a handler for s is installed.
func Notified(s os.Signal) bool {
	for _, n := range notifies {
		for _, x := range n.sigs {
			if x == s {
				return true
			}
		}
	}
	return false
}

type tctx struct {
	context.Context
	d         time.Duration
	cancelled bool
}

func WithTimeout(p context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	c := &tctx{Context: p, d: d}
	return c, func() { c.cancelled = true }
}

func WithDeadline(p context.Context, t time.Time) (context.Context, context.CancelFunc) {
	return WithTimeout(p, Until(t))
}

func SystemCertPool() (*x509.CertPool, error) { return new(x509.CertPool), nil }

// ErrListed and ErrUnlisted are the answers of a host policy. A listed name is refused as well, so
// that no certificate is requested.
var (
	ErrListed   = errors.New("listed")
	ErrUnlisted = errors.New("not listed")
)

func HostWhitelist(hosts ...string) autocert.HostPolicy {
	Whitelist = append([]string(nil), hosts...)
	list := append([]string(nil), hosts...)
	return func(_ context.Context, host string) error {
		PolicyAsked = append(PolicyAsked, host)
		for _, h := range list {
			if h == host {
				return ErrListed
			}
		}
		return ErrUnlisted
	}
}

// certKey is the argument of createCert.
type certKey struct {
	domain         string
	isRSA, isToken bool
}

func createCert(m *autocert.Manager, ctx context.Context, ck certKey) (*tls.Certificate, error) {
	return nil, errors.New("a certificate would be requested")
}
