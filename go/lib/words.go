package lib

import (
	"net/http"
	"strings"

	"github.com/redmaner/MaguroHTTP/verif/sym"
)

// Constants of the code under test that the baseline lacks are tried as parts of requests: on the
// current tree there are none, so these functions return def without branching.

func has(w, set string) bool {
	for i := 0; i < len(w); i++ {
		ok := false
		for j := 0; j < len(set); j++ {
			ok = ok || w[i] == set[j]
		}
		if !ok {
			return false
		}
	}
	return true
}

const lower = "abcdefghijklmnopqrstuvwxyz0123456789-_."

// WordPath returns a request path.
func WordPath(def string) string {
	w := sym.Word("path word", "")
	if w == "" {
		return def
	}
	switch sym.Choose("path form", 5) {
	case 1:
		w = w + "x"
	case 2:
		w = def + w
	case 3:
		w = "/x" + w
	case 4:
		sym.Assume(w[len(w)-1] != '/')
		w = w + "/x"
	}
	if w[0] != '/' {
		w = "/" + w
	}
	sym.Assume(len(w) > 2 && has(w, pathBytes) && Resolve(w) == w)
	return w
}

const pathBytes = lower + "ABCDEFGHIJKLMNOPQRSTUVWXYZ/~@:+=,!$*"

// WordName returns the name of a file.
func WordName(def string) string {
	w := WordText(def)
	sym.Assume(w != "." && w != "..")
	for i := 0; i < len(w); i++ {
		sym.Assume(w[i] != '/')
	}
	return w
}

// WordHost returns a host name.
func WordHost(def string) string {
	w := sym.Word("host word", "")
	if w == "" {
		return def
	}
	sym.Assume(len(w) > 1 && has(w, lower) && w[0] > '.' && w[len(w)-1] > '.')
	switch sym.Choose("host form", 4) {
	case 1:
		w = "a" + w
	case 2:
		w = w + "a"
	case 3:
		w = w + def
	}
	return w
}

// WordClient returns a remote address and its host.
func WordClient(addr, host string) (string, string) {
	w := sym.Word("client word", "")
	if w == "" {
		return addr, host
	}
	sym.Assume(has(w, "0123456789abcdefABCDEF.:"))
	if sym.Choose("client form", 2) == 1 {
		w = w + "1"
	}
	for i := 0; i < len(w); i++ {
		if w[i] == ':' {
			return "[" + w + "]:1", w
		}
	}
	return w + ":1", w
}

// WordMethod returns a method.
func WordMethod(def string) string {
	w := sym.Word("method word", "")
	if w == "" {
		return def
	}
	sym.Assume(len(w) >= 3 && len(w) < 12 && has(w, "ABCDEFGHIJKLMNOPQRSTUVWXYZ"))
	return w
}

// WordText returns any text, such as a header value, a user or a password.
func WordText(def string) string {
	w := sym.Word("text word", "")
	if w == "" {
		return def
	}
	switch sym.Choose("text form", 3) {
	case 1:
		w = w + "x"
	case 2:
		w = "x" + w
	}
	return w
}

// AnyMethod chooses a method.
func AnyMethod() string {
	ms := []string{"GET", "HEAD", "POST", "PUT", "PATCH", "DELETE", "OPTIONS", "TRACE", "CONNECT", "PROPFIND", "LOCK", ""}
	k := sym.Choose("method", len(ms))
	if k == len(ms)-1 {
		return WordMethod("BREW")
	}
	return ms[k]
}

// AnyClient chooses a remote address among well-known ones and returns it with its host.
func AnyClient() (addr, host string) {
	hs := []string{"127.0.0.1", "::1", "10.0.0.7", "192.168.1.1", "0.0.0.0", "169.254.0.1", "::ffff:127.0.0.1", "localhost", "100.64.0.1", "fe80::1%eth0", ""}
	k := sym.Choose("address", len(hs))
	if k == len(hs)-1 {
		return WordClient("8.8.8.8:53", "8.8.8.8")
	}
	host = hs[k]
	for i := 0; i < len(host); i++ {
		if host[i] == ':' {
			return "[" + host + "]:40001", host
		}
	}
	return host + ":40001", host
}

// WordHeader returns the name of a header field in canonical form.
func WordHeader(def string) string {
	w := sym.Word("header word", "")
	if w == "" {
		return def
	}
	sym.Assume(has(w, "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-"))
	return http.CanonicalHeaderKey(w)
}

// Repeat returns n bytes.
func Repeat(n int) string { return strings.Repeat("0123456789abcdef", n/16+1)[:n] }
