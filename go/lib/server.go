package lib

import (
	"net/http"
	"strings"

	"github.com/redmaner/MaguroHTTP/tuna"
	"github.com/redmaner/MaguroHTTP/verif/env"
	"github.com/redmaner/MaguroHTTP/verif/sym"
)

// Conf makes a configuration file.
func Conf(name string, set func(c *tuna.Config)) {
	env.PutConfig(name, func(i interface{}) { set(i.(*tuna.Config)) })
}

// Server starts a server from a main configuration with the mandatory settings and set.
func Server(set func(c *tuna.Config)) *tuna.Server {
	Conf("/main.hcl", func(c *tuna.Config) {
		c.Core.LogOut = "stdout"
		c.Core.FileDir = "/f/"
		set(c)
	})
	s := tuna.NewInstanceFromConfig("/main.hcl")
	sym.Quiesce()
	env.Accesses = nil
	return s
}

// Do sends one request.
func Do(s *tuna.Server, r *http.Request) *env.Rec {
	rec := env.NewRec()
	s.Router.ServeHTTP(rec, r)
	rec.Done()
	return rec
}

// MIME is the reference table of content types.
func MIME(name string, conf map[string]string) string {
	ext := ""
	for i := len(name) - 1; i >= 0 && name[i] != '/'; i-- {
		if name[i] == '.' {
			ext = name[i:]
			break
		}
	}
	for i := 0; i+1 < len(types); i += 2 {
		if types[i] == ext {
			return types[i+1]
		}
	}
	for k, v := range conf {
		if k == name {
			return v
		}
	}
	return "application/octet-stream"
}

// Known are the extensions the server knows.
func Known() []string {
	var r []string
	for i := 0; i < len(types); i += 2 {
		r = append(r, types[i])
	}
	return r
}

var types = []string{
	".aac", "audio/aac", ".avi", "video/x-msvideo", ".bmp", "image/bmp", ".css", "text/css",
	".csv", "text/csv", ".gif", "image/gif", ".html", "text/html", ".htm", "text/html",
	".jpeg", "image/jpeg", ".jpg", "image/jpeg", ".js", "text/javascript", ".json", "text/json",
	".mpeg", "video/mpeg", ".png", "image/png", ".pdf", "application/pdf", ".svg", "image/svg+xml",
	".txt", "text/plain", ".xhtml", "application/xhtml-xml", ".xml", "application/xml", ".zip", "application/zip",
}

// Has reports whether s ends in suffix.
func Suffix(s, suffix string) bool {
	return len(s) >= len(suffix) && s[len(s)-len(suffix):] == suffix
}

// Prefix reports whether s starts with prefix.
func Prefix(s, prefix string) bool { return len(s) >= len(prefix) && s[:len(prefix)] == prefix }

// Main returns what is inside the page frame of a generated page.
func Main(body string) string {
	i := strings.Index(body, "<div class=\"main wrapper clearfix\">\n")
	if i < 0 {
		return body
	}
	body = body[i+37:]
	if j := strings.Index(body, "</div></div>"); j >= 0 {
		body = body[:j]
	}
	return body
}
