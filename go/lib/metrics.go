package lib

import (
	"strconv"
	"strings"

	"github.com/redmaner/MaguroHTTP/tuna"
	"github.com/redmaner/MaguroHTTP/verif/env"
	"github.com/redmaner/MaguroHTTP/verif/sym"
)

// MetricsUser is the Authorization header of the metrics user u with password p.
const MetricsUser = "Basic dTpw"

// WithMetrics enables metrics.
func WithMetrics(c *tuna.Config) {
	c.Core.TLS.Enabled = true
	c.Core.TLS.TLSCert = "/c"
	c.Core.TLS.TLSKey = "/k"
	c.Core.Metrics.Enabled = true
	c.Core.Metrics.Path = "/metrics"
	c.Core.Metrics.Out = "/m/out.json"
	c.Core.Metrics.Users = map[string]string{"u": "p"}
}

// View requests the metrics page with the right credentials.
func View(s *tuna.Server, rec *env.Rec) {
	r := env.Req("GET", "h", "/metrics")
	r.Header.Set("Authorization", MetricsUser)
	s.Router.ServeHTTP(rec, r)
	rec.Done()
}

// Count is what a metrics page shows.
type Count struct {
	Total int
	Paths map[string]int // by code and path
	Sum   int
}

// Show requests the metrics page and parses it.
func Show(s *tuna.Server) Count {
	rec := env.NewRec()
	View(s, rec)
	sym.Assert(rec.Code == 200, "the metrics page is shown")
	return Parse(rec.Body)
}

func number(s string) (int, string) {
	i := 0
	for i < len(s) && s[i] >= '0' && s[i] <= '9' {
		i++
	}
	n, err := strconv.Atoi(s[:i])
	if err != nil {
		sym.Fail("a number is missing on the metrics page")
	}
	return n, s[i:]
}

func after(s, what string) string {
	i := strings.Index(s, what)
	if i < 0 {
		sym.Fail("the metrics page lacks " + what)
	}
	return s[i+len(what):]
}

// Parse reads the metrics page.
func Parse(body string) Count {
	c := Count{Paths: map[string]int{}}
	b := Main(body)
	if b == body {
		sym.Fail("the metrics page has no frame")
	}
	c.Total, b = number(after(b, "<b>Total requests:</b> "))
	for {
		i := strings.Index(b, "<b>")
		if i < 0 {
			break
		}
		code := 0
		code, b = number(b[i+3:])
		list := after(b, "<ul>")
		j := strings.Index(list, "</ul>")
		if j < 0 {
			sym.Fail("the metrics page has an open list")
		}
		b = list[j+5:]
		list = list[:j]
		for strings.Contains(list, "Amount: ") {
			n := 0
			n, list = number(after(list, "Amount: "))
			list = after(list, "Path: ")
			k := strings.Index(list, "</li>")
			if k < 0 {
				sym.Fail("the metrics page has an open item")
			}
			key := strconv.Itoa(code) + " " + list[:k]
			if c.Paths[key] != 0 {
				sym.Fail("the metrics page shows a path twice")
			}
			c.Paths[key] = n
			c.Sum += n
			list = list[k:]
		}
	}
	return c
}

// Add records an expected response.
func (c *Count) Add(code int, path string) {
	if c.Paths == nil {
		c.Paths = map[string]int{}
	}
	c.Paths[strconv.Itoa(code)+" "+path]++
	c.Total++
	c.Sum++
}

// Same compares with what is expected.
func (c Count) Same(want Count) {
	sym.Observe("total", c.Total)
	sym.Assert(c.Total == want.Total, "the total is the number of responses")
	sym.Assert(c.Sum == want.Sum, "the numbers add up")
	for k, v := range want.Paths {
		sym.Assert(c.Paths[k] == v, "the number of responses with a code for a path")
	}
	for k, v := range c.Paths {
		sym.Assert(want.Paths[k] == v, "no other numbers")
	}
}
