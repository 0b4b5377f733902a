package lib

import (
	"errors"
	"io/ioutil"
	"net/http"

	"github.com/redmaner/MaguroHTTP/verif/env"
)

// Upstream stands for the servers behind the proxy.
type Upstream struct {
	Reqs   []*http.Request
	Bodies []string
	Fail   bool
	// Answer makes the response.
	Answer func(r *http.Request) *http.Response
	Body   *env.Body
}

// RoundTrip implements http.RoundTripper.
func (u *Upstream) RoundTrip(r *http.Request) (*http.Response, error) {
	u.Reqs = append(u.Reqs, r)
	b := ""
	if r.Body != nil {
		d, err := ioutil.ReadAll(r.Body)
		if err != nil {
			return nil, err
		}
		b = string(d)
		r.Body.Close()
	}
	u.Bodies = append(u.Bodies, b)
	if u.Fail {
		return nil, errors.New("upstream unreachable")
	}
	if u.Answer != nil {
		return u.Answer(r), nil
	}
	return u.Resp(200, "up:"+r.URL.Scheme+":"+r.URL.Host, http.Header{}), nil
}

// Resp makes a response.
func (u *Upstream) Resp(code int, body string, h http.Header) *http.Response {
	u.Body = env.NewBody(body)
	return &http.Response{StatusCode: code, Header: h, Body: u.Body, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1}
}
