// Package lib holds what several harnesses share: reference semantics and server set-up.
package lib

// Resolve resolves p lexically from the root, keeping a trailing slash.
func Resolve(p string) string {
	var segs []string
	seg := ""
	trail := false
	end := func() {
		switch seg {
		case "", ".":
		case "..":
			if len(segs) > 0 {
				segs = segs[:len(segs)-1]
			}
		default:
			segs = append(segs, seg)
		}
		seg = ""
	}
	for i := 0; i < len(p); i++ {
		if p[i] == '/' {
			end()
			trail = true
		} else {
			seg += p[i : i+1]
			trail = false
		}
	}
	end()
	if len(segs) == 0 {
		return "/"
	}
	r := ""
	for _, s := range segs {
		r += "/" + s
	}
	if trail {
		r += "/"
	}
	return r
}

// Ancestors returns the canonical path p itself followed by its ancestors, nearest first.
func Ancestors(p string) []string {
	out := []string{p}
	for i := len(p) - 1; i > 0; i-- {
		if p[i] == '/' {
			out = append(out, p[:i])
		}
	}
	if p != "/" {
		out = append(out, "/")
	}
	return out
}

// Split cuts s at every c.
func Split(s string, c byte) []string {
	var out []string
	j := 0
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			out = append(out, s[j:i])
			j = i + 1
		}
	}
	return append(out, s[j:])
}

// Accepts says whether a route for content accepts a request's Content-Type.
func Accepts(content, ct string) bool {
	if content == "*" {
		return true
	}
	ct = Split(ct, ';')[0]
	for _, m := range Split(content, ';') {
		if m == ct {
			return true
		}
	}
	return false
}
