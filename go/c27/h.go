// Package c27 decides property C27: the download page lists exactly the offered files.
package c27

import (
	"strings"

	"github.com/redmaner/MaguroHTTP/tuna"
	"github.com/redmaner/MaguroHTTP/verif/env"
	"github.com/redmaner/MaguroHTTP/verif/lib"
	"github.com/redmaner/MaguroHTTP/verif/sym"
)

// file is a file in the serve directory.
type file struct{ name, data string } // name starts with /

func base(p string) string { return p[strings.LastIndexByte(p, '/')+1:] }

// ext is the reference of a file name's extension.
func ext(name string) string {
	for i := len(name) - 1; i >= 0; i-- {
		if name[i] == '.' {
			return name[i:]
		}
	}
	return ""
}

func in(s string, l []string) bool {
	for _, x := range l {
		if s == x {
			return true
		}
	}
	return false
}

// escape is the reference of HTML escaping.
func escape(s string) string {
	r := ""
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '"':
			r += "&#34;"
		case '\'':
			r += "&#39;"
		case '&':
			r += "&amp;"
		case '<':
			r += "&lt;"
		case '>':
			r += "&gt;"
		case 0:
			r += "\uFFFD"
		default:
			r += s[i : i+1]
		}
	}
	return r
}

// links returns the names that a page lists.
func links(body string) []string {
	if lib.Main(body) == body {
		sym.Fail("the page has no frame")
	}
	b := lib.Main(body)
	var r []string
	for {
		i := strings.Index(b, "<a href=\"/")
		if i < 0 {
			return r
		}
		b = b[i+10:]
		j := strings.Index(b, "\">")
		if j < 0 {
			sym.Fail("an open link")
		}
		name := b[:j]
		b = b[j+2:]
		j = strings.Index(b, "</a>")
		if j < 0 {
			sym.Fail("an open link")
		}
		sym.Assert(sym.EqStr(b[:j], name), "the text of a link is the name")
		r = append(r, name)
		b = b[j:]
	}
}

// listed compares a page with the files that it must list.
func listed(rec *env.Rec, files []file, exts []string) {
	sym.Assert(rec.Code == 200, "the page is shown")
	sym.Assert(rec.Get("Content-Type") == "text/html", "as a page")
	got := links(rec.Body)
	sym.Observe("names", len(got))
	var want []string
	for _, f := range files {
		if in(ext(base(f.name)), exts) {
			want = append(want, escape(base(f.name)))
		}
	}
	sym.Assert(len(got) == len(want), "as many names as offered files")
	for _, w := range want {
		n := 0
		for i := range got {
			if got[i] == w {
				n++
				got = append(got[:i:i], got[i+1:]...)
				break
			}
		}
		sym.Assert(n == 1, "every offered file is listed")
	}
	sym.Assert(len(got) == 0, "nothing else is listed")
	sym.Cover("listed")
}

// send compares the answer to a request for a path other than the index with the files.
func send(rec *env.Rec, p string, files []file, dirs []string) {
	sym.Observe("code", rec.Code)
	for _, f := range files {
		if f.name == p {
			if lib.Suffix(p, "/index.html") {
				sym.Cover("redirected")
				return
			}
			sym.Assert(rec.Code == 200 && rec.Body == f.data, "the file is sent")
			sym.Assert(lib.Prefix(rec.Get("Content-Disposition"), "attach"), "as an attachment")
			sym.Assert(rec.Get("Content-Type") == lib.MIME(p, nil), "with its content type")
			sym.Cover("sent")
			return
		}
	}
	for _, d := range dirs {
		if p == d || p == d+"/" {
			sym.Cover("directory")
			return
		}
	}
	sym.Assert(rec.Code == 404 && strings.Contains(rec.Body, "Error 404"), "other paths are not found")
	sym.Cover("missing")
}

func set(dir, index string, exts ...string) func(c *tuna.Config) {
	return func(c *tuna.Config) {
		c.Guard.Rate = 60
		c.Guard.RateBurst = 1000
		c.Serve.ServeDir = dir
		c.Serve.ServeIndex = index
		c.Serve.Download.Enabled = true
		c.Serve.Download.Exts = exts
	}
}

func put(dir string, files []file) {
	env.PutDir(dir)
	for _, f := range files {
		env.Put(dir+f.name, f.data)
	}
	env.Put("/decoy.txt", "decoy")
	env.Put("/wx/decoy.txt", "decoy")
}

func get(s *tuna.Server, p string) *env.Rec { return lib.Do(s, env.Req("GET", "h", p)) }

// H_name: files with any short name.
func H_name() {
	env.Init()
	n := 3
	if sym.Thorough() {
		n = 4
	}
	c := sym.Case(n * 4)
	a := sym.String("name", 1+c%n)
	for i := 0; i < len(a); i++ {
		sym.Assume(sym.And(a[i] != '/', a[i] != 0))
	}
	sym.Assume(a != "." && a != "..")
	files := []file{{"/" + a, "1"}, {"/zz.tx", "2"}}
	if c/n%2 == 1 {
		files = []file{{"/d/" + a, "1"}, {"/d/zz.tx", "3"}}
	}
	sym.Assume(a != "zz.tx" && a != "d")
	put("/w", files)
	exts := [][]string{{".t", ""}, {".tx"}, {".", ".t", ".x"}}[sym.Choose("extensions", 3)]
	index := []string{"/i", "i"}[c/n/2]
	s := lib.Server(set("/w/", index, exts...))
	listed(get(s, "/"), files, exts)
}

// H_exts: every list of extensions.
func H_exts() {
	env.Init()
	files := []file{{"/a.t", "1"}, {"/b.tx", "2"}, {"/c", "3"}, {"/d.d/e.t", "4"}, {"/d.d/f.t.t", "5"}, {"/g.", "6"}, {"/.t", "7"}, {"/h.T", "8"}, {"/it", "9"}}
	put("/w", files)
	env.PutDir("/w/dir.t")
	env.PutDir("/w/d.d/x.tx")
	e := sym.String("extension", sym.Case(4))
	f := sym.String("other extension", sym.Choose("length", 3))
	sym.Assume(e != f)
	var exts []string
	switch sym.Choose("number", 3) {
	case 1:
		exts = []string{e}
	case 2:
		exts = []string{e, f}
	}
	s := lib.Server(set([]string{"/w", "/w/"}[sym.Choose("dir", 2)], "/i", exts...))
	listed(get(s, "/"), files, exts)
}

// H_path: every short path.
func H_path() {
	env.Init()
	files := []file{{"/a.t", "1"}, {"/b", "2"}, {"/d/c.t", "3"}, {"/i", "4"}, {"/d/i", "5"}, {"/..t", "6"}}
	put("/w", files)
	n := 5
	if sym.Thorough() {
		n = 7
	}
	index := []string{"/i", "i", "/d/i", "/x"}[sym.Choose("index", 4)]
	s := lib.Server(set("/w", index, ".t"))
	p := "/" + sym.String("path", sym.Case(n))
	sym.Assume(!strings.Contains(p, "\\"))
	rec := get(s, p)
	q := lib.Resolve(p)
	if q == "/" || q == index {
		listed(rec, files, []string{".t"})
		return
	}
	send(rec, q, files, []string{"/d"})
}

// H_types: attachments have the content type of their name.
func H_types() {
	env.Init()
	exts := append(lib.Known(), "", ".", ".q", ".HTML", ".txt.")
	e := exts[sym.Case(len(exts))]
	p := []string{"/a", "/d/x", "/.x", "/d.html/c"}[sym.Choose("stem", 4)] + e
	files := []file{{p, "1"}}
	put("/w", files)
	s := lib.Server(set("/w", "/i", ".q"))
	send(get(s, p), p, files, nil)
	// the content of a directory, and a name below a file
	send(get(s, p+"/x"), p+"/x", files, nil)
	send(get(s, "/y"+p), "/y"+p, files, nil)
}

// H_trees: every small tree.
func H_trees() {
	env.Init()
	c := sym.Case(4)
	dirs := []string{"", "/d", "/d/e", "/f"}
	names := []string{"a.t", "b.x", "a.t", "c.y"}
	var files []file
	n := 3
	if sym.Thorough() {
		n = 4
	}
	for i := 0; i < n; i++ {
		k := sym.Choose("directory", 5)
		if i == 0 {
			k = c
		}
		if k < 4 {
			f := file{dirs[k] + "/" + names[i], "1"}
			dup := false
			for _, x := range files {
				dup = dup || x.name == f.name
			}
			if !dup {
				files = append(files, f)
			}
		}
	}
	put("/w", files)
	if sym.Choose("empty directory", 2) == 1 {
		env.PutDir("/w/q.t/r.x")
	}
	exts := []string{".t", ".x"}
	s := lib.Server(set("/w/", "index.html", exts...))
	listed(get(s, "/"), files, exts)
}

// H_change: the page shows the files as they are when it is requested.
func H_change() {
	env.Init()
	files := []file{{"/a.t", "1"}, {"/d/b.t", "2"}}
	put("/w", files)
	exts := []string{".t"}
	s := lib.Server(set("/w/", "/i", exts...))
	n := 2
	for i := 0; i < n+1; i++ {
		p := []string{"/", "/i", "/a.t", "/c.t"}[sym.Choose("request", 4)]
		rec := get(s, p)
		if p == "/" || p == "/i" {
			listed(rec, files, exts)
		} else {
			send(rec, p, files, nil)
		}
		switch sym.Choose("change", 4) {
		case 1:
			env.Put("/w/c.t", "3")
			if files[len(files)-1].name != "/c.t" {
				files = append(files, file{"/c.t", "3"})
			}
		case 2:
			env.Del("/w/a.t")
			if files[0].name == "/a.t" {
				files = files[1:]
			}
		case 3:
			env.Put("/w/d/b.t", "new")
			for i := range files {
				if files[i].name == "/d/b.t" {
					files[i].data = "new"
				}
			}
		}
	}
}

// H_fault: an unreadable part of the tree.
func H_fault() {
	env.Init()
	files := []file{{"/a.t", "1"}, {"/d/b.t", "2"}, {"/d/e/c.t", "3"}, {"/f.t", "4"}, {"/g.x", "5"}}
	put("/w", files)
	bad := []string{"/w", "/w/a.t", "/w/d", "/w/d/b.t", "/w/d/e", "/w/d/e/c.t", "/w/f.t", "/w/g.x"}[sym.Case(8)]
	gone := sym.Choose("gone", 3)
	exts := [][]string{{".t"}, {".t", ".x"}, {".x", ".t"}, {}}[sym.Choose("extensions", 4)]
	s := lib.Server(set("/w/", "/i", exts...))
	switch gone {
	case 0:
		env.WalkErr = bad
	case 1:
		if bad == "/w" {
			for _, f := range files {
				env.Del("/w" + f.name)
			}
			env.Del("/w/d/e")
			env.Del("/w/d")
			env.Del("/w")
			files = nil
		}
	case 2:
		env.DenyRead = bad
	}
	p := []string{"/", "/i", "/a.t", "/d/b.t", "/none"}[sym.Choose("request", 5)]
	rec := get(s, p)
	sym.Observe("code", rec.Code)
	sym.Assert(rec.NHeader <= 1, "one status")
	if rec.Code >= 400 {
		sym.Assert(strings.Contains(rec.Body, "Error") || rec.Code == 403 || rec.Code == 404, "an error page")
		sym.Assert(len(links("<div class=\"main wrapper clearfix\">\n"+rec.Body+"</div></div>")) == 0, "and no list")
		sym.Cover("error")
		return
	}
	sym.Assert(rec.Code == 200, "shown or sent")
	if p != "/" && p != "/i" {
		sym.Cover("sent")
		return
	}
	// what is listed is offered, once, and whatever can be read is listed
	got := links(rec.Body)
	for _, f := range files {
		n := 0
		for _, g := range got {
			if g == base(f.name) {
				n++
			}
		}
		offered := in(ext(f.name), exts)
		readable := gone != 0 || !lib.Prefix("/w"+f.name+"/", bad+"/")
		sym.Assert(n <= 1 && (n == 0 || offered), "only offered files, once")
		sym.Assert(n == 1 || !offered || !readable, "every readable offered file")
	}
	sym.Assert(len(got) <= len(files), "no other names")
	sym.Cover("listed")
}

// H_vhosts: every host has its own page.
func H_vhosts() {
	env.Init()
	a := []file{{"/a.t", "1"}, {"/a.x", "2"}}
	b := []file{{"/b.t", "3"}, {"/b.x", "4"}, {"/j", "5"}}
	put("/v", a)
	put("/u", b)
	lib.Conf("/v.hcl", set("/v", "/i", ".t"))
	lib.Conf("/u.hcl", set("/u/", "/j", ".x"))
	s := lib.Server(func(c *tuna.Config) {
		c.Core.VirtualHosting = true
		c.Core.VirtualHosts = map[string]string{"v": "/v.hcl", "u": "/u.hcl"}
		set("/w/", "/k", ".y")(c)
	})
	put("/w", []file{{"/c.y", "6"}, {"/a.t", "7"}})
	p := []string{"/", "/i", "/j", "/k", "/a.t", "/b.x", "/c.y"}[sym.Case(7)]
	h := []string{"v", "u", "v:80", "u:8080", "w"}[sym.Choose("host", 5)]
	rec := lib.Do(s, env.Req("GET", h, p))
	switch {
	case h[0] == 'w':
		sym.Assert(rec.Code == 404, "unknown host")
	case h[0] == 'v' && (p == "/" || p == "/i"):
		listed(rec, a, []string{".t"})
	case h[0] == 'u' && (p == "/" || p == "/j"):
		listed(rec, b, []string{".x"})
	case h[0] == 'v':
		send(rec, p, a, nil)
	default:
		send(rec, p, b, nil)
	}
}

// H_methods: only GET.
func H_methods() {
	env.Init()
	put("/w", []file{{"/a.t", "1"}})
	s := lib.Server(set("/w/", "/i", ".t"))
	m := []string{"HEAD", "POST", "PUT", "DELETE", "OPTIONS"}[sym.Case(5)]
	rec := lib.Do(s, env.Req(m, "h", []string{"/", "/a.t", "/none"}[sym.Choose("path", 3)]))
	sym.Assert(rec.Code == 405, "refused")
	sym.Cover("refused")
}

// H_conc: requests at once do not mix.
func H_conc() {
	env.Init()
	files := []file{{"/a.t", "1"}, {"/d/b.t", "2"}}
	put("/w", files)
	s := lib.Server(set("/w/", "/i", ".t"))
	c := sym.Case(2)
	var r [2]*env.Rec
	sym.Go(func() { r[0] = get(s, "/") })
	sym.Go(func() { r[1] = get(s, []string{"/", "/a.t"}[c]) })
	sym.Wait()
	listed(r[0], files, []string{".t"})
	if c == 0 {
		listed(r[1], files, []string{".t"})
	} else {
		send(r[1], "/a.t", files, nil)
	}
	sym.Assert(env.Opens == 0, "files are closed")
}

// H_many: many files, deep trees and long names.
func H_many() {
	env.Init()
	exts := []string{".t", ".x"}
	var files []file
	switch sym.Case(4) {
	case 0:
		n := sym.Size("files", []int{30, 130}[sym.Choose("size", 2)], 1200)
		for i := 0; i < n; i++ {
			files = append(files, file{"/" + []string{"", "d/", "d/e/"}[i%3] + "f" + string([]byte{byte('a' + i%26), byte('a' + i/26%26), byte('a' + i/676)}) + []string{".t", ".x"}[i%2], "1"})
		}
	case 1:
		n := sym.Size("depth", []int{9, 40}[sym.Choose("size", 2)], 300)
		d := ""
		for i := 0; i < n; i++ {
			if i%3 == 0 || i == n-1 {
				files = append(files, file{d + "/f" + string([]byte{byte('a' + i%26), byte('a' + i/26)}) + ".t", "1"})
			}
			d += "/" + string([]byte{byte('a' + i%26)})
		}
	case 2:
		n := sym.Size("length", []int{60, 250}[sym.Choose("size", 2)], 4000)
		files = []file{{"/" + lib.Repeat(n) + ".t", "1"}, {"/" + lib.Repeat(20) + "/" + lib.Repeat(n) + "-.x", "2"}, {"/a." + lib.Repeat(n), "3"}}
		exts = []string{".t", "." + lib.Repeat(n)}
	case 3:
		n := sym.Size("extensions", []int{12, 40}[sym.Choose("size", 2)], 200)
		exts = nil
		for i := 0; i < n; i++ {
			e := ".e" + string([]byte{byte('a' + i%26), byte('a' + i/26)})
			exts = append(exts, e)
			files = append(files, file{"/f" + e, "1"})
		}
		files = append(files, file{"/f.e", "1"})
	}
	put("/w", files)
	s := lib.Server(set("/w/", "/index", exts...))
	listed(get(s, "/"), files, exts)
	l := files[len(files)-1]
	send(get(s, l.name), l.name, files, nil)
	listed(get(s, "/index"), files, exts)
}

// H_odd: sizes, equal names, hidden files and well-known names.
func H_odd() {
	env.Init()
	ds := []string{"lost+found", ".git", "node_modules", "__MACOSX", ".hidden", "tmp", "private", "..d", "CVS", "Thumbs", "backup~", ""}
	d := ds[sym.Case(len(ds))]
	if d == "" {
		d = sym.Word("directory", "dd")
		for i := 0; i < len(d); i++ {
			sym.Assume(d[i] != '/' && d[i] != 0)
		}
		sym.Assume(d != "." && d != "..")
	}
	ns := []string{"a.t", ".t", ".htaccess", ".a.t", "Thumbs.db", "a~.t", "#a.t#", "a.t.part", "desktop.ini", "index.html", "A.T", "a.t.t", "index.t", "a b.t", "_.t", ""}
	k := sym.Choose("name", len(ns))
	n := ns[k]
	if n == "" {
		n = sym.Word("name", "nn")
		for i := 0; i < len(n); i++ {
			sym.Assume(n[i] != '/' && n[i] != 0)
		}
		n += []string{"", ".t"}[sym.Choose("suffix", 2)]
		sym.Assume(n != "." && n != "..")
	}
	data := []string{"", "1", "22", lib.Repeat(sym.Size("size", 70000, 1<<20))}
	if k > 2 {
		data = data[:2]
	}
	x := data[sym.Choose("data", len(data))]
	sym.Assume(n != d)
	files := []file{{"/" + n, x}, {"/" + d + "/" + n, x}, {"/" + d + "/" + d + "/z.t", ""}, {"/z.t", "1"}}
	if sym.Choose("other data", 2) == 1 {
		files[1].data = "other"
	}
	put("/w", files)
	exts := [][]string{{".t", ".html", ".db", ""}, {".T", ".htaccess", ".part", ".ini", ".t#"}}[sym.Choose("extensions", 2)]
	s := lib.Server(set("/w", "/index", exts...))
	listed(get(s, "/"), files, exts)
	for _, f := range files[:2] {
		send(get(s, f.name), f.name, files, nil)
	}
	send(get(s, "/index.t/"+n), "/index.t/"+n, files, nil)
}

// H_names: paths, hosts, clients and methods that a changed tree newly mentions.
func H_names() {
	env.Init()
	exts := []string{".t"}
	files := []file{{"/a.t", "1"}, {"/d/b.t", "2"}, {"/c.x", "3"}}
	p := []string{"/", "/index", "/a.t", "/d/b.t", "/c.x", "/none", ""}[sym.Case(7)]
	if p == "" {
		p = lib.WordPath("/zz")
		sym.Assume(lib.Resolve(p) == p)
		if sym.Choose("exists", 2) == 1 {
			sym.Assume(p[len(p)-1] != '/')
			files = append(files, file{p, "4"})
		}
	}
	put("/w", files)
	vhost := sym.Choose("vhost", 2) == 1
	host := "h"
	if vhost {
		host = []string{"h", "localhost", "127.0.0.1", lib.WordHost("q")}[sym.Choose("host", 4)]
	}
	lib.Conf("/v.hcl", set("/w/", "/index", exts...))
	s := lib.Server(func(c *tuna.Config) {
		if vhost {
			c.Core.VirtualHosting = true
			c.Core.VirtualHosts = map[string]string{host: "/v.hcl"}
		} else {
			set("/w", "/index", exts...)(c)
		}
	})
	for i := 0; i < 2; i++ {
		r := env.Req("GET", host, p)
		switch sym.Choose("vary", 3) {
		case 0:
			r.RemoteAddr, _ = lib.AnyClient()
		case 1:
			r.Header["User-Agent"] = []string{[]string{"Wget/1.20", "curl/8", "Googlebot", "", lib.WordText("x")}[sym.Choose("agent", 5)]}
		case 2:
			r.Header["Accept"] = []string{[]string{"application/json", "text/html", lib.WordText("*/*")}[sym.Choose("accept", 3)]}
		}
		rec := lib.Do(s, r)
		if p == "/" || p == "/index" {
			listed(rec, files, exts)
		} else {
			send(rec, p, files, []string{"/d"})
		}
	}
}
