// Package c14 decides property C14: static serving.
package c14

import (
	"strings"

	"github.com/redmaner/MaguroHTTP/tuna"
	"github.com/redmaner/MaguroHTTP/verif/env"
	"github.com/redmaner/MaguroHTTP/verif/lib"
	"github.com/redmaner/MaguroHTTP/verif/sym"
)

var conf = map[string]string{"/b": "x/b", "/d/x.q": "x/q", "/a.txt": "x/no"}

type tree struct {
	files map[string]string // name below the serve directory -> content
	dirs  []string
	index string
}

// check compares the answer to a request for p with the tree.
func check(s *tuna.Server, t tree, host, p string) {
	sym.Assume(!strings.Contains(p, "\\")) // net/http refuses \..\ by itself
	rec := lib.Do(s, env.Req("GET", host, p))
	q := lib.Resolve(p)
	f := q
	if q[len(q)-1] == '/' {
		f = q + t.index
	}
	sym.Observe("code", rec.Code)
	sym.Observe("body", lib.Main(rec.Body))
	if data, ok := t.files[f]; ok {
		if lib.Suffix(q, "/index.html") {
			sym.Cover("redirected index")
			sym.Assert(rec.Code == 301 && rec.Get("Location") == "./", "an explicit index.html redirects to its directory")
			return
		}
		sym.Cover("file")
		sym.Assert(rec.Code == 200, "an existing file is answered with 200")
		sym.Assert(rec.Body == data, "the answer is the content of exactly that file")
		sym.Assert(rec.Get("Content-Type") == lib.MIME(f, conf), "content type of the file's name")
		return
	}
	for _, d := range t.dirs {
		if d == f {
			sym.Cover("directory")
			sym.Assert(rec.Code == 301, "a directory redirects to the path with a slash")
			return
		}
	}
	sym.Cover("missing")
	sym.Assert(rec.Code == 404, "a missing file is answered with 404")
	sym.Assert(strings.Contains(rec.Body, "Error 404"), "the answer to a missing file is the error page")
}

func server(dir, index string) *tuna.Server {
	return lib.Server(func(c *tuna.Config) {
		c.Serve.ServeDir = dir
		c.Serve.ServeIndex = index
		c.Serve.Methods = map[string]string{"/": "GET;HEAD"}
		c.Serve.MIMETypes.ResponseTypes = conf
	})
}

func dir() string { return []string{"/w/", "/w", "/v/w/"}[sym.Choose("serve dir", 3)] }

func put(d string, t tree) {
	for k, v := range t.files {
		env.Put(d+"/"+k, v)
	}
	for _, k := range t.dirs {
		env.PutDir(d + "/" + k)
	}
	// decoys that must not be served
	env.Put("/a", "decoy")
	env.Put("/b", "decoy")
	env.Put("/v/a", "decoy")
	env.Put("/i", "decoy")
}

// H_path: every path of a few bytes against a fixed tree.
func H_path() {
	env.Init()
	t := tree{index: "i", dirs: []string{"/d", "/e"}, files: map[string]string{
		"/a": "1", "/b": "2", "/i": "3", "/d/a": "4", "/d/i": "5", "/d/b": "6"}}
	d := dir()
	put(d, t)
	n := 6
	if sym.Thorough() {
		n = 8
	}
	check(server(d, t.index), t, "h", sym.String("path", sym.Case(n)))
}

// H_name: a file of any short name against every path of the same length.
func H_name() {
	env.Init()
	n := 1 + sym.Case(4)
	name := sym.String("name", n)
	for i := 0; i < n; i++ {
		sym.Assume(sym.Not(sym.In(name[i], "/\\\x00")))
	}
	sym.Assume(name != "." && name != "..")
	t := tree{index: []string{"i.html", "index.html"}[sym.Choose("index", 2)], dirs: []string{"/d", "/"}, files: map[string]string{}}
	t.files["/i.html"] = "1"
	t.files["/index.html"] = "2"
	t.files["/d/index.html"] = "3"
	t.files["/d/"+name] = "5"
	env.Put("/w/i.html", "1")
	env.Put("/w/index.html", "2")
	env.Put("/w/d/index.html", "3")
	env.Put("/w/d/"+name, "5")
	p := "/d/" + sym.String("path", n)
	check(server("/w/", t.index), t, "h:80", p)
}

// H_type: file names with every known extension.
func H_type() {
	env.Init()
	exts := append(lib.Known(), "", ".", ".q", ".HTML", ".txt.", ".Txt", ".jsx", ".htm.b")
	e := exts[sym.Case(len(exts))]
	name := []string{"/a", "/d/x", "/", "/b", "/d.html/c"}[sym.Choose("stem", 5)] + e
	if lib.Suffix(name, "/") || lib.Suffix(name, "/.") {
		return
	}
	t := tree{index: "i", files: map[string]string{name: "1"}}
	env.Put("/w"+name, "1")
	check(server("/w", "i"), t, "h", name)
}

// H_special: paths that net/http treats in its own way, and other shapes.
func H_special() {
	env.Init()
	t := tree{index: []string{"i.html", "index.html", "a"}[sym.Choose("index", 3)], dirs: []string{"/d", "/e"}, files: map[string]string{
		"/a": "1", "/i.html": "2", "/index.html": "3", "/d/index.html": "4", "/d/a": "5", "/aindex.html": "6", "/d/i.htm": "7", "/.a": "8", "/..a": "9", "/d/a..": "10", "/A": "11"}}
	d := dir()
	put(d, t)
	ps := []string{"/index.html", "/d/index.html", "/d//index.html", "/x/../d/index.html", "/aindex.html", "/index.html/", "/d", "/d/", "/d/.", "/d/..", "", "d", "*", "/e/", "/e", "/e/i.html",
		"/.a", "/..a", "/d/a..", "/A", "/a/", "/d/a/", "/a/../a", "//a", "/./a", "/a/.", "/D/a", "/d/a%2e"}
	check(server(d, t.index), t, "h", ps[sym.Case(len(ps))])
}

// H_twice: a second request is answered from the files as they are then.
func H_twice() {
	env.Init()
	t := tree{index: "i", dirs: []string{"/d"}, files: map[string]string{"/d/i": "1", "/a": "2"}}
	d := dir()
	put(d, t)
	s := server(d, t.index)
	ps := []string{"/a", "/d/", "/b", "/d"}
	p := ps[sym.Case(len(ps))]
	check(s, t, "h", ps[sym.Choose("first", len(ps))])
	switch sym.Choose("change", 4) {
	case 0:
		t.files["/a"] = "new"
		env.Put(d+"/a", "new")
	case 1:
		delete(t.files, "/a")
		env.Del("/w/a")
		env.Del("/v/w/a")
	case 2:
		t.files["/b"] = "b"
		env.Put(d+"/b", "b")
	}
	check(s, t, "h", p)
}

// H_sibling: files with similar names, empty files, names of all kinds.
func H_sibling() {
	env.Init()
	t := tree{index: "i.html", dirs: []string{"/d", "/e.html", "/longdirectory"}, files: map[string]string{
		"/c.html": "1", "/c.gz": "2", "/c.txt": "3", "/C": "4", "/d/c": "", "/d/i.html": "", "/e.html/i.html": "5", "/longdirectory/i.html": "6",
		"/longdirectory/index.html": "7", "/favicon.ico": "8", "/robots.txt": "9", "/.well-known/x": "10", "/.git/config": "11", "/c~": "12", "/a b": "13", "/a+b": "14", "/#a": "15", "/c.br": "16", "/404.html": "17", "/c.bak": "18", "/Thumbs.db": "19", "/a;b": "20", "/c.php": "21", "/.htaccess": "22", "/x.tmp": "23", "/cc.html": "24"}}
	t.dirs = append(t.dirs, "/.well-known", "/.git")
	d := dir()
	put(d, t)
	s := server(d, t.index)
	ps := []string{"/c", "/c.", "/c.htm", "/c/", "/cc", "/d/c", "/d/", "/d/i", "/e", "/e.html", "/e.html/", "/longdirectory", "/longdirectory/", "/longdirector", "/longdirectory/i", "/favicon.ico", "/robots.txt", "/.well-known/x", "/.well-known", "/.git/config", "/.git/", "/c~", "/a b", "/a+b", "/#a", "/c.gz", "/c.br", "/404.html", "/404", "/c.bak", "/Thumbs.db", "/thumbs.db", "/a;b", "/a", "/c.php", "/c.html.gz", "/.htaccess", "/x.tmp", "/C.html", "/c.HTML"}
	check(s, t, "h", ps[sym.Case(len(ps))])
}

// H_long: long names, deep directories, many files, and a larger file.
func H_long() {
	env.Init()
	t := tree{index: "i", files: map[string]string{}}
	n := sym.Size("length", []int{40, 130, 230}[sym.Case(3)], 1500)
	name := ""
	k := 0
	if n > 200 {
		k = sym.Choose("segments", 3)
	}
	for i := k; len(name) < n; i += k {
		name += []string{"/abcdefgh", "/.bc", "/x.y"}[i%3]
	}
	t.files[name] = strings.Repeat("0123456789", sym.Size("content", 300, 3000))
	t.files[name+"/i"] = "wrong"
	delete(t.files, name+"/i")
	d := dir()
	put(d, t)
	x := []string{"d", "c", "~"}[sym.Choose("last", 3)]
	if n < 100 || sym.Thorough() {
		x = sym.String("last character", 1)
		sym.Assume(x != "/" && x != "." && x != "\\" && x[0] != 0)
	}
	p := []string{name, name[:len(name)-1] + x, name + x}[sym.Choose("request", 3)]
	q := lib.Resolve(p)
	for i := 1; i < len(q); i++ {
		if q[i] == '/' && lib.Prefix(name, q[:i+1]) {
			t.dirs = append(t.dirs, q[:i])
		}
	}
	check(server(d, t.index), t, "h", p)
}

// H_names: paths, hosts and index names a changed tree newly mentions; any method's headers.
func H_names() {
	env.Init()
	q := lib.Resolve(lib.WordPath("/d/a"))
	t := tree{index: "i.x", files: map[string]string{}}
	f := q
	if f[len(f)-1] == '/' {
		f += t.index
	}
	k := sym.Choose("what", 3)
	switch k {
	case 0:
		t.files[f] = "1"
	case 1:
		t.files[f+"z"] = "2"
	case 2:
		if lib.Suffix(q, "/") {
			q = q[:len(q)-1]
		}
		t.dirs = append(t.dirs, q)
		t.files[q+"/"+t.index] = "3"
	}
	for i := 1; i < len(q); i++ {
		if q[i] == '/' {
			t.dirs = append(t.dirs, q[:i])
		}
	}
	if q == "" || q == "/" {
		return
	}
	put("/w", t)
	s := server("/w", t.index)
	n := sym.Size("requests", 2, 300)
	for i := 0; i < n; i++ {
		check(s, t, lib.WordHost("h"), q)
	}
}

// H_large: a large file comes complete.
func H_large() {
	env.Init()
	c := strings.Repeat("0123456789abcdef", sym.Size("content", []int{70000, 300000}[sym.Case(2)], 1<<23)/16+1)
	d := dir()
	put(d, tree{index: "i", files: map[string]string{"/big": c, "/i": c}})
	s := server(d, "i")
	for _, p := range []string{"/big", "/", "/big"} {
		rec := lib.Do(s, env.Req("GET", "h", p))
		sym.Assert(rec.Code == 200 && len(rec.Body) == len(c) && rec.Body == c, "the complete file is sent")
	}
}
