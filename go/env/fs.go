package env

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"path"
	"path/filepath"
	"strings"
	"time"

	"github.com/redmaner/MaguroHTTP/verif/sym"
)

type node struct {
	name  string // cleaned
	data  string
	dir   bool
	mtime int64
}

type handle struct {
	n      *node
	name   string
	pos    int
	flag   int
	closed bool
}

// Access is one file-system object the code under test named.
type Access struct {
	Op   string
	Name string // as given
}

var (
	nodes   []*node
	handles map[*os.File]*handle
	// Accesses records every file-system operation.
	Accesses []Access
	// Opens counts handles that are open.
	Opens int
	// FaultAt is the number of the mutating operation that fails (1-based, 0 none).
	FaultAt int
	// FaultCrash makes the process stop at that operation instead of failing it.
	FaultCrash bool
	// FaultPart is the number of bytes of an interrupted write that reach the file.
	FaultPart int
	// Ops counts mutating operations; OpNames names them.
	Ops     int
	OpNames []string
	// ReadFaultAt is the number of the reading operation that fails (1-based, 0 none).
	ReadFaultAt int
	// Reads counts reading operations.
	Reads int
	// DenyRead makes opening this file fail.
	DenyRead string
	// WalkErr makes Walk report an error for this path.
	WalkErr string
	tmpN    int
)

var (
	ErrFault = errors.New("injected fault")
)

func resetFS() {
	nodes = nil
	handles = map[*os.File]*handle{}
	Accesses = nil
	Opens = 0
	FaultAt = 0
	FaultCrash = false
	FaultPart = 0
	Ops = 0
	OpNames = nil
	ReadFaultAt = 0
	Reads = 0
	DenyRead = ""
	WalkErr = ""
	tmpN = 0
	nodes = append(nodes, &node{name: "/", dir: true})
}

// Put creates a file with its parent directories.
func Put(name, data string) {
	name = path.Clean(name)
	mkdirs(path.Dir(name))
	if n := find(name); n != nil {
		n.data = data
		return
	}
	nodes = append(nodes, &node{name: name, data: data, mtime: T0})
}

// PutDir creates a directory.
func PutDir(name string) { mkdirs(path.Clean(name)) }

func mkdirs(d string) {
	if d == "." || d == "/" {
		return
	}
	mkdirs(path.Dir(d))
	if find(d) == nil {
		nodes = append(nodes, &node{name: d, dir: true, mtime: T0})
	}
}

// Data returns the content of a file.
func Data(name string) (string, bool) {
	n := find(path.Clean(name))
	if n == nil || n.dir {
		return "", false
	}
	return n.data, true
}

// Del removes a file.
func Del(name string) {
	for i, n := range nodes {
		if n.name == name {
			nodes = append(nodes[:i:i], nodes[i+1:]...)
			return
		}
	}
}

func find(name string) *node {
	for _, n := range nodes {
		if len(n.name) == len(name) && n.name == name {
			return n
		}
	}
	return nil
}

// lookup resolves a name as the kernel does, without symbolic links.
func lookup(op, name string) (*node, error) {
	Accesses = append(Accesses, Access{op, name})
	if readFault() {
		return nil, &os.PathError{Op: op, Path: name, Err: ErrFault}
	}
	if name == "" {
		return nil, &os.PathError{Op: op, Path: name, Err: os.ErrNotExist}
	}
	if sym.ContainsByte(name, 0) {
		return nil, &os.PathError{Op: op, Path: name, Err: os.ErrInvalid}
	}
	n := find(path.Clean(name))
	if n == nil {
		return nil, &os.PathError{Op: op, Path: name, Err: os.ErrNotExist}
	}
	if !n.dir && len(name) > 1 && name[len(name)-1] == '/' {
		return nil, &os.PathError{Op: op, Path: name, Err: errNotDir}
	}
	return n, nil
}

// readFault counts a reading operation and reports whether it has to fail.
func readFault() bool {
	Reads++
	return ReadFaultAt == Reads
}

var errNotDir = errors.New("not a directory")
var errIsDir = errors.New("is a directory")

// fault counts a mutating operation and reports whether it has to fail. For writes it returns
// with the partial effect left to the caller.
func fault(what string) bool {
	Ops++
	OpNames = append(OpNames, what)
	return FaultAt == Ops
}

func crashNow() { sym.Exit(137) }

// before runs a mutating operation that has no partial effect.
func before(what string) error {
	if fault(what) {
		if FaultCrash {
			crashNow()
		}
		return ErrFault
	}
	return nil
}

type info struct {
	name  string
	size  int64
	dir   bool
	mtime int64
}

func (i *info) Name() string       { return i.name }
func (i *info) Size() int64        { return i.size }
func (i *info) ModTime() time.Time { return sym.TimeFromNanos(i.mtime) }
func (i *info) IsDir() bool        { return i.dir }
func (i *info) Sys() interface{}   { return nil }
func (i *info) Mode() os.FileMode {
	if i.dir {
		return os.ModeDir | 0755
	}
	return 0644
}
func (i *info) Type() os.FileMode          { return i.Mode() & os.ModeType }
func (i *info) Info() (os.FileInfo, error) { return i, nil }

func (n *node) info() *info {
	return &info{name: path.Base(n.name), size: int64(len(n.data)), dir: n.dir, mtime: n.mtime}
}

func Stat(name string) (os.FileInfo, error) {
	n, err := lookup("stat", name)
	if err != nil {
		return nil, err
	}
	return n.info(), nil
}

func Lstat(name string) (os.FileInfo, error) { return Stat(name) }

func Open(name string) (*os.File, error) { return OpenFile(name, os.O_RDONLY, 0) }
func Create(name string) (*os.File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

func OpenFile(name string, flag int, perm os.FileMode) (*os.File, error) {
	n, err := lookup("open", name)
	if err == nil && flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
		return nil, &os.PathError{Op: "open", Path: name, Err: os.ErrExist}
	}
	if err == nil && flag == os.O_RDONLY && DenyRead != "" && n.name == DenyRead {
		return nil, &os.PathError{Op: "open", Path: name, Err: os.ErrPermission}
	}
	if err != nil {
		if flag&os.O_CREATE == 0 || !errIsNotExist(err) || name == "" {
			return nil, err
		}
		c := path.Clean(name)
		p := find(path.Dir(c))
		if path.Dir(c) != "." && (p == nil || !p.dir) {
			return nil, err
		}
		if e := before("create " + c); e != nil {
			return nil, &os.PathError{Op: "open", Path: name, Err: e}
		}
		n = &node{name: c, mtime: Clock}
		nodes = append(nodes, n)
	} else {
		if n.dir && flag&(os.O_WRONLY|os.O_RDWR) != 0 {
			return nil, &os.PathError{Op: "open", Path: name, Err: errIsDir}
		}
		if flag&os.O_TRUNC != 0 {
			if e := before("truncate " + n.name); e != nil {
				return nil, &os.PathError{Op: "open", Path: name, Err: e}
			}
			n.data = ""
		}
	}
	f := new(os.File)
	handles[f] = &handle{n: n, name: name, flag: flag}
	Opens++
	return f, nil
}

func errIsNotExist(err error) bool {
	p, ok := err.(*os.PathError)
	return ok && p.Err == os.ErrNotExist
}

func CreateTemp(dir, pattern string) (*os.File, error) {
	if dir == "" {
		dir = "/tmp"
	}
	tmpN++
	s := string([]byte{'t', byte('0' + tmpN)})
	if i := strings.LastIndexByte(pattern, '*'); i >= 0 {
		pattern = pattern[:i] + s + pattern[i+1:]
	} else {
		pattern += s
	}
	return OpenFile(path.Join(dir, pattern), os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)
}

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	h := handles[f]
	FClose(f)
	if h.n.dir {
		return nil, &os.PathError{Op: "read", Path: name, Err: errIsDir}
	}
	return []byte(h.n.data), nil
}

func WriteFile(name string, data []byte, perm os.FileMode) error {
	f, err := OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = FWrite(f, data)
	if e := FClose(f); e != nil && err == nil {
		err = e
	}
	return err
}

func Rename(from, to string) error {
	n, err := lookup("rename", from)
	if err != nil {
		return err
	}
	Accesses = append(Accesses, Access{"rename", to})
	c := path.Clean(to)
	if p := find(path.Dir(c)); path.Dir(c) != "." && (p == nil || !p.dir) {
		return &os.LinkError{Op: "rename", Old: from, New: to, Err: os.ErrNotExist}
	}
	if e := before("rename " + n.name + " " + c); e != nil {
		return &os.LinkError{Op: "rename", Old: from, New: to, Err: e}
	}
	if n.name != c {
		if d := find(c); d != nil {
			if d.dir {
				return &os.LinkError{Op: "rename", Old: from, New: to, Err: os.ErrExist}
			}
			Del(c)
		}
		n.name = c
	}
	return nil
}

func Remove(name string) error {
	n, err := lookup("remove", name)
	if err != nil {
		return err
	}
	if e := before("remove " + n.name); e != nil {
		return &os.PathError{Op: "remove", Path: name, Err: e}
	}
	Del(n.name)
	return nil
}

func RemoveAll(name string) error {
	c := path.Clean(name)
	if e := before("removeall " + c); e != nil {
		return e
	}
	var keep []*node
	for _, n := range nodes {
		if n.name != c && !strings.HasPrefix(n.name, c+"/") {
			keep = append(keep, n)
		}
	}
	nodes = keep
	return nil
}

func Mkdir(name string, perm os.FileMode) error { return MkdirAll(name, perm) }

func MkdirAll(name string, perm os.FileMode) error {
	c := path.Clean(name)
	Accesses = append(Accesses, Access{"mkdir", name})
	if n := find(c); n != nil {
		if !n.dir {
			return &os.PathError{Op: "mkdir", Path: name, Err: errNotDir}
		}
		return nil
	}
	if e := before("mkdir " + c); e != nil {
		return &os.PathError{Op: "mkdir", Path: name, Err: e}
	}
	mkdirs(c)
	return nil
}

func Chmod(name string, perm os.FileMode) error {
	_, err := lookup("chmod", name)
	return err
}

func Truncate(name string, size int64) error {
	f, err := OpenFile(name, os.O_WRONLY, 0)
	if err != nil {
		return err
	}
	err = FTruncate(f, size)
	FClose(f)
	return err
}

// children returns the entries of a directory in lexical order.
func children(d string) []*node {
	p := d + "/"
	if d == "/" {
		p = "/"
	}
	var r []*node
	for _, n := range nodes {
		if n.name != "/" && strings.HasPrefix(n.name, p) && strings.IndexByte(n.name[len(p):], '/') < 0 && len(n.name) > len(p) {
			r = append(r, n)
		}
	}
	for i := 1; i < len(r); i++ {
		for j := i; j > 0 && r[j].name < r[j-1].name; j-- {
			r[j], r[j-1] = r[j-1], r[j]
		}
	}
	return r
}

func ReadDirI(name string) ([]os.FileInfo, error) {
	n, err := lookup("open", name)
	if err != nil {
		return nil, err
	}
	if WalkErr != "" && n.name == WalkErr {
		return nil, &os.PathError{Op: "open", Path: name, Err: os.ErrPermission}
	}
	var r []os.FileInfo
	for _, c := range children(n.name) {
		r = append(r, c.info())
	}
	return r, nil
}

func ReadDirE(name string) ([]os.DirEntry, error) {
	is, err := ReadDirI(name)
	var r []os.DirEntry
	for _, i := range is {
		r = append(r, i.(*info))
	}
	return r, err
}

// Walk is filepath.Walk.
func Walk(root string, fn filepath.WalkFunc) error {
	n, err := lookup("lstat", root)
	if err != nil {
		err = fn(root, nil, err)
	} else if WalkErr != "" && WalkErr == n.name && !n.dir {
		err = fn(root, nil, &os.PathError{Op: "lstat", Path: root, Err: os.ErrPermission})
	} else {
		err = walk(root, n, fn)
	}
	if err == filepath.SkipDir || err == filepath.SkipAll {
		return nil
	}
	return err
}

func walk(p string, n *node, fn filepath.WalkFunc) error {
	if !n.dir {
		return fn(p, n.info(), nil)
	}
	if WalkErr != "" && WalkErr == n.name {
		// reading the names fails: fn is called first without, then with the error
		if err := fn(p, n.info(), nil); err != nil {
			return err
		}
		return fn(p, n.info(), &os.PathError{Op: "open", Path: p, Err: os.ErrPermission})
	}
	if err := fn(p, n.info(), nil); err != nil {
		return err
	}
	for _, c := range children(n.name) {
		cp := filepath.Join(p, path.Base(c.name))
		Accesses = append(Accesses, Access{"lstat", cp})
		if readFault() || WalkErr != "" && WalkErr == c.name && !c.dir {
			// the file vanished between listing and lstat
			if err := fn(cp, nil, &os.PathError{Op: "lstat", Path: cp, Err: os.ErrNotExist}); err != nil && err != filepath.SkipDir {
				return err
			}
			continue
		}
		if err := walk(cp, c, fn); err != nil {
			if !c.dir || err != filepath.SkipDir {
				return err
			}
		}
	}
	return nil
}

// WalkDir is filepath.WalkDir.
func WalkDir(root string, fn fs.WalkDirFunc) error {
	n, err := lookup("lstat", root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walkDir(root, n, fn)
	}
	if err == filepath.SkipDir || err == filepath.SkipAll {
		return nil
	}
	return err
}

func walkDir(p string, n *node, fn fs.WalkDirFunc) error {
	if err := fn(p, n.info(), nil); err != nil || !n.dir {
		if err == filepath.SkipDir && n.dir {
			err = nil
		}
		return err
	}
	if WalkErr != "" && WalkErr == n.name {
		if err := fn(p, n.info(), &os.PathError{Op: "open", Path: p, Err: os.ErrPermission}); err != nil {
			if err == filepath.SkipDir {
				err = nil
			}
			return err
		}
		return nil
	}
	for _, c := range children(n.name) {
		cp := filepath.Join(p, path.Base(c.name))
		Accesses = append(Accesses, Access{"lstat", cp})
		if err := walkDir(cp, c, fn); err != nil {
			if err == filepath.SkipDir {
				break
			}
			return err
		}
	}
	return nil
}

// Glob supports "dir/*" and "dir/*.ext".
func Glob(pattern string) ([]string, error) {
	d, p := path.Split(pattern)
	var r []string
	for _, c := range children(path.Clean(d)) {
		if ok, _ := path.Match(p, path.Base(c.name)); ok {
			r = append(r, c.name)
		}
	}
	return r, nil
}

// ---- methods of *os.File ----

func hnd(op string, f *os.File) (*handle, error) {
	if f == nil {
		return nil, os.ErrInvalid
	}
	h := handles[f]
	if h == nil || h.closed {
		return nil, &os.PathError{Op: op, Path: "", Err: os.ErrClosed}
	}
	return h, nil
}

func FRead(f *os.File, b []byte) (int, error) {
	h, err := hnd("read", f)
	if err != nil {
		return 0, err
	}
	if h.n.dir {
		return 0, &os.PathError{Op: "read", Path: h.name, Err: errIsDir}
	}
	if len(b) == 0 {
		return 0, nil
	}
	if readFault() {
		return 0, &os.PathError{Op: "read", Path: h.name, Err: ErrFault}
	}
	if h.pos >= len(h.n.data) {
		return 0, io.EOF
	}
	n := copy(b, h.n.data[h.pos:])
	h.pos += n
	return n, nil
}

func FReadAt(f *os.File, b []byte, off int64) (int, error) {
	h, err := hnd("read", f)
	if err != nil {
		return 0, err
	}
	if int(off) >= len(h.n.data) {
		return 0, io.EOF
	}
	n := copy(b, h.n.data[int(off):])
	if n < len(b) {
		return n, io.EOF
	}
	return n, nil
}

func FWrite(f *os.File, b []byte) (int, error) { return FWriteString(f, string(b)) }

func FWriteString(f *os.File, s string) (int, error) {
	h, err := hnd("write", f)
	if err != nil {
		return 0, err
	}
	if h.flag&(os.O_WRONLY|os.O_RDWR) == 0 {
		return 0, &os.PathError{Op: "write", Path: h.name, Err: os.ErrPermission}
	}
	if len(s) == 0 {
		return 0, nil
	}
	if h.flag&os.O_APPEND != 0 {
		h.pos = len(h.n.data)
	}
	if fault("write " + h.n.name) {
		k := FaultPart
		if k > len(s) {
			k = len(s)
		}
		h.put(s[:k])
		if FaultCrash {
			crashNow()
		}
		return k, &os.PathError{Op: "write", Path: h.name, Err: ErrFault}
	}
	h.put(s)
	return len(s), nil
}

func (h *handle) put(s string) {
	d := h.n.data
	for len(d) < h.pos {
		d += "\x00"
	}
	tail := ""
	if h.pos+len(s) < len(d) {
		tail = d[h.pos+len(s):]
	}
	h.n.data = d[:h.pos] + s + tail
	h.pos += len(s)
	h.n.mtime = Clock
}

func FWriteAt(f *os.File, b []byte, off int64) (int, error) {
	h, err := hnd("write", f)
	if err != nil {
		return 0, err
	}
	p := h.pos
	h.pos = int(off)
	n, err := FWriteString(f, string(b))
	h.pos = p
	return n, err
}

func FClose(f *os.File) error {
	h, err := hnd("close", f)
	if err != nil {
		return err
	}
	h.closed = true
	Opens--
	if h.flag&(os.O_WRONLY|os.O_RDWR) != 0 {
		if e := before("close " + h.n.name); e != nil {
			return &os.PathError{Op: "close", Path: h.name, Err: e}
		}
	}
	return nil
}

func FSync(f *os.File) error {
	h, err := hnd("sync", f)
	if err != nil {
		return err
	}
	if e := before("sync " + h.n.name); e != nil {
		return &os.PathError{Op: "sync", Path: h.name, Err: e}
	}
	return nil
}

func FStat(f *os.File) (os.FileInfo, error) {
	h, err := hnd("stat", f)
	if err != nil {
		return nil, err
	}
	return h.n.info(), nil
}

func FName(f *os.File) string {
	if f == os.Stdout {
		return "stdout"
	}
	if f == os.Stderr {
		return "stderr"
	}
	if h := handles[f]; h != nil {
		return h.name
	}
	return ""
}

func FSeek(f *os.File, off int64, whence int) (int64, error) {
	h, err := hnd("seek", f)
	if err != nil {
		return 0, err
	}
	switch whence {
	case 0:
		h.pos = int(off)
	case 1:
		h.pos += int(off)
	case 2:
		h.pos = len(h.n.data) + int(off)
	}
	return int64(h.pos), nil
}

func FTruncate(f *os.File, size int64) error {
	h, err := hnd("truncate", f)
	if err != nil {
		return err
	}
	if e := before("truncate " + h.n.name); e != nil {
		return e
	}
	if int(size) < len(h.n.data) {
		h.n.data = h.n.data[:int(size)]
	}
	return nil
}

func FChmod(f *os.File, perm os.FileMode) error {
	_, err := hnd("chmod", f)
	return err
}

func FReadFrom(f *os.File, r io.Reader) (int64, error) {
	var n int64
	b := make([]byte, 512)
	for {
		k, err := r.Read(b)
		if k > 0 {
			w, e := FWrite(f, b[:k])
			n += int64(w)
			if e != nil {
				return n, e
			}
		}
		if err == io.EOF {
			return n, nil
		}
		if err != nil {
			return n, err
		}
	}
}

func FWriteTo(f *os.File, w io.Writer) (int64, error) {
	h, err := hnd("read", f)
	if err != nil {
		return 0, err
	}
	if h.pos >= len(h.n.data) {
		return 0, nil
	}
	s := h.n.data[h.pos:]
	h.pos = len(h.n.data)
	n, err := io.WriteString(w, s)
	return int64(n), err
}

func FReaddir(f *os.File, n int) ([]os.FileInfo, error) {
	h, err := hnd("readdir", f)
	if err != nil {
		return nil, err
	}
	return ReadDirI(h.n.name)
}

// FileW is a *os.File of the environment as an interface value in native runs.
type FileW struct{ f *os.File }

// W wraps a file before it is converted to an interface.
func W(f *os.File) *FileW { return &FileW{f} }

func (w *FileW) Read(b []byte) (int, error)               { return FRead(w.f, b) }
func (w *FileW) Write(b []byte) (int, error)              { return FWrite(w.f, b) }
func (w *FileW) WriteString(s string) (int, error)        { return FWriteString(w.f, s) }
func (w *FileW) Close() error                             { return FClose(w.f) }
func (w *FileW) Sync() error                              { return FSync(w.f) }
func (w *FileW) Stat() (os.FileInfo, error)               { return FStat(w.f) }
func (w *FileW) Name() string                             { return FName(w.f) }
func (w *FileW) Seek(o int64, wh int) (int64, error)      { return FSeek(w.f, o, wh) }
func (w *FileW) Readdir(n int) ([]os.FileInfo, error)     { return FReaddir(w.f, n) }
func (w *FileW) ReadAt(b []byte, off int64) (int, error)  { return FReadAt(w.f, b, off) }
func (w *FileW) WriteAt(b []byte, off int64) (int, error) { return FWriteAt(w.f, b, off) }
