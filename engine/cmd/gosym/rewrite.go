package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"

	"gosym/vm"
)

// The rewriter makes copies of the sources under test in which the calls the engine redirects go
// to the same stubs, and synchronisation operations can be scheduled. Nothing else changes.

type edit struct {
	pos, end int
	text     string
	seq      int
}

// redirectTable reads the sym.Redirect calls of package env.
func redirectTable(verif string) (map[string]string, error) {
	tab := map[string]string{}
	fs, _ := filepath.Glob(filepath.Join(verif, "go", "env", "*.go"))
	for _, f := range fs {
		fset := token.NewFileSet()
		af, err := parser.ParseFile(fset, f, nil, 0)
		if err != nil {
			return nil, err
		}
		ast.Inspect(af, func(n ast.Node) bool {
			c, ok := n.(*ast.CallExpr)
			if !ok || len(c.Args) != 2 {
				return true
			}
			s, ok := c.Fun.(*ast.SelectorExpr)
			if !ok || s.Sel.Name != "Redirect" && s.Sel.Name != "RedirectRepo" {
				return true
			}
			k, ok1 := c.Args[0].(*ast.BasicLit)
			id, ok2 := c.Args[1].(*ast.Ident)
			if ok1 && ok2 {
				key, _ := strconv.Unquote(k.Value)
				tab[key] = "verifenv." + id.Name
			}
			return true
		})
	}
	for k, v := range atomicTab {
		tab[k] = v
	}
	tab["(*sync.Mutex).Lock"] = "verifsym.NLock"
	tab["(*sync.Mutex).TryLock"] = "verifsym.NTryLock"
	tab["(*sync.Mutex).Unlock"] = "verifsym.NUnlock"
	tab["(*sync.RWMutex).Unlock"] = "verifsym.NRWUnlock"
	tab["(*sync.RWMutex).RUnlock"] = "verifsym.NRUnlock"
	tab["(*sync.RWMutex).TryLock"] = "verifsym.NRWTryLock"
	tab["(*sync.RWMutex).TryRLock"] = "verifsym.NTryRLock"
	tab["(*sync.RWMutex).Lock"] = "verifsym.NRWLock"
	tab["(*sync.RWMutex).RLock"] = "verifsym.NRLock"
	return tab, nil
}

func isOSFile(t types.Type) bool {
	p, ok := t.(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := p.Elem().(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "os" && n.Obj().Name() == "File"
}

func isIface(t types.Type) bool {
	_, ok := t.Underlying().(*types.Interface)
	return ok
}

type fileRewriter struct {
	fset  *token.FileSet
	info  *types.Info
	src   []byte
	base  int
	tab   map[string]string
	edits []edit
	keep  map[string]bool
	goOK  bool
	lhs   map[*ast.IndexExpr]bool // map elements that are assigned
	recvs map[*ast.UnaryExpr]bool // receives that have a scheduling point
}

func (r *fileRewriter) off(p token.Pos) int { return r.fset.Position(p).Offset }
func (r *fileRewriter) put(a, b int, s string) {
	r.edits = append(r.edits, edit{a, b, s, len(r.edits)})
}

func (r *fileRewriter) wrapFile(e ast.Expr) {
	tv, ok := r.info.Types[e]
	if !ok || !isOSFile(tv.Type) {
		return
	}
	r.put(r.off(e.Pos()), r.off(e.Pos()), "verifenv.W(")
	r.put(r.off(e.End()), r.off(e.End()), ")")
}

func (r *fileRewriter) visit(n ast.Node) bool {
	switch x := n.(type) {
	case *ast.BlockStmt:
		r.chanStmts(x.List)
	case *ast.CaseClause:
		r.chanStmts(x.Body)
	case *ast.CommClause:
		r.chanStmts(x.Body)
	case *ast.RangeStmt:
		r.chanRange(x)
	case *ast.UnaryExpr:
		if x.Op == token.ARROW && !r.recvs[x] && r.goOK {
			if w := r.recvFunc(x.X); w != "" {
				r.put(r.off(x.X.Pos()), r.off(x.X.Pos()), w+"(")
				r.put(r.off(x.X.End()), r.off(x.X.End()), ")")
			}
		}
	case *ast.SelectorExpr:
		// package-level function
		if id, ok := x.X.(*ast.Ident); ok {
			if _, ok := r.info.Uses[id].(*types.PkgName); ok {
				if fn, ok := r.info.Uses[x.Sel].(*types.Func); ok {
					if t, ok := r.tab[fn.FullName()]; ok {
						r.put(r.off(x.Pos()), r.off(x.End()), t)
						r.keep[id.Name+"."+x.Sel.Name] = true
						return false
					}
				}
			}
		}
	case *ast.CallExpr:
		if sig, ok := r.sigOf(x); ok {
			for i, a := range x.Args {
				var pt types.Type
				np := sig.Params().Len()
				switch {
				case sig.Variadic() && i >= np-1:
					pt = sig.Params().At(np - 1).Type()
					if !x.Ellipsis.IsValid() {
						pt = pt.(*types.Slice).Elem()
					}
				case i < np:
					pt = sig.Params().At(i).Type()
				}
				if pt != nil && isIface(pt) {
					r.wrapFile(a)
				}
			}
		}
		if s, ok := x.Fun.(*ast.SelectorExpr); ok {
			if sel, ok := r.info.Selections[s]; ok && sel.Kind() == types.MethodVal {
				fn := sel.Obj().(*types.Func)
				if t, ok := r.tab[fn.FullName()]; ok {
					recv := sel.Recv()
					path := ""
					idx := sel.Index()
					cur := recv
					for _, i := range idx[:len(idx)-1] {
						u := cur
						if p, ok := u.Underlying().(*types.Pointer); ok {
							u = p.Elem()
						}
						f := u.Underlying().(*types.Struct).Field(i)
						path += "." + f.Name()
						cur = f.Type()
					}
					_, isPtr := cur.Underlying().(*types.Pointer)
					fsig := fn.Type().(*types.Signature)
					_, wantPtr := fsig.Recv().Type().(*types.Pointer)
					pre, post := "", ""
					if wantPtr && !isPtr {
						pre = "&"
					} else if !wantPtr && isPtr {
						pre = "*"
					}
					sep := ", "
					if len(x.Args) == 0 {
						sep = ""
					}
					r.put(r.off(s.X.Pos()), r.off(s.X.Pos()), t+"("+pre)
					r.put(r.off(s.X.End()), r.off(x.Lparen)+1, path+post+sep)
				}
			}
		}
	case *ast.IncDecStmt:
		if ie, ok := x.X.(*ast.IndexExpr); ok {
			r.lhs[ie] = true
		}
	case *ast.IndexExpr:
		if tv, ok := r.info.Types[x.X]; ok && tv.Type != nil && tv.Type.String() == "net/http.Header" && !r.lhs[x] {
			ktv := r.info.Types[x.Index]
			_, id := x.Index.(*ast.Ident)
			if ktv.Value != nil || id {
				k := string(r.src[r.off(x.Index.Pos()):r.off(x.Index.End())])
				r.put(r.off(x.X.Pos()), r.off(x.X.Pos()), "verifenv.HeaderMap(")
				r.put(r.off(x.X.End()), r.off(x.X.End()), ", "+k+")")
			}
		}
	case *ast.AssignStmt:
		for _, l := range x.Lhs {
			if ie, ok := l.(*ast.IndexExpr); ok {
				r.lhs[ie] = true
			}
		}
		if len(x.Lhs) == len(x.Rhs) && x.Tok == token.ASSIGN {
			for i := range x.Lhs {
				if tv, ok := r.info.Types[x.Lhs[i]]; ok && tv.Type != nil && isIface(tv.Type) {
					r.wrapFile(x.Rhs[i])
				}
			}
		}
	case *ast.ValueSpec:
		if x.Type != nil {
			if tv, ok := r.info.Types[x.Type]; ok && isIface(tv.Type) {
				for _, v := range x.Values {
					r.wrapFile(v)
				}
			}
		}
	case *ast.GoStmt:
		if !r.goOK {
			return true
		}
		c := x.Call
		g := r.off(x.Go)
		if fl, ok := c.Fun.(*ast.FuncLit); ok && len(c.Args) == 0 && fl.Type.Results == nil {
			r.put(g, g+2, "verifsym.NGo(")
			r.put(r.off(c.Lparen), r.off(c.Rparen)+1, ")")
			return true
		}
		if c.Ellipsis.IsValid() {
			return true
		}
		names := []string{"verif_f"}
		for i := range c.Args {
			names = append(names, fmt.Sprintf("verif_a%d", i))
		}
		r.put(g, g+2, "{ "+strings.Join(names, ", ")+" := ")
		sep := ""
		if len(c.Args) > 0 {
			sep = ", "
		}
		r.put(r.off(c.Lparen), r.off(c.Lparen)+1, sep)
		r.put(r.off(c.Rparen), r.off(c.Rparen)+1, "; verifsym.NGo(func() { verif_f("+strings.Join(names[1:], ", ")+") }) }")
	}
	return true
}

// chanStmts puts scheduling points before statements with channel operations.
func (r *fileRewriter) chanStmts(list []ast.Stmt) {
	if !r.goOK {
		return
	}
	for _, s := range list {
		block := true
		dirs := ""
		var chs []ast.Expr
		var rcv []*ast.UnaryExpr
		add := func(s ast.Stmt) bool {
			var e ast.Expr
			switch y := s.(type) {
			case *ast.SendStmt:
				dirs += "s"
				chs = append(chs, y.Chan)
				return true
			case *ast.ExprStmt:
				e = y.X
			case *ast.AssignStmt:
				if len(y.Rhs) == 1 {
					e = y.Rhs[0]
				}
			}
			if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				dirs += "r"
				chs = append(chs, u.X)
				rcv = append(rcv, u)
				return true
			}
			return false
		}
		sel, isSel := s.(*ast.SelectStmt)
		if isSel {
			for _, c := range sel.Body.List {
				if cc := c.(*ast.CommClause); cc.Comm == nil {
					block = false
				} else {
					add(cc.Comm)
				}
			}
		} else if !add(s) {
			continue
		}
		at := r.off(s.Pos())
		if isSel && len(sel.Body.List) == 0 {
			r.put(at, at, "verifsym.Point(); verifsym.BlockForever(); ")
			continue
		}
		call := fmt.Sprintf("verifsym.NChan(%v, %q", block, dirs)
		for _, c := range chs {
			simple := true
			ast.Inspect(c, func(n ast.Node) bool {
				if n == nil {
					return true
				}
				if ce, ok := n.(*ast.CallExpr); ok {
					f, ok := ce.Fun.(*ast.SelectorExpr)
					simple = simple && ok && f.Sel.Name == "Done" && len(ce.Args) == 0
				}
				return true
			})
			if !simple {
				call = ""
				break
			}
			call += ", " + string(r.src[r.off(c.Pos()):r.off(c.End())])
		}
		if snd, ok := s.(*ast.SendStmt); ok && call != "" && hasCall(snd.Value) {
			// the value is computed first
			r.put(at, r.off(snd.Value.Pos()), "{ verifv := (")
			end := r.off(snd.Value.End())
			r.put(end, end, "); "+call+"); "+string(r.src[r.off(snd.Chan.Pos()):r.off(snd.Chan.End())])+" <- verifv }")
			continue
		}
		if call != "" {
			r.put(at, at, call+"); ")
		}
		if call != "" || isSel {
			for _, u := range rcv {
				r.recvs[u] = true
			}
		}
	}
}

func hasCall(e ast.Expr) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		_, ok := n.(*ast.CallExpr)
		found = found || ok
		return !found
	})
	return found
}

// recvFunc names the function that puts a scheduling point before a receive from e.
func (r *fileRewriter) recvFunc(e ast.Expr) string {
	tv, ok := r.info.Types[e]
	if !ok {
		return ""
	}
	c, ok := tv.Type.Underlying().(*types.Chan)
	if !ok {
		return ""
	}
	switch c.Elem().String() {
	case "time.Time":
		return "verifsym.NRecvTime"
	case "struct{}":
		return "verifsym.NRecvStruct"
	case "os.Signal":
		return "verifsym.NRecvSignal"
	case "error":
		return "verifsym.NRecvError"
	case "bool":
		return "verifsym.NRecvBool"
	case "int":
		return "verifsym.NRecvInt"
	case "string":
		return "verifsym.NRecvString"
	}
	return ""
}

// chanRange turns a loop over a channel into one that receives.
func (r *fileRewriter) chanRange(x *ast.RangeStmt) {
	w := r.recvFunc(x.X)
	if w == "" || !r.goOK {
		return
	}
	ch := x.X.(ast.Expr)
	a, b := r.off(x.For), r.off(ch.Pos())
	r.put(a, b, "for verifc := (")
	v, body := "_", ""
	if x.Key != nil {
		if id, ok := x.Key.(*ast.Ident); !ok || id.Name != "_" {
			v = "verifv"
			body = " " + string(r.src[r.off(x.Key.Pos()):r.off(x.Key.End())]) + " " + x.Tok.String() + " verifv;"
		}
	}
	r.put(r.off(ch.End()), r.off(x.Body.Lbrace)+1, fmt.Sprintf("); ; { %s, verifok := <-%s(verifc); if !verifok { break };%s ", v, w, body))
}

func (r *fileRewriter) sigOf(c *ast.CallExpr) (*types.Signature, bool) {
	tv, ok := r.info.Types[c.Fun]
	if !ok || tv.IsType() || tv.IsBuiltin() {
		return nil, false
	}
	s, ok := tv.Type.Underlying().(*types.Signature)
	return s, ok
}

func rewriteFile(p *packages.Package, f *ast.File, name string, tab map[string]string, goOK bool) ([]byte, bool, error) {
	src, err := os.ReadFile(name)
	if err != nil {
		return nil, false, err
	}
	r := &fileRewriter{fset: p.Fset, info: p.TypesInfo, src: src, tab: tab, keep: map[string]bool{}, lhs: map[*ast.IndexExpr]bool{}, recvs: map[*ast.UnaryExpr]bool{}, goOK: goOK}
	ast.Inspect(f, r.visit)
	if len(r.edits) == 0 {
		return nil, false, nil
	}
	at := r.off(f.Name.End())
	r.put(at, at, "\nimport verifenv \""+vm.HarnessPrefix+"env\"\nimport verifsym \""+vm.HarnessPrefix+"sym\"\n")
	sort.SliceStable(r.edits, func(i, j int) bool {
		a, b := r.edits[i], r.edits[j]
		if a.pos != b.pos {
			return a.pos < b.pos
		}
		// closing insertions come before openings; otherwise outer (earlier) edits first
		return a.end < b.end
	})
	var out []byte
	last := 0
	for _, e := range r.edits {
		if e.pos < last {
			return nil, false, fmt.Errorf("%s: overlapping edits", name)
		}
		out = append(out, src[last:e.pos]...)
		out = append(out, e.text...)
		last = e.end
	}
	out = append(out, src[last:]...)
	out = append(out, "\nvar _ = verifenv.W\nvar _ = verifsym.NLock\n"...)
	for _, o := range r.info.Uses {
		if f, ok := o.(*types.Func); ok && isTryLock(f) {
			out = append(out, "\nfunc init() { verifsym.TryLocks = true }\n"...)
			break
		}
	}
	for k := range r.keep {
		out = append(out, "var _ = "+k+"\n"...)
	}
	return out, true, nil
}

// rewriteAll writes rewritten copies to dir and returns the overlay.
func rewriteAll(l *Loaded, dir string, goOK bool) (map[string]string, error) {
	tab, err := redirectTable(l.Verif)
	if err != nil {
		return nil, err
	}
	ov := map[string]string{}
	n := 0
	var ferr error
	packages.Visit(l.Pkgs, nil, func(p *packages.Package) {
		repo := p.PkgPath == vm.RepoPrefix || strings.HasPrefix(p.PkgPath, vm.RepoPrefix+"/") && !strings.HasPrefix(p.PkgPath, vm.HarnessPrefix)
		if !repo {
			return
		}
		for i, f := range p.Syntax {
			name := p.CompiledGoFiles[i]
			out, ch, err := rewriteFile(p, f, name, tab, goOK)
			if err != nil {
				ferr = err
				return
			}
			if !ch {
				continue
			}
			n++
			t := filepath.Join(dir, fmt.Sprintf("r%d_%s", n, filepath.Base(name)))
			if err := os.WriteFile(t, out, 0644); err != nil {
				ferr = err
				return
			}
			ov[name] = t
		}
	})
	return ov, ferr
}
