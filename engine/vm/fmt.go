package vm

import (
	"fmt"
	"go/types"
	"math"
	"strconv"
	"strings"

	"gosym/term"

	"golang.org/x/tools/go/ssa"
)

// pushHost pushes a frame executed by host code. regs[0] receives results of calls made by it; all state the host
// function keeps must live in regs.
func (st *State) pushHost(name string, nreg int, h func(st *State, f *Frame)) *Frame {
	vm := st.vm
	if vm.hostFi == nil {
		vm.hostFi = &FnInfo{name: "host", fn: vm.anyFn(), blocks: []*Block{{ins: []*Ins{{i: &ssa.Return{}, dst: -1}}}}, harness: true}
	}
	t := st.th()
	f := &Frame{fi: vm.hostFi, regs: make([]Value, nreg), host: h, dst: -1}
	t.frames = append(t.frames, f)
	return f
}

type hostInt int

// hostCall calls a function value from a host frame; the result arrives in regs[0].
func (st *State) hostCall(fn *ssa.Function, args []Value) {
	if !st.callValue(&Closure{fn: fn}, args, retHost, -1) {
		// blocked: retried by the host function
		return
	}
}

func (vm *VM) findMethod(t types.Type, name string) *ssa.Function {
	k := methNameKey{t, name}
	if f, ok := vm.mnCache[k]; ok {
		return f
	}
	var fn *ssa.Function
	ms := vm.Prog.MethodSets.MethodSet(t)
	if sel := ms.Lookup(nil, name); sel != nil {
		fn = vm.Prog.MethodValue(sel)
	}
	if vm.mnCache == nil {
		vm.mnCache = map[methNameKey]*ssa.Function{}
	}
	vm.mnCache[k] = fn
	return fn
}

type methNameKey struct {
	t types.Type
	n string
}

// piece of a parsed format string
type fpiece struct {
	lit   string
	verb  rune
	flags string
	width int
	prec  int
	hasW  bool
	hasP  bool
	arg   int
}

func parseFormat(f string) []fpiece {
	var out []fpiece
	arg := 0
	for i := 0; i < len(f); {
		j := strings.IndexByte(f[i:], '%')
		if j < 0 {
			out = append(out, fpiece{lit: f[i:]})
			break
		}
		if j > 0 {
			out = append(out, fpiece{lit: f[i : i+j]})
		}
		i += j + 1
		p := fpiece{arg: -1}
		for i < len(f) && strings.IndexByte("+-# 0", f[i]) >= 0 {
			p.flags += string(f[i])
			i++
		}
		for i < len(f) && f[i] >= '0' && f[i] <= '9' {
			p.width = p.width*10 + int(f[i]-'0')
			p.hasW = true
			i++
		}
		if i < len(f) && f[i] == '.' {
			i++
			p.hasP = true
			for i < len(f) && f[i] >= '0' && f[i] <= '9' {
				p.prec = p.prec*10 + int(f[i]-'0')
				i++
			}
		}
		if i < len(f) && (f[i] == '*' || f[i] == '[') {
			panic(unsupportedErr{"format " + f})
		}
		if i >= len(f) {
			out = append(out, fpiece{lit: "%!(NOVERB)"})
			break
		}
		p.verb = rune(f[i])
		i++
		if p.verb == '%' {
			out = append(out, fpiece{lit: "%"})
			continue
		}
		p.arg = arg
		arg++
		out = append(out, p)
	}
	return out
}

// wantsMethod reports the Error/String method used by fmt for a value with the given verb.
func (st *State) wantsMethod(v Value, verb rune) *ssa.Function {
	i, ok := v.(Iface)
	if !ok || i.t == nil {
		return nil
	}
	switch verb {
	case 's', 'v', 'q', 'x', 'X':
	default:
		return nil
	}
	if p, ok := i.v.(*Ptr); ok && p == nil {
		return nil
	}
	for _, n := range []string{"Error", "String"} {
		m := st.vm.findMethod(i.t, n)
		if m != nil && m.Signature.Params().Len() == 0 && m.Signature.Results().Len() == 1 && isString(m.Signature.Results().At(0).Type()) {
			return m
		}
	}
	return nil
}

const (
	fmSprintf = iota
	fmErrorf
	fmSprint
	fmSprintln
)

// formatHost starts formatting; finish receives the text. Registers: 0 call result, 1 next argument, 2 resolved
// arguments (Tuple), 3 phase, 4.. free for finish.
func (st *State) formatHost(mode int, format *Str, args *Slice, finish func(st *State, f *Frame, s *Str)) {
	var pieces []fpiece
	av := st.sliceVals(args)
	if mode == fmSprintf || mode == fmErrorf {
		if !format.conc {
			st.vm.unsupported("symbolic format string")
		}
		pieces = parseFormat(format.s)
	}
	verbOf := func(k int) rune {
		if pieces == nil {
			return 'v'
		}
		for _, p := range pieces {
			if p.verb != 0 && p.arg == k {
				if p.verb == 'w' {
					return 'v'
				}
				if strings.Contains(p.flags, "#") && p.verb == 'v' {
					return 0
				}
				return p.verb
			}
		}
		return 0
	}
	res := make(Tuple, len(av))
	copy(res, av)
	f := st.pushHost("fmt", 8, func(st *State, f *Frame) {
		i := int(f.regs[1].(hostInt))
		vals := f.regs[2].(Tuple)
		if ph := int(f.regs[3].(hostInt)); ph == 2 {
			finish(st, f, nil)
			return
		}
		if f.regs[0] != nil { // result of a method call
			nv := append(Tuple(nil), vals...)
			nv[i] = &fmtStr{f.regs[0].(*Str), vals[i]}
			f.regs[2] = nv
			f.regs[0] = nil
			f.regs[1] = hostInt(i + 1)
			return
		}
		for ; i < len(vals); i++ {
			if m := st.wantsMethod(vals[i], verbOf(i)); m != nil {
				f.regs[1] = hostInt(i)
				st.hostCall(m, []Value{vals[i].(Iface).v})
				return
			}
		}
		f.regs[1] = hostInt(i)
		var s *Str
		switch mode {
		case fmSprintf, fmErrorf:
			s = st.sprintf(pieces, vals)
		case fmSprint:
			s = st.vm.emptyStr
			for k, v := range vals {
				if k > 0 && !isStrArg(vals[k-1]) && !isStrArg(v) {
					s = st.vm.strConcat(s, mkStr(" "))
				}
				s = st.vm.strConcat(s, st.fmtVal(v, fpiece{verb: 'v'}, 0))
			}
		case fmSprintln:
			s = st.vm.emptyStr
			for k, v := range vals {
				if k > 0 {
					s = st.vm.strConcat(s, mkStr(" "))
				}
				s = st.vm.strConcat(s, st.fmtVal(v, fpiece{verb: 'v'}, 0))
			}
			s = st.vm.strConcat(s, mkStr("\n"))
		}
		finish(st, f, s)
	})
	f.regs[1] = hostInt(0)
	f.regs[2] = res
	f.regs[3] = hostInt(0)
}

// fmtStr is an argument whose Error/String method was already called.
type fmtStr struct {
	s   *Str
	org Value
}

func isStrArg(v Value) bool {
	if f, ok := v.(*fmtStr); ok {
		v = f.org
	}
	i, ok := v.(Iface)
	return ok && i.t != nil && isString(i.t)
}

func (st *State) sprintf(ps []fpiece, vals Tuple) *Str {
	out := st.vm.emptyStr
	used := 0
	for _, p := range ps {
		if p.verb == 0 {
			out = st.vm.strConcat(out, mkStr(p.lit))
			continue
		}
		if p.arg >= len(vals) {
			out = st.vm.strConcat(out, mkStr("%!"+string(p.verb)+"(MISSING)"))
			continue
		}
		used = p.arg + 1
		out = st.vm.strConcat(out, st.fmtVal(vals[p.arg], p, 0))
	}
	if used < len(vals) {
		out = st.vm.strConcat(out, mkStr("%!(EXTRA)"))
	}
	return out
}

func (st *State) fmtVal(v Value, p fpiece, depth int) *Str {
	vm := st.vm
	if depth > 4 {
		vm.unsupported("deep fmt")
	}
	spec := func() string {
		s := "%" + p.flags
		if p.hasW {
			s += strconv.Itoa(p.width)
		}
		if p.hasP {
			s += "." + strconv.Itoa(p.prec)
		}
		return s + string(p.verb)
	}
	if p.verb == 'w' {
		p.verb = 'v'
	}
	str := func(s *Str) *Str {
		switch p.verb {
		case 's', 'v':
			if strings.Contains(p.flags, "#") || p.hasP {
				break
			}
			if s.conc {
				return mkStr(fmt.Sprintf(spec(), s.s))
			}
			if p.hasW {
				break
			}
			return s
		}
		if !s.conc {
			if p.verb == 'q' && !p.hasW && !p.hasP {
				return st.quote(s)
			}
			vm.unsupported("format %s of a symbolic string", spec())
		}
		return mkStr(fmt.Sprintf(spec(), s.s))
	}
	if f, ok := v.(*fmtStr); ok {
		return str(f.s)
	}
	i, ok := v.(Iface)
	if !ok {
		vm.unsupported("fmt of %T", v)
	}
	if i.t == nil {
		if p.verb == 'v' {
			return mkStr("<nil>")
		}
		return mkStr("%!" + string(p.verb) + "(<nil>)")
	}
	if p.verb == 'T' {
		return mkStr(types.TypeString(i.t, func(p *types.Package) string { return p.Name() }))
	}
	return st.fmtTyped(i.t, i.v, p, spec, str, depth)
}

func (st *State) fmtTyped(t types.Type, v Value, p fpiece, spec func() string, str func(*Str) *Str, depth int) *Str {
	vm := st.vm
	switch x := v.(type) {
	case *Str:
		return str(x)
	case *term.Term:
		if x.S == term.Bool {
			return mkStr(fmt.Sprintf(spec(), st.branch(x)))
		}
		if x.S == term.F64 {
			if !x.IsConst() {
				vm.unsupported("format a symbolic float")
			}
			return mkStr(fmt.Sprintf(spec(), math.Float64frombits(x.K)))
		}
		_, signed, _ := vm.intSort(t)
		n := st.concInt(x)
		if signed {
			return mkStr(fmt.Sprintf(spec(), n))
		}
		return mkStr(fmt.Sprintf(spec(), uint64(n)&((1<<uint(x.S-1))<<1-1)))
	case *Slice:
		if et, ok := t.Underlying().(*types.Slice); ok {
			if b, ok := et.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 && p.verb != 'v' && p.verb != 'd' {
				return str(st.bytesToStr(x))
			}
			out := mkStr("[")
			for k, e := range st.sliceVals(x) {
				if k > 0 {
					out = vm.strConcat(out, mkStr(" "))
				}
				out = vm.strConcat(out, st.fmtElem(et.Elem(), e, p, depth))
			}
			return vm.strConcat(out, mkStr("]"))
		}
	case *StructV:
		s, ok := t.Underlying().(*types.Struct)
		if ok {
			out := mkStr("{")
			for k, e := range x.f {
				if k > 0 {
					out = vm.strConcat(out, mkStr(" "))
				}
				if strings.Contains(p.flags, "+") {
					out = vm.strConcat(out, mkStr(s.Field(k).Name()+":"))
				}
				out = vm.strConcat(out, st.fmtElem(s.Field(k).Type(), e, p, depth))
			}
			return vm.strConcat(out, mkStr("}"))
		}
	case *Ptr:
		if x == nil {
			return mkStr("<nil>")
		}
		if pt, ok := t.Underlying().(*types.Pointer); ok && depth == 0 {
			if _, ok := pt.Elem().Underlying().(*types.Struct); ok {
				return vm.strConcat(mkStr("&"), st.fmtElem(pt.Elem(), st.loadPtr(x), p, depth))
			}
		}
		return mkStr("0xc000010000")
	case *MapRef:
		m := t.Underlying().(*types.Map)
		out := mkStr("map[")
		if x != nil {
			ents := st.load(x.obj).(*MapV).ents
			keys := st.sortedEnts(ents)
			for k, e := range keys {
				if k > 0 {
					out = vm.strConcat(out, mkStr(" "))
				}
				out = vm.strConcat(out, st.fmtElem(m.Key(), e.k, p, depth))
				out = vm.strConcat(out, mkStr(":"))
				out = vm.strConcat(out, st.fmtElem(m.Elem(), e.v, p, depth))
			}
		}
		return vm.strConcat(out, mkStr("]"))
	}
	vm.unsupported("format of %s", t)
	return nil
}

func (st *State) fmtElem(t types.Type, v Value, p fpiece, depth int) *Str {
	if i, ok := v.(Iface); ok {
		return st.fmtVal(i, p, depth+1)
	}
	i := Iface{t, v}
	if m := st.wantsMethod(i, p.verb); m != nil {
		st.vm.unsupported("fmt of nested %s with a String method", t)
	}
	return st.fmtVal(i, p, depth+1)
}

// sortedEnts orders concrete map entries by key.
func (st *State) sortedEnts(ents []MapEntry) []MapEntry {
	out := append([]MapEntry(nil), ents...)
	less := func(a, b Value) bool {
		switch x := a.(type) {
		case *Str:
			y := b.(*Str)
			return st.branch(st.vm.strLess(x, y))
		case *term.Term:
			y := b.(*term.Term)
			return x.SVal() < y.SVal()
		}
		st.vm.unsupported("sort map keys of %T", a)
		return false
	}
	for i := 1; i < len(out); i++ {
		for j := i; j > 0 && less(out[j].k, out[j-1].k); j-- {
			out[j], out[j-1] = out[j-1], out[j]
		}
	}
	return out
}

// quote is strconv.Quote for symbolic strings restricted to printable ASCII (other bytes fork away as unsupported).
func (st *State) quote(s *Str) *Str {
	C := st.vm.C
	out := []*term.Term{st.vm.byteC['"']}
	for i := 0; i < s.Len(); i++ {
		b := st.vm.strAt(s, i)
		pr := C.And(C.Bin(term.OUle, st.vm.byteC[' '], b), C.Bin(term.OUlt, b, st.vm.byteC[127]))
		if !st.branch(pr) {
			out = append(out, st.quoteByte(s, i)...)
			continue
		}
		if st.branch(C.Or(C.Eq(b, st.vm.byteC['"']), C.Eq(b, st.vm.byteC['\\']))) {
			out = append(out, st.vm.byteC['\\'])
		}
		out = append(out, b)
	}
	out = append(out, st.vm.byteC['"'])
	return st.vm.strFromBytes(out)
}

// quoteByte quotes the non-printable byte at i.
func (st *State) quoteByte(s *Str, i int) []*term.Term {
	C, vm := st.vm.C, st.vm
	b := vm.strAt(s, i)
	lt := func(x *term.Term, n int) *term.Term { return C.Bin(term.OUlt, x, vm.byteC[n]) }
	if st.branch(lt(b, 0x80)) {
		for j, c := range []byte("\a\b\t\n\v\f\r") {
			if st.branch(C.Eq(b, vm.byteC[c])) {
				return []*term.Term{vm.byteC['\\'], vm.byteC["abtnvfr"[j]]}
			}
		}
	} else if st.branch(C.And(C.Not(lt(b, 0xC2)), lt(b, 0xF5))) && i+1 < s.Len() {
		// a multi-byte rune if a continuation byte follows
		n := vm.strAt(s, i+1)
		if st.branch(C.And(C.Not(lt(n, 0x80)), lt(n, 0xC0))) {
			vm.unsupported("quote of a multi-byte rune")
		}
	}
	hex := func(n *term.Term) *term.Term {
		return C.Ite(lt(n, 10), C.Bin(term.OAdd, n, vm.byteC['0']), C.Bin(term.OAdd, n, vm.byteC['a'-10]))
	}
	return []*term.Term{vm.byteC['\\'], vm.byteC['x'], hex(C.Bin(term.OLShr, b, vm.byteC[4])), hex(C.Bin(term.OBAnd, b, vm.byteC[15]))}
}

func init() {
	retStr := func(st *State, f *Frame, s *Str) { st.doReturn(s) }
	handlers["fmt.Sprintf"] = func(st *State, fn *ssa.Function, a []Value) (Value, ctl) {
		sl, _ := a[1].(*Slice)
		st.formatHost(fmSprintf, a[0].(*Str), sl, retStr)
		return nil, ctlPushed
	}
	handlers["fmt.Sprint"] = func(st *State, fn *ssa.Function, a []Value) (Value, ctl) {
		sl, _ := a[0].(*Slice)
		st.formatHost(fmSprint, nil, sl, retStr)
		return nil, ctlPushed
	}
	handlers["fmt.Sprintln"] = func(st *State, fn *ssa.Function, a []Value) (Value, ctl) {
		sl, _ := a[0].(*Slice)
		st.formatHost(fmSprintln, nil, sl, retStr)
		return nil, ctlPushed
	}
	handlers["fmt.Errorf"] = func(st *State, fn *ssa.Function, a []Value) (Value, ctl) {
		sl, _ := a[1].(*Slice)
		format := a[0].(*Str)
		vm := st.vm
		wrapped := -1
		if format.conc {
			for _, p := range parseFormat(format.s) {
				if p.verb == 'w' {
					wrapped = p.arg
				}
			}
		}
		vals := st.sliceVals(sl)
		st.formatHost(fmErrorf, format, sl, func(st *State, f *Frame, s *Str) {
			if wrapped >= 0 && wrapped < len(vals) {
				t := vm.namedTypeC("fmt", "wrapError")
				var e Value = Iface{}
				if i, ok := vals[wrapped].(Iface); ok && i.t != nil {
					e = i
				}
				p := st.alloc(&StructV{[]Value{s, e}}, false)
				st.doReturn(Iface{types.NewPointer(t), p})
				return
			}
			t := vm.ptrTo(vm.namedTypeC("errors", "errorString"))
			p := st.alloc(&StructV{[]Value{s}}, false)
			st.doReturn(Iface{t, p})
		})
		return nil, ctlPushed
	}
	appendf := func(mode int) handler {
		return func(st *State, fn *ssa.Function, a []Value) (Value, ctl) {
			dst, _ := a[0].(*Slice)
			var format *Str
			k := 1
			if mode == fmSprintf {
				format = a[1].(*Str)
				k = 2
			}
			sl, _ := a[k].(*Slice)
			st.formatHost(mode, format, sl, func(st *State, f *Frame, s *Str) {
				var add []Value
				for _, t := range st.vm.strBytes(s) {
					add = append(add, t)
				}
				if len(add) == 0 {
					st.doReturn(dst)
					return
				}
				st.doReturn(st.appendVals(dst, add, st.vm.byteC[0], nil))
			})
			return nil, ctlPushed
		}
	}
	handlers["fmt.Appendf"] = appendf(fmSprintf)
	handlers["fmt.Append"] = appendf(fmSprint)
	handlers["fmt.Appendln"] = appendf(fmSprintln)
	fprint := func(mode int) handler {
		return func(st *State, fn *ssa.Function, a []Value) (Value, ctl) {
			w := a[0].(Iface)
			if w.t == nil {
				st.rtPanic("invalid memory address or nil pointer dereference")
				return nil, ctlPanic
			}
			var format *Str
			k := 1
			if mode == fmSprintf {
				format = a[1].(*Str)
				k = 2
			}
			sl, _ := a[k].(*Slice)
			st.formatHost(mode, format, sl, func(st *State, f *Frame, s *Str) {
				if int(f.regs[3].(hostInt)) == 2 {
					st.doReturn(f.regs[0])
					return
				}
				f.regs[3] = hostInt(2)
				m := st.vm.findMethod(w.t, "Write")
				if m == nil {
					st.vm.unsupported("Fprint to %s", w.t)
				}
				st.hostCall(m, []Value{w.v, st.strToBytes(s)})
			})
			return nil, ctlPushed
		}
	}
	handlers["fmt.Fprintf"] = fprint(fmSprintf)
	handlers["fmt.Fprint"] = fprint(fmSprint)
	handlers["fmt.Fprintln"] = fprint(fmSprintln)
	print := func(mode int) handler {
		return func(st *State, fn *ssa.Function, a []Value) (Value, ctl) {
			return Tuple{st.vm.i64(0), Iface{}}, ctlDone
		}
	}
	handlers["fmt.Printf"] = print(fmSprintf)
	handlers["fmt.Print"] = print(fmSprint)
	handlers["fmt.Println"] = print(fmSprintln)
}

func (vm *VM) ptrTo(t types.Type) types.Type {
	k := "*" + t.String()
	if vm.ntypes == nil {
		vm.ntypes = map[string]types.Type{}
	}
	if p, ok := vm.ntypes[k]; ok {
		return p
	}
	p := types.NewPointer(t)
	vm.ntypes[k] = p
	return p
}
