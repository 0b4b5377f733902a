package vm

import (
	"fmt"
	"go/types"
	"math"
	"os"
	"strings"
	"time"

	"gosym/term"

	"golang.org/x/tools/go/ssa"
)

var symHandlers = map[string]handler{}

// wordsOnly leaves out the paths without new constants, to try how the harnesses take them.
var wordsOnly = os.Getenv("GOSYM_WORDS_ONLY") != ""

func (st *State) concStr(v Value) string {
	s, ok := v.(*Str)
	if !ok {
		st.vm.unsupported("string expected, got %T", v)
	}
	if !s.conc {
		st.vm.unsupported("concrete string expected")
	}
	return s.s
}

func (st *State) addLog(kind, name string, t *term.Term, b []*term.Term) {
	st.log = &nondet{prev: st.log, tid: st.cur, kind: kind, name: name, t: t, b: b}
}

func (st *State) fresh(name string, s term.Sort) *term.Term {
	if st.isInit {
		st.vm.unsupported("nondet in init")
	}
	st.nfresh++
	k := fmt.Sprintf("%s!%d!%d", sanitize(name), st.nfresh, s)
	if v, ok := st.vm.vars[k]; ok {
		return v
	}
	v := st.vm.C.Var(k, s)
	st.vm.vars[k] = v
	return v
}

func sanitize(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' {
			return r
		}
		return '_'
	}, s)
}

func (vm *VM) i64(n int64) *term.Term { return vm.C.Const(uint64(n), 64) }

func init() {
	num := func(kind string, s term.Sort) handler {
		return func(st *State, fn *ssa.Function, a []Value) (Value, ctl) {
			n := st.concStr(a[0])
			t := st.fresh(n, s)
			st.addLog(kind, n, t, nil)
			return t, ctlDone
		}
	}
	symHandlers["Bool"] = num("bool", term.Bool)
	symHandlers["Byte"] = num("int", 8)
	symHandlers["Int"] = num("int", 64)
	symHandlers["Int64"] = num("int", 64)
	symHandlers["Uint64"] = num("int", 64)
	symHandlers["IntRange"] = func(st *State, fn *ssa.Function, a []Value) (Value, ctl) {
		n := st.concStr(a[0])
		lo, hi := int64(st.concInt(a[1])), int64(st.concInt(a[2]))
		C := st.vm.C
		t := st.fresh(n, 64)
		if lo > hi {
			st.end("infeasible")
			return nil, ctlPanic
		}
		st.addLog("int", n, t, nil)
		st.model = st.extend(term.Model{t.Vars()[0]: uint64(lo)})
		st.addPC(C.Bin(term.OSle, st.vm.i64(lo), t))
		st.addPC(C.Bin(term.OSle, t, st.vm.i64(hi)))
		return t, ctlDone
	}
	symHandlers["Choose"] = func(st *State, fn *ssa.Function, a []Value) (Value, ctl) {
		n := st.concInt(a[1])
		k := st.choose(n)
		t := st.vm.i64(int64(k))
		st.addLog("int", st.concStr(a[0]), t, nil)
		return t, ctlDone
	}
	symHandlers["Case"] = func(st *State, fn *ssa.Function, a []Value) (Value, ctl) {
		n := st.concInt(a[0])
		st.vm.NCases = n
		if st.vm.case_ >= n {
			st.end("infeasible")
			return nil, ctlPanic
		}
		return st.vm.i64(int64(st.vm.case_)), ctlDone
	}
	symHandlers["Thorough"] = func(st *State, fn *ssa.Function, a []Value) (Value, ctl) {
		return st.vm.C.Bool(st.vm.Thorough), ctlDone
	}
	symHandlers["Engine"] = func(st *State, fn *ssa.Function, a []Value) (Value, ctl) {
		return st.vm.C.True, ctlDone
	}
	symHandlers["String"] = func(st *State, fn *ssa.Function, a []Value) (Value, ctl) {
		name := st.concStr(a[0])
		n := st.concInt(a[1])
		b := make([]*term.Term, n)
		for i := range b {
			b[i] = st.fresh(name, 8)
		}
		st.addLog("str", name, nil, b)
		if n == 0 {
			return st.vm.emptyStr, ctlDone
		}
		return &Str{b: b}, ctlDone
	}
	// Word and Size offer the constants that the code under test has and the baseline lacks.
	symHandlers["Word"] = func(st *State, fn *ssa.Function, a []Value) (Value, ctl) {
		name, r := st.concStr(a[0]), st.concStr(a[1])
		if ws := st.vm.Words; st.nwords < 2 && len(ws) > 0 {
			k := 0
			if wordsOnly {
				k = 1 + st.choose(len(ws))
			} else {
				k = st.choose(len(ws) + 1)
			}
			if k > 0 {
				st.nwords++
				r = ws[k-1]
			}
		}
		b := make([]*term.Term, len(r))
		for i := range b {
			b[i] = st.vm.C.Const(uint64(r[i]), 8)
		}
		st.addLog("str", name, nil, b)
		if r == "" {
			return st.vm.emptyStr, ctlDone
		}
		return st.vm.strFromBytes(b), ctlDone
	}
	symHandlers["Size"] = func(st *State, fn *ssa.Function, a []Value) (Value, ctl) {
		r, max := st.concInt(a[1]), st.concInt(a[2])
		var ns []int
		for _, n := range st.vm.Sizes {
			if n <= max && n != r {
				ns = append(ns, n)
			}
		}
		if len(ns) > 8 {
			ns = ns[:8]
		}
		if st.nwords < 2 && len(ns) > 0 {
			if k := st.choose(len(ns) + 1); k > 0 {
				st.nwords++
				r = ns[k-1]
			}
		}
		t := st.vm.i64(int64(r))
		st.addLog("int", st.concStr(a[0]), t, nil)
		return t, ctlDone
	}
	symHandlers["Assume"] = func(st *State, fn *ssa.Function, a []Value) (Value, ctl) {
		st.assume(st.asTerm(a[0]))
		return nil, ctlDone
	}
	symHandlers["Assert"] = func(st *State, fn *ssa.Function, a []Value) (Value, ctl) {
		vm := st.vm
		c := st.asTerm(a[0])
		msg := st.concStr(a[1])
		vm.Res.Asserts++
		vm.Res.AssertBy[msg]++
		if c.IsConst() {
			vm.Res.AssertC++
		} else {
			vm.Res.AssertQ++
		}
		if k, ok := st.known(c); ok {
			if k {
				return nil, ctlDone
			}
			st.violation("assert", msg, nil)
			st.end("violation")
			return nil, ctlPanic
		}
		nc := vm.C.Not(c)
		r, m := st.refutable(nc)
		switch r {
		case term.SatR:
			st.violation("assert", msg, m)
		case term.UnknownR:
			vm.Res.Cut["solver unknown at an assertion"]++
		}
		if r == term.UnsatR {
			st.facts = &factNode{st.facts, c}
			return nil, ctlDone
		}
		// continue on the side where it holds
		st.assume(c)
		return nil, ctlDone
	}
	symHandlers["Fail"] = func(st *State, fn *ssa.Function, a []Value) (Value, ctl) {
		st.vm.Res.Asserts++
		st.vm.Res.AssertC++
		st.violation("assert", st.concStr(a[0]), nil)
		st.end("violation")
		return nil, ctlPanic
	}
	symHandlers["Cover"] = func(st *State, fn *ssa.Function, a []Value) (Value, ctl) {
		st.cover = append(st.cover[:len(st.cover):len(st.cover)], st.concStr(a[0]))
		return nil, ctlDone
	}
	symHandlers["Observe"] = func(st *State, fn *ssa.Function, a []Value) (Value, ctl) {
		v := a[1]
		if i, ok := v.(Iface); ok {
			v = i.v
			if s, ok := v.(*Slice); ok && s != nil {
				v = &ArrObs{st.sliceVals(s)}
			}
		}
		st.obs = &obsRec{prev: st.obs, label: st.concStr(a[0]), v: v}
		return nil, ctlDone
	}
	boolN := func(and bool) handler {
		return func(st *State, fn *ssa.Function, a []Value) (Value, ctl) {
			s, _ := a[0].(*Slice)
			var ts []*term.Term
			for _, v := range st.sliceVals(s) {
				ts = append(ts, st.asTerm(v))
			}
			if and {
				return st.vm.C.And(ts...), ctlDone
			}
			return st.vm.C.Or(ts...), ctlDone
		}
	}
	symHandlers["And"] = boolN(true)
	symHandlers["Or"] = boolN(false)
	symHandlers["Not"] = func(st *State, fn *ssa.Function, a []Value) (Value, ctl) {
		return st.vm.C.Not(st.asTerm(a[0])), ctlDone
	}
	symHandlers["Implies"] = func(st *State, fn *ssa.Function, a []Value) (Value, ctl) {
		return st.vm.C.Or(st.vm.C.Not(st.asTerm(a[0])), st.asTerm(a[1])), ctlDone
	}
	symHandlers["Iff"] = func(st *State, fn *ssa.Function, a []Value) (Value, ctl) {
		return st.vm.C.Eq(st.asTerm(a[0]), st.asTerm(a[1])), ctlDone
	}
	symHandlers["IteInt"] = func(st *State, fn *ssa.Function, a []Value) (Value, ctl) {
		return st.vm.C.Ite(st.asTerm(a[0]), st.asTerm(a[1]), st.asTerm(a[2])), ctlDone
	}
	symHandlers["EqStr"] = func(st *State, fn *ssa.Function, a []Value) (Value, ctl) {
		return st.vm.strEq(a[0].(*Str), a[1].(*Str)), ctlDone
	}
	symHandlers["LessStr"] = func(st *State, fn *ssa.Function, a []Value) (Value, ctl) {
		return st.vm.strLess(a[0].(*Str), a[1].(*Str)), ctlDone
	}
	symHandlers["HasPrefix"] = func(st *State, fn *ssa.Function, a []Value) (Value, ctl) {
		x, p := a[0].(*Str), a[1].(*Str)
		if p.Len() > x.Len() {
			return st.vm.C.False, ctlDone
		}
		return st.vm.strEq(st.vm.strSlice(x, 0, p.Len()), p), ctlDone
	}
	// Contains is the non-forking substring test.
	symHandlers["Contains"] = func(st *State, fn *ssa.Function, a []Value) (Value, ctl) {
		x, p := a[0].(*Str), a[1].(*Str)
		r := st.vm.C.False
		for i := 0; i+p.Len() <= x.Len(); i++ {
			r = st.vm.C.Or(r, st.vm.strEq(st.vm.strSlice(x, i, i+p.Len()), p))
		}
		return r, ctlDone
	}
	symHandlers["ContainsByte"] = func(st *State, fn *ssa.Function, a []Value) (Value, ctl) {
		x, c := a[0].(*Str), st.asTerm(a[1])
		r := st.vm.C.False
		for i := 0; i < x.Len(); i++ {
			r = st.vm.C.Or(r, st.vm.C.Eq(st.vm.strAt(x, i), c))
		}
		return r, ctlDone
	}
	// In(b, set): byte b is one of the bytes of set.
	symHandlers["In"] = func(st *State, fn *ssa.Function, a []Value) (Value, ctl) {
		b, s := st.asTerm(a[0]), st.concStr(a[1])
		r := st.vm.C.False
		for i := 0; i < len(s); i++ {
			r = st.vm.C.Or(r, st.vm.C.Eq(b, st.vm.byteC[s[i]]))
		}
		return r, ctlDone
	}
	redirectTo := func(st *State, a []Value, repo bool) (Value, ctl) {
		i, ok := a[1].(Iface)
		if !ok {
			st.vm.unsupported("Redirect target")
		}
		var c *Closure
		if i.t != nil {
			c = i.v.(*Closure)
		}
		st.redir = &redirNode{prev: st.redir, key: st.concStr(a[0]), fn: c, repo: repo}
		return nil, ctlDone
	}
	redirect := func(st *State, fn *ssa.Function, a []Value) (Value, ctl) { return redirectTo(st, a, false) }
	symHandlers["RedirectRepo"] = func(st *State, fn *ssa.Function, a []Value) (Value, ctl) { return redirectTo(st, a, true) }
	symHandlers["Redirect"] = redirect
	symHandlers["RedirectEngine"] = redirect
	symHandlers["MapOrder"] = func(st *State, fn *ssa.Function, a []Value) (Value, ctl) {
		st.maporder = st.asTerm(a[0]).IsTrue()
		return nil, ctlDone
	}
	symHandlers["Go"] = func(st *State, fn *ssa.Function, a []Value) (Value, ctl) {
		t := st.spawn(a[0], nil, "go")
		t.joined = true
		st.vm.Res.Threads++
		return nil, ctlDone
	}
	symHandlers["NGo"] = func(st *State, fn *ssa.Function, a []Value) (Value, ctl) {
		st.spawn(a[0], nil, "go")
		return nil, ctlDone
	}
	wait := func(kind string) handler {
		return func(st *State, fn *ssa.Function, a []Value) (Value, ctl) {
			t := st.th()
			if t.resume != nil {
				t.resume = nil
				t.armed = false
				if kind == "wait" && st.race != nil {
					for _, o := range st.ths {
						if o.joined {
							if v, ok := st.race.sync[fmt.Sprintf("exit%d", o.id)]; ok {
								t.vc = t.vc.copy().join(v)
							}
						}
					}
				}
				return nil, ctlDone
			}
			if len(st.ths) == 1 {
				return nil, ctlDone
			}
			st.block(kind, nil, 0, kind)
			return nil, ctlRetry
		}
	}
	symHandlers["Wait"] = wait("wait")
	symHandlers["Quiesce"] = wait("quiesce")
	symHandlers["Yield"] = wait("yield")
	symHandlers["BlockForever"] = func(st *State, fn *ssa.Function, a []Value) (Value, ctl) {
		st.block("forever", nil, 0, "forever")
		return nil, ctlRetry
	}
	symHandlers["Exit"] = func(st *State, fn *ssa.Function, a []Value) (Value, ctl) {
		st.exitProcess(st.asTerm(a[0]))
		return nil, ctlPanic
	}
	symHandlers["CatchExit"] = func(st *State, fn *ssa.Function, a []Value) (Value, ctl) {
		cl := a[0].(*Closure)
		st.pushFrame(st.vm.info(cl.fn), nil, cl.fv, retCatchExit, -1)
		return nil, ctlPanic // result is delivered by afterReturn or exitProcess
	}
	// CatchPanic runs f and reports whether it panicked.
	symHandlers["TimeFromNanos"] = func(st *State, fn *ssa.Function, a []Value) (Value, ctl) {
		return st.vtime(st.asTerm(a[0])), ctlDone
	}
	symHandlers["Point"] = func(st *State, fn *ssa.Function, a []Value) (Value, ctl) {
		if len(st.ths) == 1 {
			return nil, ctlDone
		}
		t := st.th()
		if t.armed {
			t.armed = false
			return nil, ctlDone
		}
		st.needSched = true
		return nil, ctlRetry
	}
	symHandlers["Tid"] = func(st *State, fn *ssa.Function, a []Value) (Value, ctl) {
		return st.vm.i64(int64(st.cur)), ctlDone
	}
	symHandlers["IsConcrete"] = func(st *State, fn *ssa.Function, a []Value) (Value, ctl) {
		switch x := a[0].(Iface).v.(type) {
		case *Str:
			return st.vm.C.Bool(x.conc), ctlDone
		case *term.Term:
			return st.vm.C.Bool(x.IsConst()), ctlDone
		}
		return st.vm.C.False, ctlDone
	}
	// StructString returns the string field of a struct held in an interface, and the name of its type.
	symHandlers["StructString"] = func(st *State, fn *ssa.Function, a []Value) (Value, ctl) {
		i, ok := a[0].(Iface)
		if !ok || i.t == nil {
			return Tuple{st.vm.emptyStr, st.vm.emptyStr, st.vm.C.False}, ctlDone
		}
		t, v := i.t, i.v
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
			pp := v.(*Ptr)
			if pp == nil {
				return Tuple{st.vm.emptyStr, st.vm.emptyStr, st.vm.C.False}, ctlDone
			}
			v = st.loadPtr(pp)
		}
		name := st.concStr(a[1])
		s, ok := t.Underlying().(*types.Struct)
		if ok {
			for k := 0; k < s.NumFields(); k++ {
				if s.Field(k).Name() == name && s.Field(k).Exported() {
					fv := v.(*StructV).f[k]
					ft := s.Field(k).Type()
					if ii, ok := fv.(Iface); ok {
						fv, ft = ii.v, ii.t
					}
					if str, ok := fv.(*Str); ok {
						return Tuple{str, mkStr(ft.String()), st.vm.C.True}, ctlDone
					}
				}
			}
		}
		if r, ok := v.(*MapRef); ok && r != nil {
			if fv, ok := st.mapGet(r, mkStr(name)); ok {
				ft := types.Type(types.Typ[types.String])
				if m, ok := t.Underlying().(*types.Map); ok {
					ft = m.Elem()
				}
				if ii, ok := fv.(Iface); ok {
					fv, ft = ii.v, ii.t
				}
				if str, ok := fv.(*Str); ok {
					return Tuple{str, mkStr(ft.String()), st.vm.C.True}, ctlDone
				}
			}
		}
		return Tuple{st.vm.emptyStr, st.vm.emptyStr, st.vm.C.False}, ctlDone
	}
	symHandlers["SliceSwap"] = func(st *State, fn *ssa.Function, a []Value) (Value, ctl) {
		s := a[0].(Iface).v.(*Slice)
		i, j := st.concInt(a[1]), st.concInt(a[2])
		x, y := st.sliceAt(s, i), st.sliceAt(s, j)
		st.storePtr(s.arr.sub(s.off+i), y)
		st.storePtr(s.arr.sub(s.off+j), x)
		return nil, ctlDone
	}
	symHandlers["SliceLen"] = func(st *State, fn *ssa.Function, a []Value) (Value, ctl) {
		s, _ := a[0].(Iface).v.(*Slice)
		if s == nil {
			return st.vm.i64(0), ctlDone
		}
		return st.vm.i64(int64(s.len)), ctlDone
	}
	symHandlers["MapID"] = func(st *State, fn *ssa.Function, a []Value) (Value, ctl) {
		m, _ := a[0].(*MapRef)
		if m == nil {
			return mkStr("0"), ctlDone
		}
		return mkStr((&Ptr{obj: m.obj}).key()), ctlDone
	}
	symHandlers["PtrID"] = func(st *State, fn *ssa.Function, a []Value) (Value, ctl) {
		p, _ := a[0].(Iface).v.(*Ptr)
		if p == nil {
			return mkStr("nil"), ctlDone
		}
		return mkStr(p.key()), ctlDone
	}
}

// ArrObs is a snapshot of a slice for observation.
type ArrObs struct{ vals []Value }

// ---- virtual time ----

const vmark = 1<<30 - 1

func (st *State) vtime(ns *term.Term) *StructV {
	return &StructV{[]Value{st.vm.C.Const(vmark, 64), ns, (*Ptr)(nil)}}
}

func isVirtual(v Value) bool {
	s, ok := v.(*StructV)
	if !ok || len(s.f) != 3 {
		return false
	}
	w, ok := s.f[0].(*term.Term)
	return ok && w.IsConst() && w.K == vmark
}

// nanosOf returns unix nanoseconds; zero reports the zero Time.
func (st *State) nanosOf(v Value) (ns *term.Term, zero bool) {
	s, ok := v.(*StructV)
	if !ok {
		st.vm.unsupported("time value %T", v)
	}
	w, e := st.asTerm(s.f[0]), st.asTerm(s.f[1])
	if !w.IsConst() {
		st.vm.unsupported("symbolic wall")
	}
	if w.K == vmark {
		return e, false
	}
	if !e.IsConst() {
		st.vm.unsupported("symbolic time")
	}
	if w.K == 0 && e.K == 0 {
		return nil, true
	}
	nsec := int64(w.K & (1<<30 - 1))
	var sec int64
	if w.K>>63 == 1 {
		sec = int64(w.K<<1>>31) + (1884*365+1884/4-1884/100+1884/400)*86400
	} else {
		sec = int64(e.K)
	}
	const unixToInternal = (1969*365 + 1969/4 - 1969/100 + 1969/400) * 86400
	return st.vm.i64((sec-unixToInternal)*1e9 + nsec), false
}

func init() {
	t2 := func(f func(st *State, a, b *term.Term, za, zb bool) Value) handler {
		return func(st *State, fn *ssa.Function, a []Value) (Value, ctl) {
			if !isVirtual(a[0]) && !isVirtual(a[1]) {
				return nil, ctlSkip
			}
			x, zx := st.nanosOf(a[0])
			y, zy := st.nanosOf(a[1])
			return f(st, x, y, zx, zy), ctlDone
		}
	}
	handlers["(time.Time).Sub"] = t2(func(st *State, a, b *term.Term, za, zb bool) Value {
		if za {
			return st.vm.i64(math.MinInt64)
		}
		if zb {
			return st.vm.i64(math.MaxInt64)
		}
		return st.vm.C.Bin(term.OSub, a, b)
	})
	cmp := func(op string) handler {
		return t2(func(st *State, a, b *term.Term, za, zb bool) Value {
			C := st.vm.C
			var lt, gt *term.Term
			switch {
			case za:
				lt, gt = C.True, C.False
			case zb:
				lt, gt = C.False, C.True
			default:
				lt, gt = C.Bin(term.OSlt, a, b), C.Bin(term.OSlt, b, a)
			}
			switch op {
			case "Before":
				return lt
			case "After":
				return gt
			case "Equal":
				return C.And(C.Not(lt), C.Not(gt))
			}
			return C.Ite(lt, st.vm.i64(-1), C.Ite(gt, st.vm.i64(1), st.vm.i64(0)))
		})
	}
	for _, o := range []string{"Before", "After", "Equal", "Compare"} {
		handlers["(time.Time)."+o] = cmp(o)
	}
	t1 := func(f func(st *State, ns *term.Term, a []Value) Value) handler {
		return func(st *State, fn *ssa.Function, a []Value) (Value, ctl) {
			if !isVirtual(a[0]) {
				return nil, ctlSkip
			}
			return f(st, a[0].(*StructV).f[1].(*term.Term), a), ctlDone
		}
	}
	handlers["(time.Time).UnixNano"] = t1(func(st *State, ns *term.Term, a []Value) Value { return ns })
	div := func(d int64) handler {
		return t1(func(st *State, ns *term.Term, a []Value) Value {
			return st.vm.C.Bin(term.OSDiv, ns, st.vm.i64(d))
		})
	}
	handlers["(time.Time).Unix"] = div(1e9)
	handlers["(time.Time).UnixMilli"] = div(1e6)
	handlers["(time.Time).UnixMicro"] = div(1e3)
	handlers["(time.Time).Add"] = t1(func(st *State, ns *term.Term, a []Value) Value {
		return st.vtime(st.vm.C.Bin(term.OAdd, ns, st.asTerm(a[1])))
	})
	handlers["(time.Time).IsZero"] = t1(func(st *State, ns *term.Term, a []Value) Value { return st.vm.C.False })
	same := t1(func(st *State, ns *term.Term, a []Value) Value { return a[0] })
	for _, o := range []string{"UTC", "Local", "In", "Round", "Truncate"} {
		if o == "Round" || o == "Truncate" {
			handlers["(time.Time)."+o] = t1(func(st *State, ns *term.Term, a []Value) Value {
				if d := st.asTerm(a[1]); d.IsConst() && d.SVal() <= 1 {
					return a[0]
				}
				st.vm.unsupported("rounding of a virtual time")
				return nil
			})
			continue
		}
		handlers["(time.Time)."+o] = same
	}
	handlers["(time.Time).String"] = t1(func(st *State, ns *term.Term, a []Value) Value {
		return mkStr(time.Unix(0, int64(st.concInt(ns))).String())
	})
	handlers["(time.Time).Format"] = t1(func(st *State, ns *term.Term, a []Value) Value {
		return mkStr(time.Unix(0, int64(st.concInt(ns))).Format(st.concStr(a[1])))
	})
}

// ---- bytes and strings primitives ----

// bytesOf views a *Str or *Slice of bytes as terms.
func (st *State) bytesOf(v Value) []*term.Term {
	switch x := v.(type) {
	case *Str:
		return st.vm.strBytes(x)
	case *Slice:
		if x == nil {
			return nil
		}
		arr := st.loadPtr(x.arr).(*ArrV)
		out := make([]*term.Term, x.len)
		for i := range out {
			out[i] = st.asTerm(arr.at(x.off + i))
		}
		return out
	}
	st.vm.unsupported("bytes of %T", v)
	return nil
}

func (st *State) asStr(v Value) *Str {
	if s, ok := v.(*Str); ok {
		return s
	}
	return st.vm.strFromBytes(st.bytesOf(v))
}

func init() {
	idxByte := func(last bool) handler {
		return func(st *State, fn *ssa.Function, a []Value) (Value, ctl) {
			C := st.vm.C
			b := st.bytesOf(a[0])
			c := st.asTerm(a[1])
			r := st.vm.i64(-1)
			if last {
				for i := 0; i < len(b); i++ {
					r = C.Ite(C.Eq(b[i], c), st.vm.i64(int64(i)), r)
				}
			} else {
				for i := len(b) - 1; i >= 0; i-- {
					r = C.Ite(C.Eq(b[i], c), st.vm.i64(int64(i)), r)
				}
			}
			return r, ctlDone
		}
	}
	for _, k := range []string{"internal/bytealg.IndexByte", "internal/bytealg.IndexByteString", "strings.IndexByte", "bytes.IndexByte"} {
		handlers[k] = idxByte(false)
	}
	for _, k := range []string{"internal/bytealg.LastIndexByte", "internal/bytealg.LastIndexByteString", "strings.LastIndexByte", "bytes.LastIndexByte"} {
		handlers[k] = idxByte(true)
	}
	count := func(st *State, fn *ssa.Function, a []Value) (Value, ctl) {
		C := st.vm.C
		r := st.vm.i64(0)
		c := st.asTerm(a[1])
		for _, x := range st.bytesOf(a[0]) {
			r = C.Bin(term.OAdd, r, C.Ite(C.Eq(x, c), st.vm.i64(1), st.vm.i64(0)))
		}
		return r, ctlDone
	}
	handlers["internal/bytealg.Count"] = count
	handlers["internal/bytealg.CountString"] = count
	eq := func(st *State, fn *ssa.Function, a []Value) (Value, ctl) {
		return st.vm.strEq(st.asStr(a[0]), st.asStr(a[1])), ctlDone
	}
	handlers["internal/bytealg.Equal"] = eq
	handlers["bytes.Equal"] = eq
	cmp := func(st *State, fn *ssa.Function, a []Value) (Value, ctl) {
		C := st.vm.C
		x, y := st.asStr(a[0]), st.asStr(a[1])
		return C.Ite(st.vm.strLess(x, y), st.vm.i64(-1), C.Ite(st.vm.strEq(x, y), st.vm.i64(0), st.vm.i64(1))), ctlDone
	}
	for _, k := range []string{"internal/bytealg.Compare", "bytes.Compare", "strings.Compare", "internal/bytealg.CompareString", "cmp.Compare[string]"} {
		handlers[k] = cmp
	}
	index := func(last bool) handler {
		return func(st *State, fn *ssa.Function, a []Value) (Value, ctl) {
			C := st.vm.C
			x, y := st.asStr(a[0]), st.asStr(a[1])
			r := st.vm.i64(-1)
			n := x.Len() - y.Len()
			at := func(i int) {
				r = C.Ite(st.vm.strEq(st.vm.strSlice(x, i, i+y.Len()), y), st.vm.i64(int64(i)), r)
			}
			if last {
				for i := 0; i <= n; i++ {
					at(i)
				}
			} else {
				for i := n; i >= 0; i-- {
					at(i)
				}
			}
			return r, ctlDone
		}
	}
	for _, k := range []string{"internal/bytealg.Index", "internal/bytealg.IndexString", "strings.Index", "bytes.Index"} {
		handlers[k] = index(false)
	}
	for _, k := range []string{"strings.LastIndex", "bytes.LastIndex"} {
		handlers[k] = index(true)
	}
	handlers["internal/bytealg.MakeNoZero"] = func(st *State, fn *ssa.Function, a []Value) (Value, ctl) {
		n := st.concInt(a[0])
		p := st.alloc(newArr(n, st.vm.byteC[0]), false)
		return &Slice{arr: p, len: n, cap: n}, ctlDone
	}
	nop := func(st *State, fn *ssa.Function, a []Value) (Value, ctl) { return nil, ctlDone }
	for _, k := range []string{"(*strings.Builder).copyCheck", "runtime.KeepAlive", "runtime.SetFinalizer", "runtime.GC", "runtime.Gosched",
		"internal/race.Acquire", "internal/race.Release", "internal/race.ReleaseMerge", "internal/race.Disable", "internal/race.Enable",
		"internal/race.Write", "internal/race.Read", "internal/race.ReadRange", "internal/race.WriteRange", "internal/race.Errors",
		"(*internal/godebug.Setting).IncNonDefault", "(*internal/godebug.Setting).register", "internal/godebug.setUpdate", "internal/godebug.registerMetric",
		"internal/godebug.setNewIncNonDefault", "internal/godebug.write", "runtime/debug.SetGCPercent", "runtime.Callers",
		"internal/msan.Read", "internal/asan.Read", "internal/msan.Write", "internal/asan.Write", "internal/testlog.Open", "internal/testlog.Stat", "internal/testlog.Getenv"} {
		handlers[k] = nop
	}
	handlers["(*internal/godebug.Setting).Value"] = func(st *State, fn *ssa.Function, a []Value) (Value, ctl) {
		return st.vm.emptyStr, ctlDone
	}
	handlers["internal/godebug.New"] = func(st *State, fn *ssa.Function, a []Value) (Value, ctl) {
		t := fn.Signature.Results().At(0).Type().(*types.Pointer).Elem()
		return st.alloc(st.vm.zero(t), false), ctlDone
	}
	handlers["(*internal/godebug.Setting).Name"] = func(st *State, fn *ssa.Function, a []Value) (Value, ctl) {
		return mkStr("setting"), ctlDone
	}
	handlers["unique.Make"] = func(st *State, fn *ssa.Function, a []Value) (Value, ctl) {
		k, ok := concKey(a[0])
		if !ok {
			st.vm.unsupported("unique.Make of a symbolic value")
		}
		k = fn.Signature.Params().At(0).Type().String() + ":" + k
		p := st.vm.uniq[k]
		for u := st.uniq; p == nil && u != nil; u = u.prev {
			if u.key == k {
				p = u.p
			}
		}
		if p == nil {
			p = st.alloc(a[0], false)
			if st.isInit {
				if st.vm.uniq == nil {
					st.vm.uniq = map[string]*Ptr{}
				}
				st.vm.uniq[k] = p
			} else {
				st.uniq = &uniqNode{st.uniq, k, p}
			}
		}
		return &StructV{f: []Value{p}}, ctlDone
	}
	handlers["internal/abi.NoEscape"] = func(st *State, fn *ssa.Function, a []Value) (Value, ctl) { return a[0], ctlDone }
	handlers["internal/stringslite.Clone"] = func(st *State, fn *ssa.Function, a []Value) (Value, ctl) { return a[0], ctlDone }
	handlers["strings.Clone"] = handlers["internal/stringslite.Clone"]
	handlers["internal/cpu.Initialize"] = nop
	handlers["os.runtime_args"] = func(st *State, fn *ssa.Function, a []Value) (Value, ctl) { return (*Slice)(nil), ctlDone }
	handlers["os.Getenv"] = func(st *State, fn *ssa.Function, a []Value) (Value, ctl) { return st.vm.emptyStr, ctlDone }
	handlers["syscall.Getenv"] = func(st *State, fn *ssa.Function, a []Value) (Value, ctl) {
		return Tuple{st.vm.emptyStr, st.vm.C.False}, ctlDone
	}
	handlers["syscall.runtime_envs"] = handlers["os.runtime_args"]
	handlers["os.NewFile"] = func(st *State, fn *ssa.Function, a []Value) (Value, ctl) {
		t := fn.Signature.Results().At(0).Type().(*types.Pointer).Elem()
		return st.alloc(st.vm.zero(t), false), ctlDone
	}
	handlers["net/http.init#1"] = nop
	// math
	handlers["math.Float64bits"] = func(st *State, fn *ssa.Function, a []Value) (Value, ctl) {
		t := st.asTerm(a[0])
		if !t.IsConst() {
			st.vm.unsupported("bits of a symbolic float")
		}
		return st.vm.C.Const(t.K, 64), ctlDone
	}
	handlers["math.Float64frombits"] = func(st *State, fn *ssa.Function, a []Value) (Value, ctl) {
		t := st.asTerm(a[0])
		if !t.IsConst() {
			st.vm.unsupported("float from symbolic bits")
		}
		return st.vm.C.Float(math.Float64frombits(t.K)), ctlDone
	}
	handlers["math.Float32bits"] = func(st *State, fn *ssa.Function, a []Value) (Value, ctl) {
		t := st.asTerm(a[0])
		if !t.IsConst() {
			st.vm.unsupported("bits of a symbolic float")
		}
		return st.vm.C.Const(uint64(math.Float32bits(float32(math.Float64frombits(t.K)))), 32), ctlDone
	}
	fl := func(f func(float64) float64) handler {
		return func(st *State, fn *ssa.Function, a []Value) (Value, ctl) {
			t := st.asTerm(a[0])
			if !t.IsConst() {
				return nil, ctlSkip
			}
			return st.vm.C.Float(f(math.Float64frombits(t.K))), ctlDone
		}
	}
	handlers["math.Floor"] = fl(math.Floor)
	handlers["math.Ceil"] = fl(math.Ceil)
	handlers["math.Trunc"] = fl(math.Trunc)
	handlers["math.Sqrt"] = fl(math.Sqrt)
	handlers["math.sqrt"] = fl(math.Sqrt)
	handlers["math.Abs"] = func(st *State, fn *ssa.Function, a []Value) (Value, ctl) {
		C := st.vm.C
		t := st.asTerm(a[0])
		if t.IsConst() {
			return C.Float(math.Abs(math.Float64frombits(t.K))), ctlDone
		}
		return C.Ite(C.Bin(term.OFLt, t, C.Float(0)), C.Un(term.OFNeg, t), t), ctlDone
	}
	// crypto/subtle
	handlers["crypto/subtle.ConstantTimeCompare"] = func(st *State, fn *ssa.Function, a []Value) (Value, ctl) {
		C := st.vm.C
		return C.Ite(st.vm.strEq(st.asStr(a[0]), st.asStr(a[1])), st.vm.i64(1), st.vm.i64(0)), ctlDone
	}
	hash := func(kind string, n int, conc func([]byte) []byte) func(st *State, in *Str) []*term.Term {
		return func(st *State, in *Str) []*term.Term {
			return st.hash(kind, n, in, conc)
		}
	}
	arr := func(h func(st *State, in *Str) []*term.Term) handler {
		return func(st *State, fn *ssa.Function, a []Value) (Value, ctl) {
			out := h(st, st.asStr(a[0]))
			r := newArr(len(out), st.vm.byteC[0])
			for i, t := range out {
				r.mutSet(i, t, false)
			}
			return r, ctlDone
		}
	}
	handlers["crypto/sha256.Sum256"] = arr(hash("sha256", 32, sum256))
	handlers["crypto/sha512.Sum512"] = arr(hash("sha512", 64, sum512))
	handlers["crypto/sha1.Sum"] = arr(hash("sha1", 20, sum1))
	handlers["crypto/md5.Sum"] = arr(hash("md5", 16, sumMD5))
	xx := hash("xxh64", 8, func(b []byte) []byte {
		v := xxh64(b)
		out := make([]byte, 8)
		for i := range out {
			out[i] = byte(v >> (8 * uint(i)))
		}
		return out
	})
	xxh := func(st *State, fn *ssa.Function, a []Value) (Value, ctl) {
		o := st.hashInjective(st.asStr(a[0]), xx)
		r := o[0]
		for _, b := range o[1:] {
			r = st.vm.C.Concat(b, r)
		}
		return r, ctlDone
	}
	handlers["github.com/cespare/xxhash.Sum64"] = xxh
	handlers["github.com/cespare/xxhash.Sum64String"] = xxh
	handlers["github.com/cespare/xxhash/v2.Sum64"] = xxh
	handlers["github.com/cespare/xxhash/v2.Sum64String"] = xxh
}

// hash models a hash function: concrete inputs are hashed for real, symbolic inputs get fresh outputs that are
// equal exactly when the inputs are equal.
func (st *State) hash(kind string, n int, in *Str, conc func([]byte) []byte) []*term.Term {
	vm := st.vm
	C := vm.C
	for h := st.hashes; h != nil; h = h.prev {
		if h.kind == kind && (h.in == in || vm.strEq(h.in, in).IsTrue()) {
			return h.out
		}
	}
	out := make([]*term.Term, n)
	if in.conc {
		for i, b := range conc([]byte(in.s)) {
			out[i] = vm.byteC[b]
		}
	} else {
		m := term.Model{}
		mb := conc([]byte(st.strModel(in, st.model)))
		for i := range out {
			out[i] = st.fresh(kind, 8)
			m[out[i].Vars()[0]] = uint64(mb[i])
		}
		st.model = st.extend(m)
	}
	for h := st.hashes; h != nil; h = h.prev {
		if h.kind != kind {
			continue
		}
		ie := vm.strEq(h.in, in)
		oe := vm.strEq(vm.strFromBytes(h.out), vm.strFromBytes(out))
		c := C.Eq(ie, oe)
		if c.IsConst() {
			continue
		}
		// the model hashes for real, so it satisfies the constraint unless an earlier model changed
		if term.Eval(c, st.model) == 1 {
			st.addPC(c)
		} else {
			st.assume(c)
		}
	}
	st.hashes = &hashNode{prev: st.hashes, kind: kind, in: in, out: out}
	return out
}

// hashInjective models xxhash of symbolic inputs as an arbitrary injective function: an input that equals no
// earlier one gets a new concrete output whose low byte (the shard of a cache) coincides with that of any
// earlier output or of none.
func (st *State) hashInjective(in *Str, real func(st *State, in *Str) []*term.Term) []*term.Term {
	const kind = "xxh64"
	vm := st.vm
	known := in.conc
	for h := st.hashes; h != nil; h = h.prev {
		if h.kind == kind && !h.in.conc {
			known = false
		}
	}
	if known {
		return real(st, in)
	}
	n := uint64(0)
	var lows []uint64
	for h := st.hashes; h != nil; h = h.prev {
		if h.kind != kind {
			continue
		}
		n++
		if h.in == in || st.branch(vm.strEq(h.in, in)) {
			return h.out
		}
		low := h.out[0].K
		dup := false
		for _, l := range lows {
			dup = dup || l == low
		}
		if !dup {
			lows = append(lows, low)
		}
	}
	var v uint64
	if in.conc {
		v = xxh64([]byte(in.s))
	} else {
		low := uint64(0x40 + n*7)
		if k := st.choose(len(lows) + 1); k > 0 {
			low = lows[k-1]
		}
		v = 0xabcd000000000000 | (n+1)<<16 | low
	}
	out := make([]*term.Term, 8)
	for i := range out {
		out[i] = vm.byteC[byte(v>>(8*uint(i)))]
	}
	st.hashes = &hashNode{prev: st.hashes, kind: kind, in: in, out: out}
	return out
}

// ---- atomics ----

func init() {
	type rmw func(st *State, old *term.Term, a []Value) (nv *term.Term, res Value)
	at := func(write bool, f rmw) handler {
		return func(st *State, fn *ssa.Function, a []Value) (Value, ctl) {
			p, ok := st.nilCheck(a[0])
			if !ok {
				return nil, ctlPanic
			}
			if !st.syncPoint() {
				return nil, ctlRetry
			}
			old := st.loadPtr(p)
			st.acquire("a" + p.key())
			ot, isT := old.(*term.Term)
			if !isT {
				// pointers
				return st.atomicPtr(fn, p, old, a)
			}
			nv, res := f(st, ot, a)
			if write && nv != nil {
				st.storePtr(p, nv)
				st.release("a" + p.key())
			}
			return res, ctlDone
		}
	}
	ld := at(false, func(st *State, o *term.Term, a []Value) (*term.Term, Value) { return nil, o })
	stt := at(true, func(st *State, o *term.Term, a []Value) (*term.Term, Value) { return st.asTerm(a[1]), nil })
	add := at(true, func(st *State, o *term.Term, a []Value) (*term.Term, Value) {
		n := st.vm.C.Bin(term.OAdd, o, st.asTerm(a[1]))
		return n, n
	})
	swp := at(true, func(st *State, o *term.Term, a []Value) (*term.Term, Value) { return st.asTerm(a[1]), o })
	cas := at(true, func(st *State, o *term.Term, a []Value) (*term.Term, Value) {
		e := st.vm.C.Eq(o, st.asTerm(a[1]))
		return st.vm.C.Ite(e, st.asTerm(a[2]), o), e
	})
	and := at(true, func(st *State, o *term.Term, a []Value) (*term.Term, Value) {
		return st.vm.C.Bin(term.OBAnd, o, st.asTerm(a[1])), o
	})
	or := at(true, func(st *State, o *term.Term, a []Value) (*term.Term, Value) {
		return st.vm.C.Bin(term.OBOr, o, st.asTerm(a[1])), o
	})
	for _, pk := range []string{"sync/atomic.", "internal/runtime/atomic."} {
		for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
			handlers[pk+"Load"+ty] = ld
			handlers[pk+"Store"+ty] = stt
			handlers[pk+"Add"+ty] = add
			handlers[pk+"Swap"+ty] = swp
			handlers[pk+"CompareAndSwap"+ty] = cas
			handlers[pk+"And"+ty] = and
			handlers[pk+"Or"+ty] = or
		}
	}
	// atomic.Value: the first word of the struct (field v, an interface)
	handlers["(*sync/atomic.Value).Load"] = func(st *State, fn *ssa.Function, a []Value) (Value, ctl) {
		p, ok := st.nilCheck(a[0])
		if !ok {
			return nil, ctlPanic
		}
		if !st.syncPoint() {
			return nil, ctlRetry
		}
		st.acquire("a" + p.key())
		return st.loadPtr(p.sub(0)), ctlDone
	}
	handlers["(*sync/atomic.Value).Store"] = func(st *State, fn *ssa.Function, a []Value) (Value, ctl) {
		p, ok := st.nilCheck(a[0])
		if !ok {
			return nil, ctlPanic
		}
		if !st.syncPoint() {
			return nil, ctlRetry
		}
		st.storePtr(p.sub(0), a[1])
		st.release("a" + p.key())
		return nil, ctlDone
	}
	handlers["(*sync/atomic.Value).Swap"] = func(st *State, fn *ssa.Function, a []Value) (Value, ctl) {
		p, ok := st.nilCheck(a[0])
		if !ok {
			return nil, ctlPanic
		}
		if !st.syncPoint() {
			return nil, ctlRetry
		}
		old := st.loadPtr(p.sub(0))
		st.acquire("a" + p.key())
		st.storePtr(p.sub(0), a[1])
		st.release("a" + p.key())
		return old, ctlDone
	}
}

func (st *State) atomicPtr(fn *ssa.Function, p *Ptr, old Value, a []Value) (Value, ctl) {
	n := fn.Name()
	switch {
	case strings.HasPrefix(n, "Load"):
		return old, ctlDone
	case strings.HasPrefix(n, "Store"):
		st.storePtr(p, a[1])
		st.release("a" + p.key())
		return nil, ctlDone
	case strings.HasPrefix(n, "Swap"):
		st.storePtr(p, a[1])
		st.release("a" + p.key())
		return old, ctlDone
	case strings.HasPrefix(n, "CompareAndSwap"):
		x, _ := old.(*Ptr)
		y, _ := a[1].(*Ptr)
		if !ptrEq(x, y) {
			return st.vm.C.False, ctlDone
		}
		st.storePtr(p, a[2])
		st.release("a" + p.key())
		return st.vm.C.True, ctlDone
	}
	st.vm.unsupported("atomic %s on pointer", n)
	return nil, ctlDone
}
