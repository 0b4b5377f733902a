package vm

import (
	"fmt"
	"go/types"
	"strings"

	"gosym/term"

	"golang.org/x/tools/go/ssa"
)

type ctl int

const (
	ctlDone   ctl = iota // value is ready
	ctlPushed            // a frame was pushed whose result is the result
	ctlRetry             // thread must retry later
	ctlPanic             // a panic was started / state ended
	ctlSkip              // not handled: run the real body
)

type handler func(st *State, fn *ssa.Function, args []Value) (Value, ctl)

var handlers = map[string]handler{}

func (st *State) mkError(msg string) Iface {
	return Iface{t: st.vm.runtimeErrorType(), v: mkStr(msg)}
}

// callTarget resolves callee and arguments of a call, defer or go instruction.
func (st *State) callTarget(f *Frame, ins *Ins) (Value, []Value) {
	args := make([]Value, 0, len(ins.a))
	if ins.recvIntf {
		recv, ok := st.get(f, ins.a[0]).(Iface)
		if !ok {
			st.vm.unsupported("invoke on %T", st.get(f, ins.a[0]))
		}
		if recv.t == nil {
			st.rtPanic("invalid memory address or nil pointer dereference")
			return nil, nil
		}
		fn := st.vm.method(recv.t, ins.com.Method)
		args = append(args, recv.v)
		for _, s := range ins.a[1:] {
			args = append(args, st.get(f, s))
		}
		return &Closure{fn: fn}, args
	}
	fnv := st.get(f, ins.a[0])
	for _, s := range ins.a[1:] {
		args = append(args, st.get(f, s))
	}
	return fnv, args
}

func (vm *VM) method(t types.Type, m *types.Func) *ssa.Function {
	k := methKey{t, m}
	if fn, ok := vm.methCache[k]; ok {
		return fn
	}
	fn := vm.Prog.LookupMethod(t, m.Pkg(), m.Name())
	if fn == nil {
		vm.unsupported("no method %s on %s", m.Name(), t)
	}
	vm.methCache[k] = fn
	return fn
}

func (st *State) doCall(f *Frame, ins *Ins) {
	if ins.bi != nil {
		args := make([]Value, 0, len(ins.a))
		for _, s := range ins.a[1:] {
			args = append(args, st.get(f, s))
		}
		v, c := st.builtin(f, ins, ins.bi, args, ins.com)
		if c == ctlDone {
			st.setDst(f, ins, v)
		}
		return
	}
	fnv, args := st.callTarget(f, ins)
	if fnv == nil {
		return
	}
	st.callValue(fnv, args, retNormal, ins.dst)
}

// callValue calls fnv. It returns false if the thread blocked and must retry.
// For ret == retNormal the caller's pc is advanced on completion.
func (st *State) callValue(fnv Value, args []Value, ret int, dst int32) bool {
	vm := st.vm
	cl, ok := fnv.(*Closure)
	if !ok {
		if p, ok := fnv.(Poison); ok {
			vm.unsupported("poison: %s", p.msg)
		}
		vm.unsupported("call of %T", fnv)
	}
	finish := func(v Value) {
		if ret == retNormal {
			f := st.top()
			if dst >= 0 {
				f.regs[dst] = v
			}
			f.pc++
		} else {
			st.afterReturn(ret, v)
		}
	}
	if cl == nil {
		st.rtPanic("invalid memory address or nil pointer dereference")
		return true
	}
	if cl.bi != nil {
		f := st.top()
		v, c := st.builtin(f, nil, cl.bi, args, nil)
		if c == ctlDone {
			finish(v)
		}
		return c != ctlRetry
	}
	fn := cl.fn
	key, h := vm.lookupHandler(fn)
	for r := st.redir; r != nil; r = r.prev {
		if r.key == key {
			if r.fn == nil {
				break
			}
			if r.repo && !st.top().fi.repo {
				break
			}
			// the redirect target calls the original through sym.Orig
			if st.inRedirect(r.fn.fn) {
				break
			}
			st.pushFrame(vm.info(r.fn.fn), args, r.fn.fv, ret, dst)
			return true
		}
	}
	if h != nil {
		v, c := h(st, fn, args)
		switch c {
		case ctlDone:
			finish(v)
			return true
		case ctlPushed:
			nf := st.top()
			nf.ret, nf.dst = ret, dst
			return true
		case ctlRetry:
			return false
		case ctlPanic:
			return true
		}
	}
	fi := vm.info(fn)
	if len(fi.blocks) == 0 {
		vm.unsupported("no body: %s", key)
	}
	st.pushFrame(fi, args, cl.fv, ret, dst)
	return true
}

// inRedirect reports whether the innermost frame belongs to the redirect target itself.
func (st *State) inRedirect(fn *ssa.Function) bool {
	t := st.th()
	f := t.frames[len(t.frames)-1]
	return f.fi.fn == fn
}

func (vm *VM) lookupHandler(fn *ssa.Function) (string, handler) {
	if k, ok := vm.hkeys()[fn]; ok {
		return k.key, k.h
	}
	key := fnKey(fn)
	h := handlers[key]
	if h == nil && strings.HasPrefix(key, HarnessPrefix+"sym.") {
		if h = symHandlers[key[len(HarnessPrefix+"sym."):]]; h == nil {
			h = nil
		}
	}
	if h == nil && fn.Name() == "init" && fn.Pkg != nil && fn == fn.Pkg.Func("init") {
		h = initHandler
	}
	vm.hkeys()[fn] = hkey{key, h}
	return key, h
}

type hkey struct {
	key string
	h   handler
}

// initHandler skips the initialisers of imported packages: they run on demand.
func initHandler(st *State, fn *ssa.Function, args []Value) (Value, ctl) {
	return nil, ctlDone
}

func (st *State) doReturn(v Value) {
	t := st.th()
	f := t.frames[len(t.frames)-1]
	t.frames = t.frames[:len(t.frames)-1]
	ret := f.ret
	if ret == retNormal {
		c := st.top()
		if f.dst >= 0 {
			if v == nil {
				v = Tuple{}
			}
			c.regs[f.dst] = v
		}
		c.pc++
		return
	}
	if ret == retCont {
		f.cont(st, v)
		return
	}
	st.afterReturn(ret, v)
}

func (st *State) afterReturn(ret int, v Value) {
	t := st.th()
	switch ret {
	case retDefer:
		return
	case retPanicDefer:
		if t.panic_ != nil && t.panic_.recovered {
			t.panic_ = nil
			t.mode = 2
			return
		}
		if t.panic_ == nil { // already recovered: running the remaining defers
			t.mode = 2
			return
		}
		t.mode = 1
	case retCatchExit:
		// normal completion of the closure: no exit
		f := st.top()
		ins := f.fi.blocks[f.block].ins[f.pc]
		st.setDst(f, ins, Tuple{st.vm.C.False, st.vm.C.Const(0, 64)})
	case retHost:
		st.top().regs[0] = v
	case retThread:
		st.threadDone()
	case retInit:
	default:
		panic(fmt.Sprintf("afterReturn %d", ret))
	}
}

// finishRecover runs the remaining deferred calls of a recovered frame and returns from it.
func (st *State) finishRecover() {
	f := st.top()
	t := st.th()
	t.mode = 0
	if d := f.defers; d != nil {
		st.undo = &undoRec{defers: d, mode: 2}
		f.defers = d.prev
		if !st.callValue(d.fn, d.args, retPanicDefer, -1) {
			f.defers = d
			t.mode = 2
		}
		return
	}
	if rb := f.fi.fn.Recover; rb != nil {
		f.prev = f.block
		f.block = rb.Index
		f.pc = 0
		return
	}
	res := f.fi.fn.Signature.Results()
	var v Value
	switch res.Len() {
	case 0:
	case 1:
		v = st.vm.zero(res.At(0).Type())
	default:
		v = st.vm.zero(res)
	}
	st.doReturn(v)
}

func (st *State) startPanic(v Iface, rt string) {
	t := st.th()
	t.panic_ = &panicRec{val: v, prev: t.panic_, rt: rt}
	t.panic_.stack = st.stack()
	t.mode = 1
}

func (st *State) panicText(p *panicRec) string {
	if p.rt != "" {
		return p.rt
	}
	i := p.val.(Iface)
	switch x := i.v.(type) {
	case *Str:
		return st.strModel(x, st.model)
	}
	if i.t == nil {
		return "nil"
	}
	return "value of type " + i.t.String()
}

// unwind performs one step: it runs one deferred call of the top frame or pops the frame.
func (st *State) unwind() {
	t := st.th()
	t.mode = 0
	f := st.top()
	if d := f.defers; d != nil {
		st.undo = &undoRec{defers: d, mode: 1}
		f.defers = d.prev
		if !st.callValue(d.fn, d.args, retPanicDefer, -1) {
			f.defers = d
			t.mode = 1
		}
		return
	}
	switch f.ret {
	case retThread:
		txt := st.panicText(t.panic_)
		where := ""
		for _, l := range t.panic_.stack {
			if strings.Contains(l, RepoPrefix) && !strings.Contains(l, HarnessPrefix) {
				where = " in " + strings.Fields(l)[0]
				break
			}
		}
		n := len(st.vm.Res.Viol)
		st.violation("panic", txt+where, nil)
		if v := st.vm.Res.Viol; len(v) > n {
			v[len(v)-1].Stack = t.panic_.stack
		}
		st.end("violation")
		return
	case retInit:
		if st.vm.Debug {
			fmt.Println("panic in init of", st.initPkg, st.panicText(t.panic_))
		}
		t.panic_ = nil
		t.frames = t.frames[:len(t.frames)-1]
		return
	}
	t.frames = t.frames[:len(t.frames)-1]
	if len(t.frames) == 0 {
		panic("unwind: no frames")
	}
	t.mode = 1
}

// exitProcess unwinds to the innermost CatchExit; without one the path ends.
func (st *State) exitProcess(code *term.Term) {
	for ti, t := range st.ths {
		for i := len(t.frames) - 1; i >= 0; i-- {
			if t.frames[i].ret == retCatchExit {
				t.frames = t.frames[:i]
				t.panic_ = nil
				for tj, o := range st.ths {
					if tj != ti && o.status != tDone && tj != 0 {
						o.status = tDone
						o.frames = nil
						st.live--
					}
				}
				t.status = tRun
				t.mode = 0
				st.needSched = false
				st.cur = ti
				f := st.top()
				ins := f.fi.blocks[f.block].ins[f.pc]
				st.setDst(f, ins, Tuple{st.vm.C.True, code})
				return
			}
		}
	}
	st.violation("exit", "process exit outside the harness's expectation", nil)
	st.end("violation")
}

// ---- builtins ----

func (st *State) builtin(f *Frame, ins *Ins, b *ssa.Builtin, args []Value, com *ssa.CallCommon) (Value, ctl) {
	vm := st.vm
	C := vm.C
	i64 := func(n int) *term.Term { return C.Const(uint64(n), 64) }
	for _, a := range args {
		if p, ok := a.(Poison); ok {
			vm.unsupported("poison: %s", p.msg)
		}
	}
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case *Str:
			return i64(x.Len()), ctlDone
		case *Slice:
			if x == nil {
				return i64(0), ctlDone
			}
			return i64(x.len), ctlDone
		case *MapRef:
			if x == nil {
				return i64(0), ctlDone
			}
			if st.race != nil {
				st.access(f, &Ptr{obj: x.obj}, false)
				if st.dead {
					return nil, ctlPanic
				}
			}
			return i64(len(st.load(x.obj).(*MapV).ents)), ctlDone
		case *ChanRef:
			if x == nil {
				return i64(0), ctlDone
			}
			return i64(len(st.load(x.obj).(*ChanV).buf)), ctlDone
		case *ArrV:
			return i64(x.n), ctlDone
		case *Ptr:
			return i64(st.loadPtr(x).(*ArrV).n), ctlDone
		}
	case "cap":
		switch x := args[0].(type) {
		case *Slice:
			if x == nil {
				return i64(0), ctlDone
			}
			return i64(x.cap), ctlDone
		case *ChanRef:
			if x == nil {
				return i64(0), ctlDone
			}
			return i64(st.load(x.obj).(*ChanV).cap), ctlDone
		case *ArrV:
			return i64(x.n), ctlDone
		}
	case "append":
		s, _ := args[0].(*Slice)
		var add []Value
		switch y := args[1].(type) {
		case *Slice:
			add = st.sliceVals(y)
		case *Str:
			for _, t := range vm.strBytes(y) {
				add = append(add, t)
			}
		}
		if len(add) == 0 {
			return s, ctlDone
		}
		et := b.Type().(*types.Signature).Params().At(0).Type().Underlying().(*types.Slice).Elem()
		return st.appendVals(s, add, vm.zero(et), f), ctlDone
	case "copy":
		d, _ := args[0].(*Slice)
		var src []Value
		switch y := args[1].(type) {
		case *Slice:
			src = st.sliceVals(y)
		case *Str:
			for _, t := range vm.strBytes(y) {
				src = append(src, t)
			}
		}
		n := 0
		if d != nil {
			n = d.len
		}
		if len(src) < n {
			n = len(src)
		}
		if n > 0 {
			arr := st.loadPtr(d.arr).(*ArrV).cloneDeep()
			for i := 0; i < n; i++ {
				arr.mutSet(d.off+i, src[i], false)
			}
			st.storePtr(d.arr, arr)
		}
		return i64(n), ctlDone
	case "delete":
		m, _ := args[0].(*MapRef)
		if m != nil {
			if st.race != nil {
				st.access(f, &Ptr{obj: m.obj}, true)
				if st.dead {
					return nil, ctlPanic
				}
			}
			st.mapDelete(m, args[1])
		}
		return nil, ctlDone
	case "clear":
		switch x := args[0].(type) {
		case *MapRef:
			if x != nil {
				st.store(x.obj, &MapV{idx: map[string]int{}, conc: true})
			}
		case *Slice:
			if x != nil && x.len > 0 {
				arr := st.loadPtr(x.arr).(*ArrV).cloneDeep()
				for i := 0; i < x.len; i++ {
					arr.mutSet(x.off+i, arr.zero, false)
				}
				st.storePtr(x.arr, arr)
			}
		}
		return nil, ctlDone
	case "panic":
		st.startPanic(args[0].(Iface), "")
		return nil, ctlPanic
	case "recover":
		t := st.th()
		// valid only in the deferred function itself
		if f.ret == retPanicDefer && t.panic_ != nil && !t.panic_.recovered {
			t.panic_.recovered = true
			return t.panic_.val, ctlDone
		}
		return Iface{}, ctlDone
	case "print", "println":
		return nil, ctlDone
	case "close":
		return st.chanClose(args[0])
	case "min", "max":
		r := args[0]
		for _, y := range args[1:] {
			switch a := r.(type) {
			case *term.Term:
				bb := y.(*term.Term)
				if a.S == term.F64 {
					vm.unsupported("float min/max")
				}
				_, signed, _ := vm.intSort(b.Type().(*types.Signature).Params().At(0).Type())
				op := term.OUlt
				if signed {
					op = term.OSlt
				}
				lt := C.Bin(op, a, bb)
				if b.Name() == "min" {
					r = C.Ite(lt, a, bb)
				} else {
					r = C.Ite(lt, bb, a)
				}
			default:
				vm.unsupported("min/max of %T", r)
			}
		}
		return r, ctlDone
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*Ptr); ok && p == nil {
			st.rtPanic("value method called using nil pointer")
			return nil, ctlPanic
		}
		return args[0], ctlDone
	case "String": // unsafe.String(ptr, len)
		n := st.concInt(args[1])
		if n == 0 {
			return vm.emptyStr, ctlDone
		}
		p := args[0].(*Ptr)
		base, off := elemBase(p)
		arr := st.loadPtr(base).(*ArrV)
		bs := make([]*term.Term, n)
		for i := range bs {
			bs[i] = st.asTerm(arr.at(off + i))
		}
		return vm.strFromBytes(bs), ctlDone
	case "SliceData":
		s, _ := args[0].(*Slice)
		if s == nil || s.cap == 0 {
			return (*Ptr)(nil), ctlDone
		}
		return s.arr.sub(s.off), ctlDone
	case "StringData":
		s := args[0].(*Str)
		if s.Len() == 0 {
			return (*Ptr)(nil), ctlDone
		}
		sl := st.strToBytes(s)
		return sl.arr.sub(0), ctlDone
	case "Slice": // unsafe.Slice
		n := st.concInt(args[1])
		p, _ := args[0].(*Ptr)
		if p == nil {
			return (*Slice)(nil), ctlDone
		}
		base, off := elemBase(p)
		return &Slice{arr: base, off: off, len: n, cap: n}, ctlDone
	}
	vm.unsupported("builtin %s", b.Name())
	return nil, ctlDone
}

func elemBase(p *Ptr) (*Ptr, int) {
	n := len(p.path)
	if n == 0 {
		panic(unsupportedErr{"pointer is not into an array"})
	}
	return &Ptr{obj: p.obj, path: p.path[:n-1]}, int(p.path[n-1])
}

func (st *State) appendVals(s *Slice, add []Value, zero Value, f *Frame) *Slice {
	n := 0
	if s != nil {
		n = s.len
	}
	need := n + len(add)
	if s != nil && need <= s.cap {
		arr := st.loadPtr(s.arr).(*ArrV)
		if len(add) == 1 {
			if st.race != nil && f != nil {
				st.access(f, s.arr.sub(s.off+n), true)
			}
			arr = arr.set(s.off+n, add[0])
		} else {
			arr = arr.cloneDeep()
			for i, v := range add {
				arr.mutSet(s.off+n+i, v, false)
			}
		}
		st.storePtr(s.arr, arr)
		return &Slice{arr: s.arr, off: s.off, len: need, cap: s.cap}
	}
	c := 2 * n
	if c < need {
		c = need
	}
	if c < 4 {
		c = 4
	}
	a := newArr(c, zero)
	for i, v := range st.sliceVals(s) {
		a.mutSet(i, v, false)
	}
	for i, v := range add {
		a.mutSet(n+i, v, false)
	}
	p := st.alloc(a, false)
	return &Slice{arr: p, len: need, cap: c}
}
