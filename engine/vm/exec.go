package vm

import (
	"fmt"
	"go/token"
	"go/types"
	"math"

	"gosym/term"

	"golang.org/x/tools/go/ssa"
)

func (st *State) get(f *Frame, s int32) Value {
	if s >= 0 {
		v := f.regs[s]
		if p, ok := v.(Poison); ok && !st.isInit {
			st.vm.unsupported("poison: %s", p.msg)
		}
		return v
	}
	if s == math.MinInt32 {
		return nil
	}
	c := f.fi.consts[-s-1]
	switch x := c.(type) {
	case *globalRef:
		p := st.globalPtr(x.g)
		f.fi.consts[-s-1] = p
		return p
	case Poison:
		if !st.isInit {
			st.vm.unsupported("poison: %s", x.msg)
		}
	}
	return c
}

func (st *State) globalPtr(g *ssa.Global) *Ptr {
	vm := st.vm
	st.ensureInit(g.Pkg)
	id, ok := vm.globals[g]
	if !ok {
		vm.nextBase += 2
		id = vm.nextBase
		vm.globals[g] = id
		vm.base.set(id, vm.zero(g.Type().(*types.Pointer).Elem()))
	}
	return &Ptr{obj: id}
}

func (st *State) ensureInit(p *ssa.Package) {
	vm := st.vm
	if p == nil || vm.inited[p] {
		return
	}
	vm.inited[p] = true
	fn := p.Func("init")
	if fn == nil {
		return
	}
	ist := vm.newState()
	ist.isInit = true
	ist.initPkg = p
	ist.ths = []*Thread{{id: 0}}
	ist.nthreads = 1
	ist.live = 1
	vm.initDepth++
	defer func() { vm.initDepth-- }()
	ist.pushFrame(vm.info(fn), nil, nil, retInit, -1)
	ist.runInit()
}

func (st *State) runInit() {
	vm := st.vm
	for len(st.th().frames) > 0 {
		t := st.th()
		depth := len(t.frames)
		func() {
			defer func() {
				if r := recover(); r != nil {
					u, ok := r.(unsupportedErr)
					if !ok {
						if pe, ok2 := r.(pathEnd); ok2 {
							u = unsupportedErr{pe.why}
						} else {
							panic(r)
						}
					}
					if vm.Debug {
						fmt.Printf("init %s: %s at %v\n", st.initPkg.Pkg.Path(), u.msg, st.stack())
					}
					// give the faulting instruction a poison result; deeper frames are dropped if needed
					if len(t.frames) > depth {
						t.frames = t.frames[:depth]
					}
					f := st.top()
					ins := f.fi.blocks[f.block].ins[f.pc]
					switch ins.i.(type) {
					case *ssa.If, *ssa.Return, *ssa.RunDefers, *ssa.Panic, *ssa.Jump:
						// abandon this function
						st.popPoison(u.msg)
						return
					}
					if ins.dst >= 0 {
						f.regs[ins.dst] = poisonFor(ins.t, u.msg)
					} else if s, ok := ins.i.(*ssa.Store); ok {
						if p, ok := st.get(f, ins.a[0]).(*Ptr); ok && p != nil {
							_ = s
							func() {
								defer func() { recover() }()
								st.storePtr(p, Poison{u.msg})
							}()
						}
					}
					f.pc++
				}
			}()
			for n := 0; n < 4096 && len(t.frames) > 0; n++ {
				depth = len(t.frames)
				st.step()
			}
		}()
		if st.ins > 30_000_000 {
			if vm.Debug {
				fmt.Println("init too long", st.initPkg)
			}
			return
		}
	}
}

func poisonFor(t types.Type, msg string) Value {
	if tp, ok := t.(*types.Tuple); ok {
		r := make(Tuple, tp.Len())
		for i := range r {
			r[i] = Poison{msg}
		}
		return r
	}
	return Poison{msg}
}

func (st *State) popPoison(msg string) {
	t := st.th()
	f := t.frames[len(t.frames)-1]
	t.frames = t.frames[:len(t.frames)-1]
	t.panic_ = nil
	if len(t.frames) == 0 {
		return
	}
	c := st.top()
	if f.ret == retNormal {
		ins := c.fi.blocks[c.block].ins[c.pc]
		if ins.dst >= 0 {
			c.regs[ins.dst] = poisonFor(ins.t, msg)
		}
		c.pc++
	}
}

func (st *State) pushFrame(fi *FnInfo, args []Value, fv []Value, ret int, dst int32) *Frame {
	if len(fi.blocks) == 0 {
		st.vm.unsupported("no body: %s", fi.name)
	}
	t := st.th()
	if len(t.frames) > 400 {
		panic(pathEnd{"stack depth (recursion) " + fi.name})
	}
	f := &Frame{fi: fi, regs: make([]Value, fi.nreg), ret: ret, dst: dst}
	copy(f.regs, args)
	copy(f.regs[fi.fvBase:], fv)
	t.frames = append(t.frames, f)
	fi.hits++
	return f
}

// Run explores from the harness entry until the work list is empty or limits are hit.
func (vm *VM) Run(entry *ssa.Function, caseNo int) {
	vm.case_ = caseNo
	st := vm.newState()
	st.ths = []*Thread{{id: 0, vc: vclock{}}}
	st.nthreads = 1
	st.live = 1
	st.pushFrame(vm.info(entry), nil, nil, retThread, -1)
	vm.work = []*State{st}
	start := vm.Res.Paths
	for len(vm.work) > 0 {
		if vm.pastDeadline() {
			vm.Res.Cut["time budget"] += len(vm.work)
			return
		}
		if vm.Lim.MaxPaths > 0 && vm.Res.Paths-start >= vm.Lim.MaxPaths {
			vm.Res.Cut["path budget"] += len(vm.work)
			return
		}
		s := vm.work[len(vm.work)-1]
		vm.work = vm.work[:len(vm.work)-1]
		vm.runState(s)
	}
	vm.Res.Exhausted = true
}

func (vm *VM) runState(st *State) {
	ins0 := st.ins
	defer func() { vm.Res.Ins += st.ins - ins0 }()
	why := func() (why string) {
		defer func() {
			if r := recover(); r != nil {
				switch x := r.(type) {
				case unsupportedErr:
					why = "unsupported: " + x.msg
					if vm.Debug {
						fmt.Println("UNSUPPORTED", x.msg)
						for _, l := range st.stack() {
							fmt.Println("   ", l)
						}
					}
				case pathEnd:
					why = x.why
				default:
					if vm.Debug {
						fmt.Println("ENGINE PANIC", r)
						for _, l := range st.stack() {
							fmt.Println("   ", l)
						}
						panic(r)
					}
					why = fmt.Sprintf("unsupported: engine error %v", r)
				}
			}
		}()
		vm.curSt = st
		for !st.dead {
			for n := 0; n < 1024 && !st.dead; n++ {
				st.step()
			}
			if st.ins > vm.Lim.MaxPathIns {
				return "instruction budget of a path"
			}
			if vm.pastDeadline() {
				return "time budget"
			}
		}
		return st.cutWhy
	}()
	switch why {
	case "":
		vm.Res.Paths++
		for _, c := range st.cover {
			vm.Res.Cover[c]++
		}
		if st.nthreads > vm.Res.MaxThreads {
			vm.Res.MaxThreads = st.nthreads
		}
		n := vm.Res.Paths
		if n&(n-1) == 0 || vm.Lim.SampleEvery > 0 && n%vm.Lim.SampleEvery == 0 {
			if len(vm.Res.Samples) < 24 {
				s := &Sample{Log: st.logEntries(st.model), Obs: st.obsStrings(st.model), Case: vm.case_, Threads: st.nthreads}
				s.Sched = append(s.Sched, st.sched...)
				vm.Res.Samples = append(vm.Res.Samples, s)
			}
		}
	case "infeasible":
		vm.Res.Infeasible++
	case "violation":
		vm.Res.Paths++
	default:
		vm.Res.Cut[why]++
	}
}

func (st *State) end(why string) {
	st.dead = true
	st.cutWhy = why
}

func (st *State) setDst(f *Frame, ins *Ins, v Value) {
	if ins.dst >= 0 {
		f.regs[ins.dst] = v
	}
	f.pc++
}

func (st *State) step() {
	st.ins++
	st.choicePos = 0
	if st.needSched {
		st.reschedule()
		if !st.dead && len(st.choices) > 0 {
			st.choices = st.choices[:0]
		}
		return
	}
	if t := st.ths[st.cur]; t.mode != 0 {
		if t.mode == 1 {
			st.unwind()
		} else {
			st.finishRecover()
		}
		st.undo = nil
		if !st.dead && len(st.choices) > 0 {
			st.choices = st.choices[:0]
		}
		return
	}
	f := st.top()
	if f.host != nil {
		f.host(st, f)
		if !st.dead && len(st.choices) > 0 {
			st.choices = st.choices[:0]
		}
		return
	}
	ins := f.fi.blocks[f.block].ins[f.pc]
	st.exec(f, ins)
	if !st.dead && len(st.choices) > 0 {
		st.choices = st.choices[:0]
	}
}

func (st *State) jump(f *Frame, to int) {
	from := f.block
	if to <= from {
		if f.visits == nil {
			f.visits = make([]int32, len(f.fi.blocks))
		}
		f.visits[to]++
		lim := st.vm.Lim.MaxVisits
		if f.fi.harness {
			lim *= 64
		}
		if int(f.visits[to]) > lim && !st.isInit {
			if f.fi.harness {
				panic(pathEnd{"loop bound in harness"})
			}
			st.violation("hang", "loop in "+f.fi.name+" does not terminate within the loop bound", nil)
			st.end("violation")
			return
		}
	}
	f.prev = from
	f.block = to
	f.pc = 0
	b := f.fi.blocks[to]
	if b.nphi > 0 {
		// parallel phi evaluation
		pi := -1
		for i, p := range f.fi.fn.Blocks[to].Preds {
			if p.Index == from {
				pi = i
				break
			}
		}
		var tmp [8]Value
		vals := tmp[:0]
		for k := 0; k < b.nphi; k++ {
			s := b.ins[k].a[pi]
			if s >= 0 {
				vals = append(vals, f.regs[s])
			} else {
				vals = append(vals, st.get(f, s))
			}
		}
		for k := 0; k < b.nphi; k++ {
			f.regs[b.ins[k].dst] = vals[k]
		}
		f.pc = b.nphi
	}
}

func (st *State) asTerm(v Value) *term.Term {
	t, ok := v.(*term.Term)
	if !ok {
		if p, ok := v.(Poison); ok {
			st.vm.unsupported("poison: %s", p.msg)
		}
		st.vm.unsupported("scalar expected, got %T", v)
	}
	return t
}

func (st *State) rtPanic(msg string) {
	vm := st.vm
	t := vm.runtimeErrorType()
	st.startPanic(Iface{t: t, v: mkStr(msg)}, "runtime error: "+msg)
}

// runtimeErrorType is runtime.errorString (a string type with Error method).
func (vm *VM) runtimeErrorType() types.Type {
	for _, p := range vm.Prog.AllPackages() {
		if p.Pkg.Path() == "runtime" {
			if o := p.Pkg.Scope().Lookup("errorString"); o != nil {
				return o.Type()
			}
		}
	}
	return types.Typ[types.String]
}

func (st *State) exec(f *Frame, ins *Ins) {
	vm := st.vm
	switch x := ins.i.(type) {
	case *ssa.Jump:
		st.jump(f, f.fi.blocks[f.block].succs[0])
	case *ssa.If:
		c := st.asTerm(st.get(f, ins.a[0]))
		k := 1
		if st.branch(c) {
			k = 0
		}
		st.jump(f, f.fi.blocks[f.block].succs[k])
	case *ssa.Return:
		var v Value
		switch len(ins.a) {
		case 0:
		case 1:
			v = st.get(f, ins.a[0])
		default:
			tp := make(Tuple, len(ins.a))
			for i, s := range ins.a {
				tp[i] = st.get(f, s)
			}
			v = tp
		}
		st.doReturn(v)
	case *ssa.BinOp:
		a, b := st.get(f, ins.a[0]), st.get(f, ins.a[1])
		v, ok := st.binop(x, a, b)
		if !ok {
			return
		}
		st.setDst(f, ins, v)
	case *ssa.UnOp:
		st.unop(f, ins, x)
	case *ssa.Phi:
		// entry via jump handles phis
		vm.unsupported("stray phi")
	case *ssa.Call:
		st.doCall(f, ins)
	case *ssa.Defer:
		fn, args := st.callTarget(f, ins)
		if fn == nil {
			return
		}
		f.defers = &deferRec{f.defers, fn, args, ins}
		f.pc++
	case *ssa.Go:
		fn, args := st.callTarget(f, ins)
		if fn == nil {
			return
		}
		st.spawn(fn, args, "go@"+f.fi.name)
		f.pc++
	case *ssa.RunDefers:
		if f.defers == nil {
			f.pc++
			return
		}
		d := f.defers
		st.undo = &undoRec{defers: d}
		f.defers = d.prev
		if !st.callValue(d.fn, d.args, retDefer, -1) {
			f.defers = d // retry (blocked)
		}
		st.undo = nil
	case *ssa.Panic:
		v := st.get(f, ins.a[0]).(Iface)
		st.startPanic(v, "")
	case *ssa.Store:
		a := st.get(f, ins.a[0])
		v := st.get(f, ins.a[1])
		switch p := a.(type) {
		case *Ptr:
			if p == nil {
				st.rtPanic("invalid memory address or nil pointer dereference")
				return
			}
			if st.race != nil {
				st.access(f, p, true)
				if st.dead {
					return
				}
			}
			st.storePtr(p, v)
		case *SymPtr:
			i := int(st.concretize(p.idx))
			q := p.arr.sub(p.off + i)
			if st.race != nil {
				st.access(f, q, true)
				if st.dead {
					return
				}
			}
			st.storePtr(q, v)
		case Poison:
			if !st.isInit {
				vm.unsupported("poison: %s", p.msg)
			}
		default:
			vm.unsupported("store to %T", a)
		}
		f.pc++
	case *ssa.Alloc:
		t := x.Type().Underlying().(*types.Pointer).Elem()
		p := st.alloc(vm.zero(t), !x.Heap)
		st.setDst(f, ins, p)
	case *ssa.FieldAddr:
		switch p := st.get(f, ins.a[0]).(type) {
		case *Ptr:
			if p == nil {
				st.rtPanic("invalid memory address or nil pointer dereference")
				return
			}
			st.setDst(f, ins, p.sub(x.Field))
		case *SymPtr:
			i := int(st.concretize(p.idx))
			st.setDst(f, ins, p.arr.sub(p.off+i).sub(x.Field))
		default:
			vm.unsupported("FieldAddr of %T", p)
		}
	case *ssa.Field:
		s, ok := st.get(f, ins.a[0]).(*StructV)
		if !ok {
			vm.unsupported("Field of %T", st.get(f, ins.a[0]))
		}
		st.setDst(f, ins, s.f[x.Field])
	case *ssa.IndexAddr:
		st.indexAddr(f, ins, x)
	case *ssa.Index:
		st.index(f, ins, x)
	case *ssa.Extract:
		tp, ok := st.get(f, ins.a[0]).(Tuple)
		if !ok {
			vm.unsupported("Extract from %T", st.get(f, ins.a[0]))
		}
		st.setDst(f, ins, tp[x.Index])
	case *ssa.MakeInterface:
		st.setDst(f, ins, Iface{t: x.X.Type(), v: st.get(f, ins.a[0])})
	case *ssa.ChangeInterface, *ssa.ChangeType:
		st.setDst(f, ins, st.get(f, ins.a[0]))
	case *ssa.Convert:
		v := st.convert(x.X.Type(), x.Type(), st.get(f, ins.a[0]))
		st.setDst(f, ins, v)
	case *ssa.MultiConvert:
		v := st.convert(x.X.Type(), x.Type(), st.get(f, ins.a[0]))
		st.setDst(f, ins, v)
	case *ssa.SliceToArrayPointer:
		s := st.get(f, ins.a[0]).(*Slice)
		n := int(x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if s == nil {
			if n == 0 {
				st.setDst(f, ins, (*Ptr)(nil))
				return
			}
			st.rtPanic("cannot convert slice to array pointer")
			return
		}
		if s.len < n {
			st.rtPanic("cannot convert slice to array pointer")
			return
		}
		arr := st.loadPtr(s.arr).(*ArrV)
		if s.off == 0 && arr.n == n {
			st.setDst(f, ins, s.arr)
			return
		}
		vm.unsupported("SliceToArrayPointer with aliasing")
	case *ssa.MakeClosure:
		fn := x.Fn.(*ssa.Function)
		fv := make([]Value, len(ins.a)-1)
		for i := range fv {
			fv[i] = st.get(f, ins.a[i+1])
		}
		st.setDst(f, ins, &Closure{fn: fn, fv: fv})
	case *ssa.MakeSlice:
		et := x.Type().Underlying().(*types.Slice).Elem()
		n := st.concInt(st.get(f, ins.a[0]))
		c := st.concInt(st.get(f, ins.a[1]))
		if n < 0 || c < n || c > 1<<22 {
			if c > 1<<22 {
				vm.unsupported("huge make")
			}
			st.rtPanic("makeslice: len out of range")
			return
		}
		p := st.alloc(newArr(c, vm.zero(et)), false)
		st.setDst(f, ins, &Slice{arr: p, off: 0, len: n, cap: c})
	case *ssa.Slice:
		st.slice3(f, ins, x)
	case *ssa.MakeMap:
		p := st.alloc(&MapV{idx: map[string]int{}, conc: true}, false)
		st.setDst(f, ins, &MapRef{obj: p.obj})
	case *ssa.MakeChan:
		n := st.concInt(st.get(f, ins.a[0]))
		p := st.alloc(&ChanV{cap: n}, false)
		st.setDst(f, ins, &ChanRef{obj: p.obj})
	case *ssa.MapUpdate:
		m, ok := st.get(f, ins.a[0]).(*MapRef)
		if !ok {
			vm.unsupported("MapUpdate of %T", st.get(f, ins.a[0]))
		}
		if m == nil {
			st.startPanic(st.mkError("assignment to entry in nil map"), "assignment to entry in nil map")
			return
		}
		k, v := st.get(f, ins.a[1]), st.get(f, ins.a[2])
		if st.race != nil {
			st.access(f, &Ptr{obj: m.obj}, true)
			if st.dead {
				return
			}
		}
		st.mapSet(m, k, v)
		f.pc++
	case *ssa.Lookup:
		if isString(x.X.Type()) {
			s := st.get(f, ins.a[0]).(*Str)
			st.strIndex(f, ins, s, st.asTerm(st.get(f, ins.a[1])), x.Index.Type())
			return
		}
		mt := x.X.Type().Underlying().(*types.Map)
		m, ok := st.get(f, ins.a[0]).(*MapRef)
		if f.fi.repo && m != nil && x.X.Type().String() == "net/http.Header" {
			if !f.indexed {
				for r := st.redir; r != nil; r = r.prev {
					if r.key == "index net/http.Header" {
						f.indexed = true
						st.pushFrame(vm.info(r.fn.fn), []Value{m, st.get(f, ins.a[1])}, r.fn.fv, retInit, -1)
						return
					}
				}
			}
			f.indexed = false
		}
		if !ok {
			vm.unsupported("Lookup in %T", st.get(f, ins.a[0]))
		}
		if m != nil && st.race != nil {
			st.access(f, &Ptr{obj: m.obj}, false)
			if st.dead {
				return
			}
		}
		v, found := st.mapGet(m, st.get(f, ins.a[1]))
		if !found {
			v = vm.zero(mt.Elem())
		}
		if x.CommaOk {
			st.setDst(f, ins, Tuple{v, vm.C.Bool(found)})
		} else {
			st.setDst(f, ins, v)
		}
	case *ssa.Range:
		switch m := st.get(f, ins.a[0]).(type) {
		case *MapRef:
			it := &IterV{m: m, order: st.maporder}
			if m != nil {
				if st.race != nil {
					st.access(f, &Ptr{obj: m.obj}, false)
					if st.dead {
						return
					}
				}
				for _, e := range st.load(m.obj).(*MapV).ents {
					it.keys = append(it.keys, e.k)
				}
			}
			p := st.alloc(it, true)
			st.setDst(f, ins, &MapIter{obj: p.obj})
		case *Str:
			p := st.alloc(&IterV{str: m}, true)
			st.setDst(f, ins, &MapIter{obj: p.obj})
		default:
			vm.unsupported("range over %T", m)
		}
	case *ssa.Next:
		st.next_(f, ins, x)
	case *ssa.TypeAssert:
		st.typeAssert(f, ins, x)
	case *ssa.Send:
		st.chanSend(f, ins)
	case *ssa.Select:
		st.select_(f, ins, x)
	default:
		vm.unsupported("instruction %T", ins.i)
	}
}

// ---- operators ----

func (st *State) binop(x *ssa.BinOp, a, b Value) (Value, bool) {
	vm := st.vm
	C := vm.C
	switch x.Op {
	case token.EQL, token.NEQ:
		r := st.eq(a, b)
		if r == nil {
			return nil, false
		}
		if x.Op == token.NEQ {
			r = C.Not(r)
		}
		return r, true
	}
	if sa, ok := a.(*Str); ok {
		sb := b.(*Str)
		switch x.Op {
		case token.ADD:
			return vm.strConcat(sa, sb), true
		case token.LSS:
			return vm.strLess(sa, sb), true
		case token.GTR:
			return vm.strLess(sb, sa), true
		case token.LEQ:
			return C.Not(vm.strLess(sb, sa)), true
		case token.GEQ:
			return C.Not(vm.strLess(sa, sb)), true
		}
		vm.unsupported("string op %s", x.Op)
	}
	ta, tb := st.asTerm(a), st.asTerm(b)
	if ta.S == term.F64 {
		switch x.Op {
		case token.ADD:
			return C.Bin(term.OFAdd, ta, tb), true
		case token.SUB:
			return C.Bin(term.OFSub, ta, tb), true
		case token.MUL:
			return C.Bin(term.OFMul, ta, tb), true
		case token.QUO:
			return C.Bin(term.OFDiv, ta, tb), true
		case token.LSS:
			return C.Bin(term.OFLt, ta, tb), true
		case token.LEQ:
			return C.Bin(term.OFLe, ta, tb), true
		case token.GTR:
			return C.Bin(term.OFLt, tb, ta), true
		case token.GEQ:
			return C.Bin(term.OFLe, tb, ta), true
		}
		vm.unsupported("float op %s", x.Op)
	}
	if ta.S == term.Bool {
		switch x.Op {
		case token.AND, token.LAND:
			return C.And(ta, tb), true
		case token.OR, token.LOR:
			return C.Or(ta, tb), true
		case token.XOR:
			return C.Not(C.Eq(ta, tb)), true
		}
		vm.unsupported("bool op %s", x.Op)
	}
	_, signed, _ := vm.intSort(x.X.Type())
	switch x.Op {
	case token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.XOR:
		return C.Bin(binOps[x.Op], ta, tb), true
	case token.AND_NOT:
		return C.Bin(term.OBAnd, ta, C.Un(term.OBNot, tb)), true
	case token.QUO, token.REM:
		if st.branch(C.Eq(tb, C.Const(0, tb.S))) {
			st.rtPanic("integer divide by zero")
			return nil, false
		}
		op := term.OUDiv
		switch {
		case signed && x.Op == token.QUO:
			op = term.OSDiv
		case signed:
			op = term.OSRem
		case x.Op == token.REM:
			op = term.OURem
		}
		return C.Bin(op, ta, tb), true
	case token.SHL, token.SHR:
		_, bs, _ := vm.intSort(x.Y.Type())
		if bs {
			if st.branch(C.Bin(term.OSlt, tb, C.Const(0, tb.S))) {
				st.rtPanic("negative shift amount")
				return nil, false
			}
		}
		w := ta.S
		big := C.Bool(false)
		cnt := tb
		if tb.S > w {
			big = C.Not(C.Bin(term.OUlt, tb, C.Const(uint64(w), tb.S)))
			cnt = C.Conv(tb, w, false)
		} else if tb.S < w {
			cnt = C.Conv(tb, w, false)
		}
		if tb.S <= w && uint64(w) <= (uint64(1)<<uint(min(int(tb.S), 63)))-1 {
			big = C.Not(C.Bin(term.OUlt, cnt, C.Const(uint64(w), w)))
		}
		var r, over *term.Term
		switch {
		case x.Op == token.SHL:
			r = C.Bin(term.OShl, ta, cnt)
			over = C.Const(0, w)
		case signed:
			r = C.Bin(term.OAShr, ta, cnt)
			over = C.Ite(C.Bin(term.OSlt, ta, C.Const(0, w)), C.Const(^uint64(0), w), C.Const(0, w))
		default:
			r = C.Bin(term.OLShr, ta, cnt)
			over = C.Const(0, w)
		}
		return C.Ite(big, over, r), true
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		lt, le := term.OUlt, term.OUle
		if signed {
			lt, le = term.OSlt, term.OSle
		}
		switch x.Op {
		case token.LSS:
			return C.Bin(lt, ta, tb), true
		case token.LEQ:
			return C.Bin(le, ta, tb), true
		case token.GTR:
			return C.Bin(lt, tb, ta), true
		default:
			return C.Bin(le, tb, ta), true
		}
	}
	vm.unsupported("op %s", x.Op)
	return nil, false
}

// eq compares two values; nil result means a panic was started.
func (st *State) eq(a, b Value) *term.Term {
	if x, ok := a.(Iface); ok {
		if y, ok := b.(Iface); ok && x.t != nil && y.t != nil && identical(x.t, y.t) {
			if !types.Comparable(x.t) {
				st.rtPanic("comparing uncomparable type " + x.t.String())
				return nil
			}
		}
	}
	return st.vm.valEq(a, b)
}

func (st *State) unop(f *Frame, ins *Ins, x *ssa.UnOp) {
	vm := st.vm
	v := st.get(f, ins.a[0])
	switch x.Op {
	case token.MUL:
		switch p := v.(type) {
		case *Ptr:
			if p == nil {
				st.rtPanic("invalid memory address or nil pointer dereference")
				return
			}
			if st.race != nil {
				st.access(f, p, false)
				if st.dead {
					return
				}
			}
			r := st.loadPtr(p)
			if po, ok := r.(Poison); ok && !st.isInit {
				vm.unsupported("poison: %s", po.msg)
			}
			st.setDst(f, ins, r)
		case *SymPtr:
			st.setDst(f, ins, st.loadSym(p))
		default:
			if p, ok := v.(Poison); ok {
				vm.unsupported("poison: %s", p.msg)
			}
			vm.unsupported("deref %T", v)
		}
	case token.NOT:
		st.setDst(f, ins, vm.C.Not(st.asTerm(v)))
	case token.SUB:
		t := st.asTerm(v)
		if t.S == term.F64 {
			if t.IsConst() {
				st.setDst(f, ins, vm.C.Float(-math.Float64frombits(t.K)))
			} else {
				st.setDst(f, ins, vm.C.Un(term.OFNeg, t))
			}
			return
		}
		st.setDst(f, ins, vm.C.Un(term.ONeg, t))
	case token.XOR:
		st.setDst(f, ins, vm.C.Un(term.OBNot, st.asTerm(v)))
	case token.ARROW:
		st.chanRecv(f, ins, x)
	default:
		vm.unsupported("unop %s", x.Op)
	}
}

func (st *State) scalarLeaf(v Value) bool {
	_, ok := v.(*term.Term)
	return ok
}

func (st *State) loadSym(p *SymPtr) Value {
	arr := st.loadPtr(p.arr).(*ArrV)
	return st.muxArr(p.idx, p.n, func(i int) Value { return arr.at(p.off + i) })
}

// muxArr selects element idx of n scalar elements.
func (st *State) muxArr(idx *term.Term, n int, at func(int) Value) Value {
	C := st.vm.C
	ok := n <= 1024
	for i := 0; ok && i < n; i++ {
		if !st.scalarLeaf(at(i)) {
			ok = false
		}
	}
	if !ok {
		i := int(st.concretize(idx))
		return at(i)
	}
	if t := st.muxRuns(idx, n, at); t != nil {
		return t
	}
	nb := 0
	for 1<<uint(nb) < n {
		nb++
	}
	if idx.S < term.Sort(nb) {
		nb = int(idx.S)
	}
	var rec func(lo, bit int) *term.Term
	bits := make([]*term.Term, nb)
	for b := range bits {
		bits[b] = C.Eq(C.Extract(idx, b, b), C.Const(1, 1))
	}
	rec = func(lo, bit int) *term.Term {
		if lo >= n {
			return at(0).(*term.Term)
		}
		if bit < 0 {
			return at(lo).(*term.Term)
		}
		l := rec(lo, bit-1)
		hi := lo + 1<<uint(bit)
		if hi >= n {
			return l
		}
		h := rec(hi, bit-1)
		return C.Ite(bits[bit], h, l)
	}
	return rec(0, nb-1)
}

// muxRuns encodes a constant table that consists of few constant or affine runs.
func (st *State) muxRuns(idx *term.Term, n int, at func(int) Value) *term.Term {
	C := st.vm.C
	if n < 12 {
		return nil
	}
	v := make([]uint64, n)
	var s term.Sort
	for i := range v {
		t := at(i).(*term.Term)
		if !t.IsConst() || t.S < 2 || t.S > 64 || i > 0 && t.S != s {
			return nil
		}
		s = t.S
		v[i] = t.K
	}
	mask := ^uint64(0) >> (64 - uint(s))
	type run struct {
		lo     int
		affine bool
		k      uint64
	}
	var runs []run
	for i := 0; i < n; {
		j, k := i, i
		for j < n && v[j] == v[i] {
			j++
		}
		for k < n && (v[k]-uint64(k))&mask == (v[i]-uint64(i))&mask {
			k++
		}
		if j >= k {
			runs = append(runs, run{i, false, v[i]})
			i = j
		} else {
			runs = append(runs, run{i, true, (v[i] - uint64(i)) & mask})
			i = k
		}
	}
	if len(runs) > n/4 {
		return nil
	}
	w := C.Conv(idx, 64, false)
	x := C.Conv(idx, s, false)
	val := func(r run) *term.Term {
		if r.affine {
			return C.Bin(term.OAdd, x, C.Const(r.k, s))
		}
		return C.Const(r.k, s)
	}
	res := val(runs[len(runs)-1])
	for i := len(runs) - 2; i >= 0; i-- {
		res = C.Ite(C.Bin(term.OUlt, w, C.Const(uint64(runs[i+1].lo), 64)), val(runs[i]), res)
	}
	return res
}

// inRange checks 0 <= idx < n, starting a panic otherwise.
func (st *State) inRange(idx *term.Term, signed bool, n int) bool {
	C := st.vm.C
	if idx.IsConst() {
		var ok bool
		if signed {
			v := idx.SVal()
			ok = v >= 0 && v < int64(n)
		} else {
			ok = idx.K < uint64(n)
		}
		if !ok {
			st.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", idx.SVal(), n))
		}
		return ok
	}
	i64 := C.Conv(idx, 64, signed)
	if !st.branch(C.Bin(term.OUlt, i64, C.Const(uint64(n), 64))) {
		st.rtPanic(fmt.Sprintf("index out of range with length %d", n))
		return false
	}
	return true
}

func (st *State) indexAddr(f *Frame, ins *Ins, x *ssa.IndexAddr) {
	vm := st.vm
	base := st.get(f, ins.a[0])
	idx := st.asTerm(st.get(f, ins.a[1]))
	_, signed, _ := vm.intSort(x.Index.Type())
	var arr *Ptr
	off, n := 0, 0
	switch b := base.(type) {
	case *Slice:
		if b != nil {
			arr, off, n = b.arr, b.off, b.len
		}
	case *Ptr:
		if b == nil {
			st.rtPanic("invalid memory address or nil pointer dereference")
			return
		}
		arr = b
		n = int(x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
	case Poison:
		vm.unsupported("poison: %s", b.msg)
	default:
		vm.unsupported("IndexAddr of %T", base)
	}
	if !st.inRange(idx, signed, n) {
		return
	}
	if idx.IsConst() {
		st.setDst(f, ins, arr.sub(off+int(idx.K)))
		return
	}
	st.setDst(f, ins, &SymPtr{arr: arr, off: off, n: n, idx: idx})
}

func (st *State) index(f *Frame, ins *Ins, x *ssa.Index) {
	vm := st.vm
	base := st.get(f, ins.a[0])
	idx := st.asTerm(st.get(f, ins.a[1]))
	switch b := base.(type) {
	case *Str:
		st.strIndex(f, ins, b, idx, x.Index.Type())
	case *ArrV:
		_, signed, _ := vm.intSort(x.Index.Type())
		if !st.inRange(idx, signed, b.n) {
			return
		}
		if idx.IsConst() {
			st.setDst(f, ins, b.at(int(idx.K)))
			return
		}
		st.setDst(f, ins, st.muxArr(idx, b.n, b.at))
	default:
		vm.unsupported("Index of %T", base)
	}
}

func (st *State) strIndex(f *Frame, ins *Ins, s *Str, idx *term.Term, it types.Type) {
	vm := st.vm
	_, signed, _ := vm.intSort(it)
	if !st.inRange(idx, signed, s.Len()) {
		return
	}
	if idx.IsConst() {
		st.setDst(f, ins, vm.strAt(s, int(idx.K)))
		return
	}
	st.setDst(f, ins, st.muxArr(idx, s.Len(), func(i int) Value { return vm.strAt(s, i) }))
}

func (st *State) slice3(f *Frame, ins *Ins, x *ssa.Slice) {
	vm := st.vm
	base := st.get(f, ins.a[0])
	part := func(k int, def int) int {
		if k >= len(ins.a) || ins.a[k] == math.MinInt32 {
			return def
		}
		v := st.get(f, ins.a[k])
		if v == nil {
			return def
		}
		return st.concInt(v)
	}
	// Operands order: X, Low, High, Max (nil ones omitted by Operands? they are kept as nil)
	switch b := base.(type) {
	case *Str:
		lo := part(1, 0)
		hi := part(2, b.Len())
		if hi < 0 || hi > b.Len() || lo < 0 || lo > hi {
			st.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", lo, hi, b.Len()))
			return
		}
		st.setDst(f, ins, vm.strSlice(b, lo, hi))
	case *Slice:
		l, c := 0, 0
		if b != nil {
			l, c = b.len, b.cap
		}
		lo := part(1, 0)
		hi := part(2, l)
		mx := part(3, c)
		if mx < 0 || mx > c || hi < 0 || hi > mx || lo < 0 || lo > hi {
			st.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", lo, hi, mx, c))
			return
		}
		if b == nil {
			st.setDst(f, ins, (*Slice)(nil))
			return
		}
		st.setDst(f, ins, &Slice{arr: b.arr, off: b.off + lo, len: hi - lo, cap: mx - lo})
	case *Ptr:
		if b == nil {
			st.rtPanic("invalid memory address or nil pointer dereference")
			return
		}
		n := int(x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		lo := part(1, 0)
		hi := part(2, n)
		mx := part(3, n)
		if mx < 0 || mx > n || hi < 0 || hi > mx || lo < 0 || lo > hi {
			st.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d:%d]", lo, hi, mx))
			return
		}
		st.setDst(f, ins, &Slice{arr: b, off: lo, len: hi - lo, cap: mx - lo})
	default:
		vm.unsupported("slice of %T", base)
	}
}

func (st *State) sliceAt(s *Slice, i int) Value {
	return st.loadPtr(s.arr).(*ArrV).at(s.off + i)
}

// sliceVals returns the elements of s.
func (st *State) sliceVals(s *Slice) []Value {
	if s == nil || s.len == 0 {
		return nil
	}
	a := st.loadPtr(s.arr).(*ArrV)
	out := make([]Value, s.len)
	for i := range out {
		out[i] = a.at(s.off + i)
	}
	return out
}

func (st *State) bytesToStr(s *Slice) *Str {
	vals := st.sliceVals(s)
	b := make([]*term.Term, len(vals))
	for i, v := range vals {
		b[i] = st.asTerm(v)
	}
	return st.vm.strFromBytes(b)
}

func (st *State) newSlice(vals []Value, zero Value) *Slice {
	a := newArr(len(vals), zero)
	for i, v := range vals {
		a.mutSet(i, v, false)
	}
	p := st.alloc(a, false)
	return &Slice{arr: p, len: len(vals), cap: len(vals)}
}

func (st *State) strToBytes(s *Str) *Slice {
	bs := st.vm.strBytes(s)
	vals := make([]Value, len(bs))
	for i, b := range bs {
		vals[i] = b
	}
	return st.newSlice(vals, st.vm.byteC[0])
}

func (st *State) convert(from, to types.Type, v Value) Value {
	vm := st.vm
	C := vm.C
	fu, tu := from.Underlying(), to.Underlying()
	if p, ok := v.(Poison); ok {
		return p
	}
	switch t := tu.(type) {
	case *types.Basic:
		switch {
		case t.Info()&types.IsString != 0:
			switch x := v.(type) {
			case *Str:
				return x
			case *Slice:
				if x == nil {
					return vm.emptyStr
				}
				et := fu.(*types.Slice).Elem().Underlying().(*types.Basic)
				if et.Kind() == types.Uint8 || et.Kind() == types.Byte {
					return st.bytesToStr(x)
				}
				r := vm.emptyStr
				for _, e := range st.sliceVals(x) {
					r = vm.strConcat(r, st.runeStr(st.asTerm(e)))
				}
				return r
			case *term.Term:
				return st.runeStr(C.Conv(x, 32, true))
			}
		case t.Info()&types.IsFloat != 0:
			x := st.asTerm(v)
			if x.S == term.F64 {
				if t.Kind() == types.Float32 {
					if !x.IsConst() {
						vm.unsupported("float32 conversion")
					}
					return C.Float(float64(float32(math.Float64frombits(x.K))))
				}
				return x
			}
			_, signed, _ := vm.intSort(from)
			return C.FromInt(x, signed)
		case t.Kind() == types.UnsafePointer:
			if x, ok := v.(*Ptr); ok {
				return x
			}
			vm.unsupported("unsafe.Pointer(%T)", v)
		default:
			s, tsigned, ok := vm.intSort(to)
			if ok {
				x, isT := v.(*term.Term)
				if !isT {
					vm.unsupported("convert %T to %s", v, to)
				}
				if x.S == term.F64 {
					if !tsigned && x.IsConst() {
						f := math.Float64frombits(x.K)
						return C.Const(uint64(f), s)
					}
					return C.Conv(C.ToInt(x, 64), s, true)
				}
				_, signed, _ := vm.intSort(from)
				return C.Conv(x, s, signed)
			}
		}
	case *types.Slice:
		if x, ok := v.(*Str); ok {
			et := t.Elem().Underlying().(*types.Basic)
			if et.Kind() == types.Uint8 {
				return st.strToBytes(x)
			}
			var vals []Value
			for i := 0; i < x.Len(); {
				r, w := st.decodeRune(x, i)
				vals = append(vals, r)
				i += w
			}
			return st.newSlice(vals, C.Const(0, 32))
		}
		return v
	case *types.Pointer:
		if x, ok := v.(*Ptr); ok {
			return x
		}
	case *types.Array:
		if x, ok := v.(*Slice); ok {
			n := int(t.Len())
			if x == nil && n == 0 {
				return vm.zero(to)
			}
			if x == nil || x.len < n {
				vm.unsupported("slice to array: short")
			}
			a := newArr(n, vm.zero(t.Elem()))
			for i := 0; i < n; i++ {
				a.mutSet(i, st.sliceAt(x, i), false)
			}
			return a
		}
	}
	if types.Identical(fu, tu) {
		return v
	}
	vm.unsupported("convert %s to %s", from, to)
	return nil
}

// decodeRune decodes one rune of s at i (forking on the encoding class).
func (st *State) decodeRune(s *Str, i int) (*term.Term, int) {
	C := st.vm.C
	b0 := st.vm.strAt(s, i)
	k := func(v uint64) *term.Term { return C.Const(v, 8) }
	ult := func(a, b *term.Term) *term.Term { return C.Bin(term.OUlt, a, b) }
	if st.branch(ult(b0, k(0x80))) {
		return C.Conv(b0, 32, false), 1
	}
	bad := C.Const(0xFFFD, 32)
	in := func(b *term.Term, lo, hi uint64) bool {
		return st.branch(C.And(C.Not(ult(b, k(lo))), C.Not(ult(k(hi), b))))
	}
	bits := func(b *term.Term, m uint64) *term.Term {
		return C.Conv(C.Bin(term.OBAnd, b, k(m)), 32, false)
	}
	shl := func(a *term.Term, n uint64) *term.Term { return C.Bin(term.OShl, a, C.Const(n, 32)) }
	or := func(a, b *term.Term) *term.Term { return C.Bin(term.OBOr, a, b) }
	rem := s.Len() - i
	at := func(j int) *term.Term { return st.vm.strAt(s, i+j) }
	switch {
	case in(b0, 0xC2, 0xDF):
		if rem < 2 || !in(at(1), 0x80, 0xBF) {
			return bad, 1
		}
		return or(shl(bits(b0, 0x1f), 6), bits(at(1), 0x3f)), 2
	case in(b0, 0xE0, 0xEF):
		if rem < 2 {
			return bad, 1
		}
		lo, hi := uint64(0x80), uint64(0xBF)
		if st.branch(C.Eq(b0, k(0xE0))) {
			lo = 0xA0
		} else if st.branch(C.Eq(b0, k(0xED))) {
			hi = 0x9F
		}
		if !in(at(1), lo, hi) {
			return bad, 1
		}
		if rem < 3 || !in(at(2), 0x80, 0xBF) {
			return bad, 1
		}
		return or(or(shl(bits(b0, 0xf), 12), shl(bits(at(1), 0x3f), 6)), bits(at(2), 0x3f)), 3
	case in(b0, 0xF0, 0xF4):
		if rem < 2 {
			return bad, 1
		}
		lo, hi := uint64(0x80), uint64(0xBF)
		if st.branch(C.Eq(b0, k(0xF0))) {
			lo = 0x90
		} else if st.branch(C.Eq(b0, k(0xF4))) {
			hi = 0x8F
		}
		if !in(at(1), lo, hi) {
			return bad, 1
		}
		if rem < 3 || !in(at(2), 0x80, 0xBF) {
			return bad, 1
		}
		if rem < 4 || !in(at(3), 0x80, 0xBF) {
			return bad, 1
		}
		return or(or(shl(bits(b0, 7), 18), shl(bits(at(1), 0x3f), 12)), or(shl(bits(at(2), 0x3f), 6), bits(at(3), 0x3f))), 4
	}
	return bad, 1
}

// runeStr encodes a 32-bit rune.
func (st *State) runeStr(r *term.Term) *Str {
	C := st.vm.C
	if r.IsConst() {
		return mkStr(string(rune(int32(r.K))))
	}
	k := func(v uint64) *term.Term { return C.Const(v, 32) }
	lt := func(v uint64) bool { return st.branch(C.Bin(term.OUlt, r, k(v))) }
	by := func(sh, m, or uint64) *term.Term {
		x := r
		if sh > 0 {
			x = C.Bin(term.OLShr, r, k(sh))
		}
		x = C.Bin(term.OBOr, C.Bin(term.OBAnd, x, k(m)), k(or))
		return C.Conv(x, 8, false)
	}
	switch {
	case lt(0x80):
		return st.vm.strFromBytes([]*term.Term{C.Conv(r, 8, false)})
	case lt(0x800):
		return st.vm.strFromBytes([]*term.Term{by(6, 0x1f, 0xC0), by(0, 0x3f, 0x80)})
	}
	if !lt(0x110000) || (!lt(0xD800) && lt(0xE000)) {
		return mkStr("\uFFFD")
	}
	if lt(0x10000) {
		return st.vm.strFromBytes([]*term.Term{by(12, 0xf, 0xE0), by(6, 0x3f, 0x80), by(0, 0x3f, 0x80)})
	}
	return st.vm.strFromBytes([]*term.Term{by(18, 7, 0xF0), by(12, 0x3f, 0x80), by(6, 0x3f, 0x80), by(0, 0x3f, 0x80)})
}

// ---- maps ----

func (st *State) mapFind(m *MapV, k Value) int {
	ck, conc := concKey(k)
	if i, ok := k.(Iface); ok && i.t != nil && !types.Comparable(i.t) {
		st.vm.unsupported("unhashable map key")
	}
	if conc && m.conc {
		if i, ok := m.idx[ck]; ok {
			return i
		}
		return -1
	}
	for i, e := range m.ents {
		if st.branch(st.vm.valEq(k, e.k)) {
			return i
		}
	}
	return -1
}

func (st *State) mapGet(r *MapRef, k Value) (Value, bool) {
	if r == nil {
		return nil, false
	}
	m := st.load(r.obj).(*MapV)
	i := st.mapFind(m, k)
	if i < 0 {
		return nil, false
	}
	return m.ents[i].v, true
}

func (st *State) mapSet(r *MapRef, k, v Value) {
	m := st.load(r.obj).(*MapV)
	i := st.mapFind(m, k)
	if st.isInit && i < 0 {
		if ck, conc := concKey(k); conc && m.conc {
			m.idx[ck] = len(m.ents)
			m.ents = append(m.ents, MapEntry{k, v})
			return
		}
	}
	n := &MapV{conc: m.conc}
	n.ents = append(make([]MapEntry, 0, len(m.ents)+1), m.ents...)
	if i >= 0 {
		n.ents[i].v = v
		n.idx = m.idx
		st.store(r.obj, n)
		return
	}
	n.ents = append(n.ents, MapEntry{k, v})
	ck, conc := concKey(k)
	if m.conc && conc {
		n.idx = make(map[string]int, len(m.idx)+1)
		for a, b := range m.idx {
			n.idx[a] = b
		}
		n.idx[ck] = len(n.ents) - 1
	} else {
		n.conc = false
	}
	st.store(r.obj, n)
}

func mapRebuild(ents []MapEntry) *MapV {
	n := &MapV{ents: ents, conc: true, idx: map[string]int{}}
	for i, e := range ents {
		k, ok := concKey(e.k)
		if !ok {
			n.conc = false
			n.idx = nil
			break
		}
		n.idx[k] = i
	}
	return n
}

func (st *State) mapDelete(r *MapRef, k Value) {
	m := st.load(r.obj).(*MapV)
	i := st.mapFind(m, k)
	if i < 0 {
		return
	}
	ents := append([]MapEntry(nil), m.ents[:i]...)
	ents = append(ents, m.ents[i+1:]...)
	st.store(r.obj, mapRebuild(ents))
}

func (st *State) next_(f *Frame, ins *Ins, x *ssa.Next) {
	vm := st.vm
	ref := st.get(f, ins.a[0]).(*MapIter)
	it := st.load(ref.obj).(*IterV)
	if x.IsString {
		if it.pos >= it.str.Len() {
			st.setDst(f, ins, Tuple{vm.C.False, vm.C.Const(0, 64), vm.C.Const(0, 32)})
			return
		}
		r, w := st.decodeRune(it.str, it.pos)
		st.store(ref.obj, &IterV{str: it.str, pos: it.pos + w})
		st.setDst(f, ins, Tuple{vm.C.True, vm.C.Const(uint64(it.pos), 64), r})
		return
	}
	tp := x.Type().(*types.Tuple)
	zk := func(i int) Value {
		t := tp.At(i).Type()
		if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
			return Poison{"unused"}
		}
		return vm.zero(t)
	}
	keys := it.keys
	for len(keys) > 0 {
		i := 0
		if it.order && len(keys) > 1 && len(keys) <= 5 {
			i = st.choose(len(keys))
			if st.choicePos > 0 && !st.isInit {
				st.log = &nondet{prev: st.log, tid: st.cur, kind: "map", t: vm.C.Const(uint64(i), 64)}
			}
		}
		k := keys[i]
		rest := make([]Value, 0, len(keys)-1)
		rest = append(rest, keys[:i]...)
		rest = append(rest, keys[i+1:]...)
		keys = rest
		v, ok := st.mapGet(it.m, k)
		if !ok {
			continue
		}
		if st.race != nil {
			st.access(f, &Ptr{obj: it.m.obj}, false)
			if st.dead {
				return
			}
		}
		st.store(ref.obj, &IterV{m: it.m, keys: keys, order: it.order})
		st.setDst(f, ins, Tuple{vm.C.True, k, v})
		return
	}
	st.setDst(f, ins, Tuple{vm.C.False, zk(1), zk(2)})
}

// ---- type assertions ----

func (vm *VM) implements(t types.Type, it *types.Interface, key types.Type) bool {
	k := [2]types.Type{t, key}
	if r, ok := vm.implCache[k]; ok {
		return r
	}
	r := types.Implements(t, it)
	vm.implCache[k] = r
	return r
}

func (st *State) typeAssert(f *Frame, ins *Ins, x *ssa.TypeAssert) {
	vm := st.vm
	v, ok := st.get(f, ins.a[0]).(Iface)
	if !ok {
		vm.unsupported("TypeAssert of %T", st.get(f, ins.a[0]))
	}
	at := x.AssertedType
	match := false
	var r Value
	if it, isI := at.Underlying().(*types.Interface); isI {
		match = v.t != nil && vm.implements(v.t, it, at)
		r = v
	} else {
		match = v.t != nil && identical(v.t, at)
		r = v.v
	}
	if x.CommaOk {
		if !match {
			r = vm.zero(at)
		}
		st.setDst(f, ins, Tuple{r, vm.C.Bool(match)})
		return
	}
	if !match {
		d := "nil"
		if v.t != nil {
			d = v.t.String()
		}
		st.rtPanic(fmt.Sprintf("interface conversion: %s is not %s", d, at))
		return
	}
	st.setDst(f, ins, r)
}

// FnUse counts the calls of the functions of the repository and of the libraries it runs.
func (vm *VM) FnUse() (repo, lib map[string]int64) {
	repo, lib = map[string]int64{}, map[string]int64{}
	for _, fi := range vm.fns {
		switch {
		case fi.hits == 0 || fi.harness:
		case fi.repo:
			repo[fi.name] += fi.hits
		default:
			lib[fi.name] += fi.hits
		}
	}
	return
}
