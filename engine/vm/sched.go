package vm

import (
	"fmt"
	"go/types"

	"gosym/term"

	"golang.org/x/tools/go/ssa"
)

type vclock []int32

func (v vclock) copy() vclock { return append(vclock(nil), v...) }
func (v vclock) at(i int) int32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}
func (v vclock) join(o vclock) vclock {
	for len(v) < len(o) {
		v = append(v, 0)
	}
	for i, x := range o {
		if x > v[i] {
			v[i] = x
		}
	}
	return v
}
func (v vclock) inc(i int) vclock {
	for len(v) <= i {
		v = append(v, 0)
	}
	v[i]++
	return v
}

type accRec struct {
	path  []int32
	wTid  int
	wClk  int32
	wFn   string
	reads []int32 // per thread clock
	rFn   string
}

type objRace struct {
	owner  int64
	short  []*accRec
	bucket map[[2]int32][]*accRec
}

type raceState struct {
	owner int64
	objs  map[int64]*objRace
	sync  map[string]vclock
	n     int64
}

var raceOwner int64

func (r *raceState) clone() *raceState {
	n := &raceState{objs: make(map[int64]*objRace, len(r.objs)), sync: make(map[string]vclock, len(r.sync)), n: r.n}
	r.n++
	n.n = r.n
	n.owner = -r.n*7919 - int64(len(r.objs))
	for k, v := range r.objs {
		v.owner = 0 // shared: copy on write by both
		n.objs[k] = v
	}
	for k, v := range r.sync {
		n.sync[k] = v
	}
	return n
}

func (o *objRace) clone() *objRace {
	n := &objRace{owner: 1, bucket: make(map[[2]int32][]*accRec, len(o.bucket))}
	cp := func(l []*accRec) []*accRec {
		out := make([]*accRec, len(l))
		for i, a := range l {
			b := *a
			b.reads = append([]int32(nil), a.reads...)
			out[i] = &b
		}
		return out
	}
	n.short = cp(o.short)
	for k, v := range o.bucket {
		n.bucket[k] = cp(v)
	}
	return n
}

func overlap(a, b []int32) bool {
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	for i := 0; i < n; i++ {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func pathSame(a, b []int32) bool { return len(a) == len(b) && overlap(a, b) }

// access records a heap access of the current thread and reports data races.
func (st *State) access(f *Frame, p *Ptr, write bool) {
	if f.fi.harness || st.isInit {
		return
	}
	if p.obj >= 1<<20 && p.obj&1 == 1 {
		return // non-escaping local
	}
	r := st.race
	o := r.objs[p.obj]
	if o == nil {
		o = &objRace{owner: 1, bucket: map[[2]int32][]*accRec{}}
		r.objs[p.obj] = o
	} else if o.owner == 0 {
		o = o.clone()
		r.objs[p.obj] = o
	}
	t := st.th()
	var mine *accRec
	check := func(a *accRec) {
		if !overlap(a.path, p.path) {
			return
		}
		if pathSame(a.path, p.path) {
			mine = a
		}
		if a.wTid >= 0 && a.wTid != t.id && a.wClk > t.vc.at(a.wTid) {
			st.reportRace(f, a.wFn, write, true)
		}
		if write {
			for i, c := range a.reads {
				if i != t.id && c > t.vc.at(i) {
					st.reportRace(f, a.rFn, write, false)
				}
			}
		}
	}
	for _, a := range o.short {
		check(a)
	}
	if len(p.path) >= 2 {
		for _, a := range o.bucket[[2]int32{p.path[0], p.path[1]}] {
			check(a)
		}
	} else {
		for _, l := range o.bucket {
			for _, a := range l {
				check(a)
			}
		}
	}
	if mine == nil {
		mine = &accRec{path: p.path, wTid: -1}
		if len(p.path) >= 2 {
			k := [2]int32{p.path[0], p.path[1]}
			o.bucket[k] = append(o.bucket[k], mine)
		} else {
			o.short = append(o.short, mine)
		}
	}
	if write {
		mine.wTid, mine.wClk, mine.wFn = t.id, t.vc.at(t.id), f.fi.name
	} else {
		for len(mine.reads) <= t.id {
			mine.reads = append(mine.reads, 0)
		}
		mine.reads[t.id] = t.vc.at(t.id)
		mine.rFn = f.fi.name
	}
}

func (st *State) reportRace(f *Frame, other string, w, ow bool) {
	a, b := f.fi.name, other
	if b < a {
		a, b = b, a
	}
	if st.dead {
		return
	}
	st.violation("race", fmt.Sprintf("data race between %s and %s", a, b), nil)
	st.end("violation")
}

func (st *State) acquire(key string) {
	if st.race == nil {
		return
	}
	if v, ok := st.race.sync[key]; ok {
		t := st.th()
		t.vc = t.vc.copy().join(v)
	}
}

func (st *State) release(key string) {
	if st.race == nil {
		return
	}
	t := st.th()
	v := st.race.sync[key].copy().join(t.vc)
	st.race.sync[key] = v
	t.vc = t.vc.copy().inc(t.id)
}

// ---- threads ----

func (st *State) spawn(fn Value, args []Value, name string) *Thread {
	if st.isInit {
		return nil
	}
	if len(st.ths) >= 12 {
		panic(pathEnd{"too many threads"})
	}
	if st.race == nil {
		st.race = &raceState{objs: map[int64]*objRace{}, sync: map[string]vclock{}}
		st.th().vc = st.th().vc.copy().inc(st.cur)
	}
	cur := st.th()
	nt := &Thread{id: len(st.ths), name: name}
	nt.vc = cur.vc.copy().inc(nt.id)
	cur.vc = cur.vc.copy().inc(cur.id)
	st.ths = append(st.ths, nt)
	st.nthreads++
	st.live++
	save := st.cur
	st.cur = nt.id
	// a trampoline frame keeps call semantics uniform
	cl := fn.(*Closure)
	if cl == nil {
		st.vm.unsupported("go nil func")
	}
	nt.frames = []*Frame{{fi: st.vm.trampoline(), ret: retThread, dst: -1}}
	if !st.callValue(fn, args, retDefer, -1) {
		st.vm.unsupported("blocking go target")
	}
	st.cur = save
	return nt
}

// trampoline is a pseudo function whose single instruction returns.
func (vm *VM) trampoline() *FnInfo {
	if vm.tramp == nil {
		b := &Block{ins: []*Ins{{i: &ssa.Return{}, dst: -1}}}
		vm.tramp = &FnInfo{name: "goroutine", fn: vm.anyFn(), blocks: []*Block{b}}
	}
	return vm.tramp
}

func (vm *VM) anyFn() *ssa.Function {
	for fn := range vm.fns {
		return fn
	}
	return nil
}

func (st *State) threadDone() {
	t := st.th()
	t.status = tDone
	t.frames = nil
	st.live--
	if t.id == 0 {
		st.end("")
		return
	}
	if st.race != nil {
		st.race.sync[fmt.Sprintf("exit%d", t.id)] = t.vc.copy()
	}
	st.needSched = true
}

func (st *State) block(kind string, obj *Ptr, ch int64, desc string) {
	t := st.th()
	t.status = tBlocked
	t.blk = blockInfo{kind: kind, obj: obj, ch: ch, desc: desc}
	t.armed = false
	st.needSched = true
}

// syncPoint is called at the start of a synchronisation operation. It returns false if the
// scheduler has to decide first.
func (st *State) syncPoint() bool {
	if len(st.ths) == 1 || st.isInit {
		return true
	}
	t := st.th()
	f := t.frames[len(t.frames)-1]
	if n := len(t.frames); !f.fi.repo && n > 1 && atomicMethod(f) {
		f = t.frames[n-2]
	}
	if !f.fi.repo {
		return true
	}
	if t.armed {
		t.armed = false
		return true
	}
	st.needSched = true
	return false
}

// atomicMethod reports whether f runs a method of a type of sync/atomic.
func atomicMethod(f *Frame) bool {
	fn := f.fi.fn
	return fn.Pkg != nil && fn.Pkg.Pkg.Path() == "sync/atomic"
}

func (st *State) canRun(t *Thread) bool {
	switch t.status {
	case tDone:
		return false
	case tRun:
		return true
	}
	switch t.blk.kind {
	case "yield":
		return true
	case "lock":
		return st.mutexState(t.blk.obj) == 0
	case "wlock":
		w, r := st.rwState(t.blk.obj)
		return w == 0 && r == 0
	case "rlock":
		w, _ := st.rwState(t.blk.obj)
		return w == 0 && !st.writerWaiting(t.blk.obj)
	case "recv":
		c := st.load(t.blk.ch).(*ChanV)
		return len(c.buf) > 0 || c.closed
	case "send":
		c := st.load(t.blk.ch).(*ChanV)
		return c.closed || len(c.buf) < c.cap || len(c.recvq) > len(c.buf)
	case "select":
		return st.selectReady(t)
	case "wait":
		for _, o := range st.ths {
			if o.joined && o.status != tDone {
				return false
			}
		}
		return true
	case "waitgroup":
		return st.intAt(t.blk.obj) == 0
	}
	return false // forever, quiesce
}

func (st *State) writerWaiting(p *Ptr) bool {
	for _, t := range st.ths {
		if t.status == tBlocked && t.blk.kind == "wlock" && ptrEq(t.blk.obj, p) {
			return true
		}
	}
	return false
}

func (st *State) reschedule() {
	cur := st.th()
	var en []int
	if cur.status != tDone && st.canRun(cur) {
		en = append(en, cur.id)
	}
	curRunnable := cur.status == tRun
	for _, t := range st.ths {
		if t.id != cur.id && st.canRun(t) {
			en = append(en, t.id)
		}
	}
	if curRunnable && len(en) > 1 && st.preempts >= st.vm.Lim.MaxPreempt {
		en = en[:1]
	}
	if len(en) == 0 {
		for _, t := range st.ths {
			if t.status == tBlocked && t.blk.kind == "quiesce" {
				en = append(en, t.id)
				break
			}
		}
	}
	if len(en) == 0 {
		desc := ""
		for _, t := range st.ths {
			if t.status == tBlocked && t.blk.kind != "forever" && t.blk.kind != "wait" {
				desc += fmt.Sprintf(" [goroutine %d waits: %s]", t.id, t.blk.desc)
			}
		}
		st.violation("deadlock", "deadlock: no goroutine can continue"+desc, nil)
		st.end("violation")
		return
	}
	st.vm.Res.SchedPts++
	k := st.choose(len(en)) // clones start over here: needSched is still set
	st.needSched = false
	pick := en[k]
	if curRunnable && pick != cur.id {
		st.preempts++
	}
	st.sched = append(st.sched, SchedEntry{pick})
	t := st.ths[pick]
	if t.status == tBlocked {
		t.status = tRun
		if t.blk.kind == "wait" || t.blk.kind == "quiesce" || t.blk.kind == "yield" {
			t.resume = Tuple{}
		}
	}
	t.armed = true
	st.cur = pick
}

// ---- mutexes ----

// fieldLeaf finds the path of the first int32 leaf with the given field name inside t.
func (vm *VM) fieldLeaf(t types.Type, name string) []int32 {
	k := fpKey{t, name}
	if p, ok := vm.fieldPath[k]; ok {
		return p
	}
	var rec func(t types.Type, want bool) []int32
	rec = func(t types.Type, want bool) []int32 {
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			if b, ok := t.Underlying().(*types.Basic); ok && want && b.Info()&types.IsInteger != 0 {
				return []int32{}
			}
			return nil
		}
		for i := 0; i < s.NumFields(); i++ {
			w := want || s.Field(i).Name() == name
			if p := rec(s.Field(i).Type(), w); p != nil {
				return append([]int32{int32(i)}, p...)
			}
		}
		return nil
	}
	p := rec(t, false)
	if p == nil {
		vm.unsupported("no field %s in %s", name, t)
	}
	vm.fieldPath[k] = p
	return p
}

func (p *Ptr) subs(path []int32) *Ptr {
	np := make([]int32, 0, len(p.path)+len(path))
	np = append(np, p.path...)
	np = append(np, path...)
	return &Ptr{p.obj, np}
}

func (st *State) intAt(p *Ptr) int64 {
	t, ok := st.loadPtr(p).(*term.Term)
	if !ok || !t.IsConst() {
		st.vm.unsupported("symbolic sync state")
	}
	return t.SVal()
}

func (st *State) setInt(p *Ptr, v int64) {
	old := st.loadPtr(p).(*term.Term)
	st.storePtr(p, st.vm.C.Const(uint64(v), old.S))
}

func (vm *VM) namedType(pkg, name string) types.Type {
	for _, p := range vm.Prog.AllPackages() {
		if p.Pkg.Path() == pkg {
			if o := p.Pkg.Scope().Lookup(name); o != nil {
				return o.Type()
			}
		}
	}
	vm.unsupported("no type %s.%s", pkg, name)
	return nil
}

func (st *State) mutexState(p *Ptr) int64 { return st.intAt(p) }

func (st *State) rwState(p *Ptr) (int64, int64) {
	t := st.vm.namedTypeC("sync", "RWMutex")
	return st.intAt(p.subs(st.vm.fieldLeaf(t, "state"))), st.intAt(p.subs(st.vm.fieldLeaf(t, "readerCount")))
}

func (vm *VM) namedTypeC(pkg, name string) types.Type {
	k := pkg + "." + name
	if t, ok := vm.ntypes[k]; ok {
		return t
	}
	t := vm.namedType(pkg, name)
	if vm.ntypes == nil {
		vm.ntypes = map[string]types.Type{}
	}
	vm.ntypes[k] = t
	return t
}

func (st *State) nilCheck(v Value) (*Ptr, bool) {
	p, ok := v.(*Ptr)
	if !ok {
		st.vm.unsupported("pointer expected, got %T", v)
	}
	if p == nil {
		st.rtPanic("invalid memory address or nil pointer dereference")
		return nil, false
	}
	return p, true
}

func (st *State) fatal(msg string) {
	st.violation("panic", "fatal error: "+msg, nil)
	st.end("violation")
}

func init() {
	leaf := func(st *State, typ, f string) []int32 {
		return st.vm.fieldLeaf(st.vm.namedTypeC("sync", typ), f)
	}
	lock := func(st *State, fn *ssa.Function, a []Value) (Value, ctl) {
		p, ok := st.nilCheck(a[0])
		if !ok {
			return nil, ctlPanic
		}
		if !st.syncPoint() {
			return nil, ctlRetry
		}
		sp := p.subs(leaf(st, "Mutex", "state"))
		if st.intAt(sp) != 0 {
			st.block("lock", sp, 0, "mutex in "+st.th().frames[len(st.th().frames)-1].fi.name)
			return nil, ctlRetry
		}
		st.setInt(sp, 1)
		st.acquire(p.key())
		return nil, ctlDone
	}
	handlers["(*sync.Mutex).Lock"] = lock
	symHandlers["Gate"] = lock
	handlers["(*internal/sync.Mutex).Lock"] = func(st *State, fn *ssa.Function, a []Value) (Value, ctl) {
		st.vm.unsupported("internal/sync.Mutex")
		return nil, ctlDone
	}
	handlers["(*sync.Mutex).TryLock"] = func(st *State, fn *ssa.Function, a []Value) (Value, ctl) {
		p, ok := st.nilCheck(a[0])
		if !ok {
			return nil, ctlPanic
		}
		if !st.syncPoint() {
			return nil, ctlRetry
		}
		sp := p.subs(leaf(st, "Mutex", "state"))
		if st.intAt(sp) != 0 {
			return st.vm.C.False, ctlDone
		}
		st.setInt(sp, 1)
		st.acquire(p.key())
		return st.vm.C.True, ctlDone
	}
	handlers["(*sync.Mutex).Unlock"] = func(st *State, fn *ssa.Function, a []Value) (Value, ctl) {
		p, ok := st.nilCheck(a[0])
		if !ok {
			return nil, ctlPanic
		}
		if st.vm.TryLocks && !st.syncPoint() {
			return nil, ctlRetry
		}
		sp := p.subs(leaf(st, "Mutex", "state"))
		if st.intAt(sp) == 0 {
			st.fatal("sync: unlock of unlocked mutex")
			return nil, ctlPanic
		}
		st.setInt(sp, 0)
		st.release(p.key())
		return nil, ctlDone
	}
	handlers["(*sync.RWMutex).Lock"] = func(st *State, fn *ssa.Function, a []Value) (Value, ctl) {
		p, ok := st.nilCheck(a[0])
		if !ok {
			return nil, ctlPanic
		}
		if !st.syncPoint() {
			return nil, ctlRetry
		}
		w, r := st.rwState(p)
		if w != 0 || r != 0 {
			st.block("wlock", p, 0, "RWMutex.Lock in "+st.th().frames[len(st.th().frames)-1].fi.name)
			return nil, ctlRetry
		}
		st.setInt(p.subs(leaf(st, "RWMutex", "state")), 1)
		st.acquire(p.key())
		st.acquire(p.key() + "r")
		return nil, ctlDone
	}
	handlers["(*sync.RWMutex).Unlock"] = func(st *State, fn *ssa.Function, a []Value) (Value, ctl) {
		p, ok := st.nilCheck(a[0])
		if !ok {
			return nil, ctlPanic
		}
		if st.vm.TryLocks && !st.syncPoint() {
			return nil, ctlRetry
		}
		w, _ := st.rwState(p)
		if w == 0 {
			st.fatal("sync: Unlock of unlocked RWMutex")
			return nil, ctlPanic
		}
		st.setInt(p.subs(leaf(st, "RWMutex", "state")), 0)
		st.release(p.key())
		return nil, ctlDone
	}
	handlers["(*sync.RWMutex).RLock"] = func(st *State, fn *ssa.Function, a []Value) (Value, ctl) {
		p, ok := st.nilCheck(a[0])
		if !ok {
			return nil, ctlPanic
		}
		if !st.syncPoint() {
			return nil, ctlRetry
		}
		w, r := st.rwState(p)
		if w != 0 || st.writerWaiting(p) {
			st.block("rlock", p, 0, "RWMutex.RLock in "+st.th().frames[len(st.th().frames)-1].fi.name)
			return nil, ctlRetry
		}
		st.setInt(p.subs(leaf(st, "RWMutex", "readerCount")), r+1)
		st.acquire(p.key())
		return nil, ctlDone
	}
	handlers["(*sync.RWMutex).TryLock"] = func(st *State, fn *ssa.Function, a []Value) (Value, ctl) {
		p, ok := st.nilCheck(a[0])
		if !ok {
			return nil, ctlPanic
		}
		if !st.syncPoint() {
			return nil, ctlRetry
		}
		w, r := st.rwState(p)
		if w != 0 || r != 0 {
			return st.vm.C.False, ctlDone
		}
		st.setInt(p.subs(leaf(st, "RWMutex", "state")), 1)
		st.acquire(p.key())
		st.acquire(p.key() + "r")
		return st.vm.C.True, ctlDone
	}
	handlers["(*sync.RWMutex).TryRLock"] = func(st *State, fn *ssa.Function, a []Value) (Value, ctl) {
		p, ok := st.nilCheck(a[0])
		if !ok {
			return nil, ctlPanic
		}
		if !st.syncPoint() {
			return nil, ctlRetry
		}
		w, r := st.rwState(p)
		if w != 0 || st.writerWaiting(p) {
			return st.vm.C.False, ctlDone
		}
		st.setInt(p.subs(leaf(st, "RWMutex", "readerCount")), r+1)
		st.acquire(p.key())
		return st.vm.C.True, ctlDone
	}
	handlers["(*sync.RWMutex).RUnlock"] = func(st *State, fn *ssa.Function, a []Value) (Value, ctl) {
		p, ok := st.nilCheck(a[0])
		if !ok {
			return nil, ctlPanic
		}
		if st.vm.TryLocks && !st.syncPoint() {
			return nil, ctlRetry
		}
		_, r := st.rwState(p)
		if r == 0 {
			st.fatal("sync: RUnlock of unlocked RWMutex")
			return nil, ctlPanic
		}
		st.setInt(p.subs(leaf(st, "RWMutex", "readerCount")), r-1)
		st.release(p.key() + "r")
		return nil, ctlDone
	}
	// WaitGroup: the counter lives in the state word.
	wg := func(st *State, p *Ptr) *Ptr {
		return p.subs(st.vm.fieldLeaf(st.vm.namedTypeC("sync", "WaitGroup"), "state"))
	}
	handlers["(*sync.WaitGroup).Add"] = func(st *State, fn *ssa.Function, a []Value) (Value, ctl) {
		p, ok := st.nilCheck(a[0])
		if !ok {
			return nil, ctlPanic
		}
		c := wg(st, p)
		n := st.intAt(c) + int64(st.concInt(a[1]))
		if n < 0 {
			st.startPanic(st.mkError("sync: negative WaitGroup counter"), "sync: negative WaitGroup counter")
			return nil, ctlPanic
		}
		st.setInt(c, n)
		st.release(p.key())
		return nil, ctlDone
	}
	handlers["(*sync.WaitGroup).Done"] = func(st *State, fn *ssa.Function, a []Value) (Value, ctl) {
		return handlers["(*sync.WaitGroup).Add"](st, fn, []Value{a[0], st.vm.C.Const(^uint64(0), 64)})
	}
	handlers["(*sync.WaitGroup).Wait"] = func(st *State, fn *ssa.Function, a []Value) (Value, ctl) {
		p, ok := st.nilCheck(a[0])
		if !ok {
			return nil, ctlPanic
		}
		c := wg(st, p)
		if st.intAt(c) != 0 {
			st.block("waitgroup", c, 0, "WaitGroup")
			return nil, ctlRetry
		}
		st.acquire(p.key())
		return nil, ctlDone
	}
	handlers["(*sync.Pool).Get"] = func(st *State, fn *ssa.Function, a []Value) (Value, ctl) {
		p := a[0].(*Ptr)
		t := st.vm.namedTypeC("sync", "Pool").Underlying().(*types.Struct)
		for i := 0; i < t.NumFields(); i++ {
			if t.Field(i).Name() == "New" {
				nf, _ := st.loadPtr(p.sub(i)).(*Closure)
				if nf == nil {
					return Iface{}, ctlDone
				}
				st.pushFrame(st.vm.info(nf.fn), nil, nf.fv, retNormal, -1)
				return nil, ctlPushed
			}
		}
		return Iface{}, ctlDone
	}
	handlers["(*sync.Pool).Put"] = func(st *State, fn *ssa.Function, a []Value) (Value, ctl) { return nil, ctlDone }
}

// ---- channels ----

func (st *State) setChan(id int64, c *ChanV) { st.store(id, c) }

func (c *ChanV) with(buf []Value, recvq []int) *ChanV {
	return &ChanV{cap: c.cap, buf: buf, closed: c.closed, recvq: recvq}
}

func dropInt(l []int, x int) []int {
	var out []int
	done := false
	for _, y := range l {
		if y == x && !done {
			done = true
			continue
		}
		out = append(out, y)
	}
	return out
}

func hasInt(l []int, x int) bool {
	for _, y := range l {
		if y == x {
			return true
		}
	}
	return false
}

func (st *State) chanSend(f *Frame, ins *Ins) {
	c, _ := st.get(f, ins.a[0]).(*ChanRef)
	v := st.get(f, ins.a[1])
	if c == nil {
		st.block("forever", nil, 0, "send on nil channel")
		return
	}
	if !st.syncPoint() {
		return
	}
	ch := st.load(c.obj).(*ChanV)
	if ch.closed {
		st.startPanic(st.mkError("send on closed channel"), "send on closed channel")
		return
	}
	if len(ch.buf) < ch.cap || len(ch.recvq) > len(ch.buf) {
		st.setChan(c.obj, ch.with(append(append([]Value(nil), ch.buf...), v), ch.recvq))
		st.release(fmt.Sprintf("ch%d", c.obj))
		f.pc++
		return
	}
	st.block("send", nil, c.obj, "channel send")
}

// tryRecv takes a value if possible.
func (st *State) tryRecv(id int64, zero Value) (Value, bool, bool) {
	ch := st.load(id).(*ChanV)
	if len(ch.buf) > 0 {
		v := ch.buf[0]
		st.setChan(id, ch.with(append([]Value(nil), ch.buf[1:]...), dropInt(ch.recvq, st.cur)))
		st.acquire(fmt.Sprintf("ch%d", id))
		return v, true, true
	}
	if ch.closed {
		st.acquire(fmt.Sprintf("ch%d", id))
		return zero, false, true
	}
	return nil, false, false
}

func (st *State) chanRecv(f *Frame, ins *Ins, x *ssa.UnOp) {
	c, _ := st.get(f, ins.a[0]).(*ChanRef)
	if c == nil {
		st.block("forever", nil, 0, "receive on nil channel")
		return
	}
	if !st.syncPoint() {
		return
	}
	et := x.X.Type().Underlying().(*types.Chan).Elem()
	v, ok, done := st.tryRecv(c.obj, st.vm.zero(et))
	if !done {
		ch := st.load(c.obj).(*ChanV)
		if !hasInt(ch.recvq, st.cur) {
			st.setChan(c.obj, ch.with(ch.buf, append(append([]int(nil), ch.recvq...), st.cur)))
		}
		st.block("recv", nil, c.obj, "channel receive")
		return
	}
	if x.CommaOk {
		st.setDst(f, ins, Tuple{v, st.vm.C.Bool(ok)})
	} else {
		st.setDst(f, ins, v)
	}
}

func (st *State) chanClose(v Value) (Value, ctl) {
	c, _ := v.(*ChanRef)
	if c == nil {
		st.startPanic(st.mkError("close of nil channel"), "close of nil channel")
		return nil, ctlPanic
	}
	ch := st.load(c.obj).(*ChanV)
	if ch.closed {
		st.startPanic(st.mkError("close of closed channel"), "close of closed channel")
		return nil, ctlPanic
	}
	n := ch.with(ch.buf, ch.recvq)
	n.closed = true
	st.setChan(c.obj, n)
	st.release(fmt.Sprintf("ch%d", c.obj))
	return nil, ctlDone
}

func (st *State) selCases(t *Thread) (ready []int) {
	f := t.frames[len(t.frames)-1]
	ins := f.fi.blocks[f.block].ins[f.pc]
	x := ins.i.(*ssa.Select)
	for i, s := range x.States {
		c, _ := st.get(f, ins.a[2*i]).(*ChanRef)
		if c == nil {
			continue
		}
		ch := st.load(c.obj).(*ChanV)
		if s.Dir == types.SendOnly {
			if ch.closed || len(ch.buf) < ch.cap || len(dropInt(ch.recvq, t.id)) > len(ch.buf) {
				ready = append(ready, i)
			}
		} else if len(ch.buf) > 0 || ch.closed {
			ready = append(ready, i)
		}
	}
	return
}

func (st *State) selectReady(t *Thread) bool { return len(st.selCases(t)) > 0 }

func (st *State) select_(f *Frame, ins *Ins, x *ssa.Select) {
	if !st.syncPoint() {
		return
	}
	vm := st.vm
	t := st.th()
	ready := st.selCases(t)
	res := func(idx int, recvOk bool, got Value) {
		tp := x.Type().(*types.Tuple)
		out := Tuple{vm.C.Const(uint64(int64(idx)), 64), vm.C.Bool(recvOk)}
		k := 2
		for i, s := range x.States {
			if s.Dir == types.RecvOnly {
				if i == idx {
					out = append(out, got)
				} else {
					out = append(out, vm.zero(tp.At(k).Type()))
				}
				k++
			}
		}
		// leave the receive queues
		for i, s := range x.States {
			if s.Dir != types.RecvOnly {
				continue
			}
			if c, _ := st.get(f, ins.a[2*i]).(*ChanRef); c != nil {
				ch := st.load(c.obj).(*ChanV)
				if hasInt(ch.recvq, t.id) {
					st.setChan(c.obj, ch.with(ch.buf, dropInt(ch.recvq, t.id)))
				}
			}
		}
		st.setDst(f, ins, out)
	}
	if len(ready) == 0 {
		if !x.Blocking {
			res(-1, false, nil)
			return
		}
		for i, s := range x.States {
			if s.Dir != types.RecvOnly {
				continue
			}
			if c, _ := st.get(f, ins.a[2*i]).(*ChanRef); c != nil {
				ch := st.load(c.obj).(*ChanV)
				if !hasInt(ch.recvq, t.id) {
					st.setChan(c.obj, ch.with(ch.buf, append(append([]int(nil), ch.recvq...), t.id)))
				}
			}
		}
		st.block("select", nil, 0, "select")
		return
	}
	i := ready[st.choose(len(ready))]
	c := st.get(f, ins.a[2*i]).(*ChanRef)
	s := x.States[i]
	if s.Dir == types.SendOnly {
		ch := st.load(c.obj).(*ChanV)
		if ch.closed {
			st.startPanic(st.mkError("send on closed channel"), "send on closed channel")
			return
		}
		st.setChan(c.obj, ch.with(append(append([]Value(nil), ch.buf...), st.get(f, ins.a[2*i+1])), ch.recvq))
		st.release(fmt.Sprintf("ch%d", c.obj))
		res(i, false, nil)
		return
	}
	et := s.Chan.Type().Underlying().(*types.Chan).Elem()
	v, ok, _ := st.tryRecv(c.obj, vm.zero(et))
	res(i, ok, v)
}
