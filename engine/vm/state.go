package vm

import (
	"fmt"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"gosym/term"

	"go/types"
	"golang.org/x/tools/go/ssa"
)

// Limits of one exploration.
type Limits struct {
	MaxPathIns  int64 // instructions on one path
	MaxVisits   int   // visits of one block by one activation of code under test
	MaxPaths    int
	Deadline    time.Time
	Stop        *int32 // set to end the exploration early
	MaxPreempt  int
	MaxViol     int
	SampleEvery int
}

type VM struct {
	// TryLocks makes unlocking a scheduling point too, as a lock that is held can be observed
	TryLocks  bool
	uniq      map[string]*Ptr
	C         *term.Ctx
	S         *term.Solver
	Prog      *ssa.Program
	byteC     [256]*term.Term
	emptyStr  *Str
	zeroCache map[types.Type]Value
	owners    int64
	fns       map[*ssa.Function]*FnInfo

	globals   map[*ssa.Global]int64
	inited    map[*ssa.Package]bool
	base      Heap
	nextBase  int64
	initDepth int

	implCache map[[2]types.Type]bool
	methCache map[methKey]*ssa.Function
	tt        map[int32]*[4]uint64
	pathCache map[types.Type][]int32
	fieldPath map[fpKey][]int32

	Lim Limits
	Res *Result

	work      []*State
	case_     int
	seed      int64
	Debug     bool
	symPkg    *ssa.Package
	tramp     *FnInfo
	ntypes    map[string]types.Type
	NCases    int
	vars      map[string]*term.Term
	hostFi    *FnInfo
	mnCache   map[methNameKey]*ssa.Function
	Thorough  bool
	Words     []string
	Sizes     []int
	ufn       map[string]*ssa.Function
	tokens    []Value // config registry
	pcTimeout bool
	nhash     int
	hcache    map[string]*ssa.Function
	initDirty map[int64]*ssa.Package
	curSt     *State
	hk        map[*ssa.Function]hkey
	dlN       int
}

type methKey struct {
	t types.Type
	m *types.Func
}
type fpKey struct {
	t types.Type
	f string
}

// Result aggregates what was explored.
type Result struct {
	Paths      int
	Forks      int
	Ins        int64
	Asserts    int
	AssertQ    int // decided by a solver query
	AssertC    int // constant after simplification under the path condition
	Infeasible int
	Cut        map[string]int // truncated paths, by reason
	Cover      map[string]int
	Viol       []*Violation
	Samples    []*Sample
	Threads    int
	MaxThreads int
	SchedPts   int
	Funcs      map[string]int // repo functions executed -> instructions
	StdFuncs   map[string]int
	Exhausted  bool
	AssertBy   map[string]int
}

type Violation struct {
	Kind    string // assert, panic, deadlock, hang, race, exit
	Msg     string
	Log     []LogEntry
	Sched   []SchedEntry
	Obs     []string
	Stack   []string
	Case    int
	Threads int
}

type Sample struct {
	Log     []LogEntry
	Obs     []string
	Sched   []SchedEntry
	Case    int
	Threads int
}

// LogEntry is one nondeterministic value, in program order per thread.
type LogEntry struct {
	Tid  int    `json:"t"`
	Kind string `json:"k"`
	Name string `json:"n"`
	Val  uint64 `json:"v"`
	Str  []byte `json:"s,omitempty"`
}

type SchedEntry struct {
	Tid int `json:"t"`
}

type nondet struct {
	prev *nondet
	tid  int
	kind string
	name string
	t    *term.Term
	b    []*term.Term
}

type obsRec struct {
	prev  *obsRec
	label string
	v     Value
}

type pcNode struct {
	prev *pcNode
	t    *term.Term
	n    int
}

type factNode struct {
	prev *factNode
	t    *term.Term
}

type domNode struct {
	prev *domNode
	v    int32
	bits [4]uint64
}

type mvNode struct { // variables that occur in a multi-variable constraint
	prev *mvNode
	vs   []int32
}

type deferRec struct {
	prev *deferRec
	fn   Value
	args []Value
	ins  *Ins
}

const (
	retNormal     = iota
	retDefer      // deferred call run by RunDefers
	retPanicDefer // deferred call run while panicking
	retCatchExit
	retThread
	retInit
	retCont // continuation closure (host)
	retHost // result is stored in the host frame below
)

type Frame struct {
	fi        *FnInfo
	regs      []Value
	block     int
	prev      int
	pc        int
	defers    *deferRec
	ret       int
	dst       int32 // caller register
	frozen    bool
	host      func(st *State, f *Frame)
	visits    []int32
	cont      func(st *State, res Value) // retCont
	recov     bool                       // executing the recover block
	inHarness bool                       // nearest context is harness/env code
	indexed   bool                       // the redirect of the index expression at pc has run
}

const (
	tRun = iota
	tBlocked
	tDone
)

type blockInfo struct {
	kind string // lock, rlock, chan, wait, forever, once
	obj  *Ptr
	ch   int64
	desc string
}

type Thread struct {
	id     int
	frames []*Frame
	status int
	blk    blockInfo
	panic_ *panicRec
	vc     vclock
	resume Value
	name   string
	mode   int  // 0 normal, 1 unwinding a panic, 2 finishing a recovered frame
	armed  bool // may pass its next synchronisation operation
	joined bool // started by sym.Go (waited for by sym.Wait)
}

type panicRec struct {
	val       Value // Iface
	recovered bool
	prev      *panicRec
	stack     []string
	rt        string
}

type State struct {
	vm        *VM
	heap      Heap
	next      int64
	ths       []*Thread
	cur       int
	pc        *pcNode
	facts     *factNode
	dom       *domNode
	mv        *mvNode
	model     term.Model
	log       *nondet
	obs       *obsRec
	ins       int64
	choices   []int // of the current instruction
	choicePos int
	nwords    int
	preempts  int
	race      *raceState
	sched     []SchedEntry
	redir     *redirNode
	maporder  bool
	dead      bool
	cutWhy    string
	isInit    bool
	initPkg   *ssa.Package
	needSched bool
	undo      *undoRec
	nthreads  int
	live      int
	trace     []string
	flags     map[string]int64
	cover     []string
	hashes    *hashNode
	nfresh    int
	uniq      *uniqNode
}

// uniqNode lists the handles of unique.Make.
type uniqNode struct {
	prev *uniqNode
	key  string
	p    *Ptr
}

type undoRec struct {
	defers *deferRec
	mode   int
}

type redirNode struct {
	prev *redirNode
	key  string
	fn   *Closure
	repo bool // only for calls from the code under test
}

type hashNode struct {
	prev *hashNode
	kind string
	in   *Str
	out  []*term.Term
}

type unsupportedErr struct{ msg string }
type pathEnd struct{ why string }

func (vm *VM) unsupported(f string, a ...interface{}) {
	panic(unsupportedErr{fmt.Sprintf(f, a...)})
}

func NewVM(prog *ssa.Program, solverPath string, timeoutMS int) *VM {
	vm := &VM{C: term.NewCtx(), Prog: prog, zeroCache: map[types.Type]Value{}, fns: map[*ssa.Function]*FnInfo{},
		globals: map[*ssa.Global]int64{}, inited: map[*ssa.Package]bool{}, implCache: map[[2]types.Type]bool{},
		methCache: map[methKey]*ssa.Function{}, tt: map[int32]*[4]uint64{}, pathCache: map[types.Type][]int32{},
		fieldPath: map[fpKey][]int32{}, hcache: map[string]*ssa.Function{}, initDirty: map[int64]*ssa.Package{}, vars: map[string]*term.Term{}}
	vm.S = term.NewSolver(vm.C, solverPath, timeoutMS)
	for i := range vm.byteC {
		vm.byteC[i] = vm.C.Const(uint64(i), 8)
	}
	vm.emptyStr = mkStr("")
	vm.base.owner = vm.newOwner()
	vm.nextBase = 2
	return vm
}

func NewResult() *Result {
	return &Result{Cut: map[string]int{}, Cover: map[string]int{}, Funcs: map[string]int{}, StdFuncs: map[string]int{}, AssertBy: map[string]int{}}
}

func (vm *VM) hkeys() map[*ssa.Function]hkey {
	if vm.hk == nil {
		vm.hk = map[*ssa.Function]hkey{}
	}
	return vm.hk
}

func (vm *VM) pastDeadline() bool {
	if vm.Lim.Stop != nil && atomic.LoadInt32(vm.Lim.Stop) != 0 {
		return true
	}
	return !vm.Lim.Deadline.IsZero() && time.Now().After(vm.Lim.Deadline)
}

func (vm *VM) Close() { vm.S.Close() }

func (vm *VM) newState() *State {
	st := &State{vm: vm, next: 1 << 20, model: term.Model{}}
	st.heap.owner = vm.newOwner()
	return st
}

func (st *State) clone() *State {
	n := *st
	n.heap.owner = st.vm.newOwner()
	st.heap.owner = st.vm.newOwner()
	n.ths = make([]*Thread, len(st.ths))
	for i, t := range st.ths {
		nt := *t
		nt.frames = append([]*Frame(nil), t.frames...)
		for k, f := range t.frames {
			if i == st.cur && k == len(t.frames)-1 && !f.frozen {
				// the running instruction may still mutate this frame: give the clone its own copy
				nf := *f
				nf.regs = append([]Value(nil), f.regs...)
				if f.visits != nil {
					nf.visits = append([]int32(nil), f.visits...)
				}
				if st.undo != nil {
					nf.defers = st.undo.defers
				}
				nt.frames[k] = &nf
				continue
			}
			f.frozen = true
		}
		if i == st.cur && st.undo != nil {
			nt.mode = st.undo.mode
		}
		nt.vc = t.vc.copy()
		n.ths[i] = &nt
	}
	n.undo = nil
	n.choices = append([]int(nil), st.choices...)
	n.sched = append([]SchedEntry(nil), st.sched...)
	n.cover = append([]string(nil), st.cover...)
	if st.race != nil {
		n.race = st.race.clone()
	}
	if st.flags != nil {
		n.flags = map[string]int64{}
		for k, v := range st.flags {
			n.flags[k] = v
		}
	}
	return &n
}

func (st *State) th() *Thread { return st.ths[st.cur] }

// top returns the mutable top frame of the current thread.
func (st *State) top() *Frame {
	t := st.ths[st.cur]
	f := t.frames[len(t.frames)-1]
	if f.frozen {
		nf := *f
		nf.regs = append([]Value(nil), f.regs...)
		if f.visits != nil {
			nf.visits = append([]int32(nil), f.visits...)
		}
		nf.frozen = false
		t.frames[len(t.frames)-1] = &nf
		return &nf
	}
	return f
}

func (st *State) load(obj int64) Value {
	if v, ok := st.heap.get(obj); ok {
		return v
	}
	if obj < 1<<20 {
		if v, ok := st.vm.base.get(obj); ok {
			return v
		}
	}
	st.vm.unsupported("dangling object %d", obj)
	return nil
}

func (st *State) store(obj int64, v Value) {
	if v == nil {
		panic("store nil value")
	}
	if st.isInit {
		st.vm.base.set(obj, v)
		return
	}
	st.heap.set(obj, v)
}

// alloc returns a new object. Stack objects get odd ids.
func (st *State) alloc(v Value, stack bool) *Ptr {
	var id int64
	if st.isInit {
		st.vm.nextBase += 2
		id = st.vm.nextBase
		if id >= 1<<20 {
			panic("base heap exhausted")
		}
	} else {
		st.next += 2
		id = st.next
		if id >= 1<<25-2 {
			panic(pathEnd{"heap exhausted"})
		}
		if stack {
			id++
		}
	}
	st.store(id, v)
	return &Ptr{obj: id}
}

func (st *State) loadPtr(p *Ptr) Value {
	return st.vm.descend(st.load(p.obj), p.path)
}

func (st *State) storePtr(p *Ptr, v Value) {
	if len(p.path) == 0 {
		st.store(p.obj, v)
		return
	}
	st.store(p.obj, st.vm.update(st.load(p.obj), p.path, v))
}

// ---- path condition ----

func (vm *VM) table(t *term.Term) *[4]uint64 {
	if len(t.Vars()) != 1 || t.HasFloat() {
		return nil
	}
	v := vm.C.ByID[t.Vars()[0]]
	if v.S != 8 {
		return nil
	}
	if x, ok := vm.tt[t.ID]; ok {
		return x
	}
	var r [4]uint64
	m := term.Model{}
	for i := 0; i < 256; i++ {
		m[v.ID] = uint64(i)
		if term.Eval(t, m) == 1 {
			r[i>>6] |= 1 << uint(i&63)
		}
	}
	vm.tt[t.ID] = &r
	return &r
}

func (st *State) domain(v int32) [4]uint64 {
	for d := st.dom; d != nil; d = d.prev {
		if d.v == v {
			return d.bits
		}
	}
	f := ^uint64(0)
	return [4]uint64{f, f, f, f}
}

func (st *State) inMulti(v int32) bool {
	for m := st.mv; m != nil; m = m.prev {
		i := sort.Search(len(m.vs), func(i int) bool { return m.vs[i] >= v })
		if i < len(m.vs) && m.vs[i] == v {
			return true
		}
	}
	return false
}

// addPC adds a constraint known to be consistent with st.model.
func (st *State) addPC(t *term.Term) {
	if t.IsTrue() {
		return
	}
	if t.Op == term.OAnd {
		for _, x := range t.A {
			st.addPC(x)
		}
		st.facts = &factNode{st.facts, t}
		return
	}
	n := 1
	if st.pc != nil {
		n = st.pc.n + 1
	}
	st.pc = &pcNode{st.pc, t, n}
	st.facts = &factNode{st.facts, t}
	if tb := st.vm.table(t); tb != nil {
		v := t.Vars()[0]
		d := st.domain(v)
		for i := range d {
			d[i] &= tb[i]
		}
		st.dom = &domNode{st.dom, v, d}
	} else {
		st.mv = &mvNode{st.mv, t.Vars()}
	}
}

func (st *State) known(c *term.Term) (bool, bool) {
	if c.IsConst() {
		return c.K == 1, true
	}
	nc := st.vm.C.Not(c)
	for f := st.facts; f != nil; f = f.prev {
		if f.t == c {
			return true, true
		}
		if f.t == nc {
			return false, true
		}
	}
	return false, false
}

// slice returns the constraints of the path condition that share variables (transitively) with ts.
func (st *State) slice(ts ...*term.Term) []*term.Term {
	vs := map[int32]bool{}
	for _, t := range ts {
		for _, v := range t.Vars() {
			vs[v] = true
		}
	}
	var all []*term.Term
	for p := st.pc; p != nil; p = p.prev {
		all = append(all, p.t)
	}
	used := make([]bool, len(all))
	var out []*term.Term
	for ch := true; ch; {
		ch = false
		for i, t := range all {
			if used[i] {
				continue
			}
			hit := false
			for _, v := range t.Vars() {
				if vs[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				ch = true
				out = append(out, t)
				for _, v := range t.Vars() {
					vs[v] = true
				}
			}
		}
	}
	return out
}

// feasible asks whether pc & t is satisfiable; the returned model extends st.model.
func (st *State) feasible(t *term.Term) (term.Result, term.Model) {
	if t.IsConst() {
		if t.K == 1 {
			return term.SatR, st.model
		}
		return term.UnsatR, nil
	}
	if term.Eval(t, st.model) == 1 {
		return term.SatR, st.model
	}
	if tb := st.vm.table(t); tb != nil {
		v := t.Vars()[0]
		d := st.domain(v)
		any := -1
		for i := 0; i < 4 && any < 0; i++ {
			x := d[i] & tb[i]
			for b := 0; b < 64; b++ {
				if x>>uint(b)&1 == 1 {
					any = i*64 + b
					break
				}
			}
		}
		if any < 0 {
			return term.UnsatR, nil
		}
		if !st.inMulti(v) {
			return term.SatR, st.extend(term.Model{v: uint64(any)})
		}
	}
	r, m := st.vm.S.Check(append(st.slice(t), t))
	if r == term.SatR {
		return r, st.extend(m)
	}
	return r, nil
}

// refutable asks the solver whether pc & t is satisfiable (no table shortcut).
func (st *State) refutable(t *term.Term) (term.Result, term.Model) {
	if t.IsConst() || term.Eval(t, st.model) == 1 {
		return st.feasible(t)
	}
	r, m := st.vm.S.Check(append(st.slice(t), t))
	if r == term.SatR {
		return r, st.extend(m)
	}
	return r, nil
}

func (st *State) extend(m term.Model) term.Model {
	n := make(term.Model, len(st.model)+len(m))
	for k, v := range st.model {
		n[k] = v
	}
	for k, v := range m {
		n[k] = v
	}
	return n
}

// assume adds c or ends the path.
func (st *State) assume(c *term.Term) {
	if k, ok := st.known(c); ok {
		if !k {
			panic(pathEnd{"infeasible"})
		}
		return
	}
	r, m := st.feasible(c)
	switch r {
	case term.UnsatR:
		panic(pathEnd{"infeasible"})
	case term.UnknownR:
		panic(pathEnd{"solver unknown"})
	}
	st.model = m
	st.addPC(c)
}

// branch decides c on this path, forking if both outcomes are possible.
func (st *State) branch(c *term.Term) bool {
	if c.IsConst() {
		return c.K == 1
	}
	if k, ok := st.known(c); ok {
		return k
	}
	if st.isInit {
		st.vm.unsupported("symbolic branch in init")
	}
	mv := term.Eval(c, st.model) == 1
	side, other := c, st.vm.C.Not(c)
	if !mv {
		side, other = other, side
	}
	r, m := st.feasible(other)
	switch r {
	case term.UnsatR:
		st.facts = &factNode{st.facts, side}
	case term.UnknownR:
		st.vm.Res.Cut["solver unknown (one side not explored)"]++
		st.addPC(side)
	default:
		sib := st.clone()
		sib.model = m
		sib.addPC(other)
		st.vm.push(sib)
		st.addPC(side)
	}
	return mv
}

// choose picks one of n alternatives, forking over all.
func (st *State) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if st.choicePos < len(st.choices) {
		r := st.choices[st.choicePos]
		st.choicePos++
		return r
	}
	for k := n - 1; k >= 1; k-- {
		sib := st.clone()
		sib.choices = append(sib.choices, k)
		st.vm.push(sib)
	}
	st.choices = append(st.choices, 0)
	st.choicePos++
	return 0
}

func (vm *VM) push(s *State) {
	vm.Res.Forks++
	vm.work = append(vm.work, s)
}

// concretize picks a value for t, forking over all feasible values.
func (st *State) concretize(t *term.Term) uint64 {
	for i := 0; ; i++ {
		if t.IsConst() {
			return t.K
		}
		// known equality?
		v := term.Eval(t, st.model)
		k := st.vm.C.Const(v, t.S)
		if st.branch(st.vm.C.Eq(t, k)) {
			return v
		}
		if i > 4096 {
			st.vm.unsupported("too many values")
		}
	}
}

func (st *State) concInt(v Value) int {
	t, ok := v.(*term.Term)
	if !ok {
		st.vm.unsupported("integer expected, got %T", v)
	}
	if t.IsConst() {
		return int(t.SVal())
	}
	x := st.concretize(t)
	return int(st.vm.C.Const(x, t.S).SVal())
}

// ---- results ----

func (st *State) logEntries(m term.Model) []LogEntry {
	var out []LogEntry
	for n := st.log; n != nil; n = n.prev {
		e := LogEntry{Tid: n.tid, Kind: n.kind, Name: n.name}
		if n.t != nil {
			e.Val = term.Eval(n.t, m)
		}
		if n.kind == "str" {
			e.Str = make([]byte, len(n.b))
			for i, b := range n.b {
				e.Str[i] = byte(term.Eval(b, m))
			}
		}
		out = append(out, e)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func (st *State) obsStrings(m term.Model) []string {
	var out []string
	for n := st.obs; n != nil; n = n.prev {
		out = append(out, n.label+"="+st.render(n.v, m, 0))
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func (st *State) render(v Value, m term.Model, d int) string {
	switch x := v.(type) {
	case *term.Term:
		val := term.Eval(x, m)
		if x.S == term.Bool {
			return fmt.Sprint(val == 1)
		}
		return fmt.Sprint(st.vm.C.Const(val, x.S).SVal())
	case *Str:
		return fmt.Sprintf("%q", st.strModel(x, m))
	case Iface:
		if x.t == nil {
			return "nil"
		}
		return st.render(x.v, m, d)
	case *ArrObs:
		var sb strings.Builder
		sb.WriteByte('[')
		for i, e := range x.vals {
			if i > 0 {
				sb.WriteByte(' ')
			}
			sb.WriteString(st.render(e, m, d+1))
		}
		sb.WriteByte(']')
		return sb.String()
	case *Slice:
		if x == nil {
			return "[]"
		}
		var sb strings.Builder
		sb.WriteByte('[')
		for i := 0; i < x.len; i++ {
			if i > 0 {
				sb.WriteByte(' ')
			}
			sb.WriteString(st.render(st.sliceAt(x, i), m, d+1))
		}
		sb.WriteByte(']')
		return sb.String()
	}
	return fmt.Sprintf("%T", v)
}

func (st *State) strModel(x *Str, m term.Model) string {
	if x.conc {
		return x.s
	}
	b := make([]byte, len(x.b))
	for i, t := range x.b {
		b[i] = byte(term.Eval(t, m))
	}
	return string(b)
}

func (st *State) stack() []string {
	var out []string
	t := st.th()
	for i := len(t.frames) - 1; i >= 0; i-- {
		f := t.frames[i]
		pos := ""
		if f.pc < len(f.fi.blocks[f.block].ins) {
			p := f.fi.fn.Prog.Fset.Position(f.fi.blocks[f.block].ins[f.pc].i.Pos())
			if p.IsValid() {
				pos = fmt.Sprintf("%s:%d", p.Filename, p.Line)
			}
		}
		out = append(out, f.fi.name+" "+pos)
	}
	return out
}

func (st *State) violation(kind, msg string, m term.Model) {
	res := st.vm.Res
	if kind == "panic" && m == nil {
		m = st.model
	}
	if m == nil {
		m = st.model
	}
	n := 0
	for _, v := range res.Viol {
		if v.Kind == kind && v.Msg == msg {
			n++
		}
	}
	if n >= st.vm.Lim.MaxViol {
		res.Cut["further counterexamples of a reported violation"]++
		return
	}
	v := &Violation{Kind: kind, Msg: msg, Log: st.logEntries(m), Obs: st.obsStrings(m), Case: st.vm.case_, Threads: st.nthreads}
	v.Sched = append(v.Sched, st.sched...)
	v.Stack = st.stack()
	res.Viol = append(res.Viol, v)
}
