package vm

import (
	"fmt"
	"go/types"
	"strings"

	"gosym/term"

	"golang.org/x/tools/go/ssa"
)

// Value is one of: *term.Term, *Str, *Ptr, *Slice, *MapRef, Iface, *Closure, *StructV, *ArrV, Tuple,
// *ChanRef, *SymPtr, *MapIter, *StrIter, Poison, nil (no value).
type Value interface{}

// Str is an immutable string with concrete length.
type Str struct {
	s    string
	b    []*term.Term // nil if concrete
	conc bool
}

func mkStr(s string) *Str { return &Str{s: s, conc: true} }

func (s *Str) Len() int {
	if s.conc {
		return len(s.s)
	}
	return len(s.b)
}

func (vm *VM) strAt(s *Str, i int) *term.Term {
	if s.conc {
		return vm.byteC[s.s[i]]
	}
	return s.b[i]
}

func (vm *VM) strFromBytes(b []*term.Term) *Str {
	conc := true
	for _, t := range b {
		if !t.IsConst() {
			conc = false
			break
		}
	}
	if conc {
		bs := make([]byte, len(b))
		for i, t := range b {
			bs[i] = byte(t.K)
		}
		return mkStr(string(bs))
	}
	return &Str{b: b}
}

func (vm *VM) strBytes(s *Str) []*term.Term {
	if !s.conc {
		return s.b
	}
	out := make([]*term.Term, len(s.s))
	for i := 0; i < len(s.s); i++ {
		out[i] = vm.byteC[s.s[i]]
	}
	return out
}

func (vm *VM) strSlice(s *Str, lo, hi int) *Str {
	if s.conc {
		return mkStr(s.s[lo:hi])
	}
	return vm.strFromBytes(s.b[lo:hi])
}

func (vm *VM) strConcat(a, b *Str) *Str {
	if a.conc && b.conc {
		return mkStr(a.s + b.s)
	}
	if a.Len() == 0 {
		return b
	}
	if b.Len() == 0 {
		return a
	}
	x := vm.strBytes(a)
	y := vm.strBytes(b)
	out := make([]*term.Term, 0, len(x)+len(y))
	out = append(out, x...)
	out = append(out, y...)
	return &Str{b: out}
}

func (vm *VM) strEq(a, b *Str) *term.Term {
	if a == b {
		return vm.C.True
	}
	if a.Len() != b.Len() {
		return vm.C.False
	}
	if a.conc && b.conc {
		return vm.C.Bool(a.s == b.s)
	}
	n := a.Len()
	ts := make([]*term.Term, 0, n)
	for i := 0; i < n; i++ {
		e := vm.C.Eq(vm.strAt(a, i), vm.strAt(b, i))
		if e.IsFalse() {
			return e
		}
		ts = append(ts, e)
	}
	if n == 0 {
		return vm.C.True
	}
	return vm.C.And(ts...)
}

// strLess is a < b.
func (vm *VM) strLess(a, b *Str) *term.Term {
	if a.conc && b.conc {
		return vm.C.Bool(a.s < b.s)
	}
	n := a.Len()
	if b.Len() < n {
		n = b.Len()
	}
	r := vm.C.Bool(a.Len() < b.Len())
	for i := n - 1; i >= 0; i-- {
		x, y := vm.strAt(a, i), vm.strAt(b, i)
		r = vm.C.Or(vm.C.Bin(term.OUlt, x, y), vm.C.And(vm.C.Eq(x, y), r))
	}
	return r
}

// Ptr points into a heap object. A nil *Ptr is the nil pointer.
type Ptr struct {
	obj  int64
	path []int32
}

func (p *Ptr) sub(i int) *Ptr {
	np := make([]int32, len(p.path)+1)
	copy(np, p.path)
	np[len(p.path)] = int32(i)
	return &Ptr{p.obj, np}
}

func ptrEq(a, b *Ptr) bool {
	if a == b {
		return true
	}
	if a == nil || b == nil || a.obj != b.obj || len(a.path) != len(b.path) {
		return false
	}
	for i := range a.path {
		if a.path[i] != b.path[i] {
			return false
		}
	}
	return true
}

func (p *Ptr) key() string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d", p.obj)
	for _, x := range p.path {
		fmt.Fprintf(&sb, ".%d", x)
	}
	return sb.String()
}

// SymPtr is the address of arr[off+idx] with a symbolic idx in [0,n).
type SymPtr struct {
	arr *Ptr
	off int
	n   int
	idx *term.Term
}

// Slice. nil *Slice is the nil slice.
type Slice struct {
	arr      *Ptr // pointer to an array value
	off      int
	len, cap int
}

type MapRef struct{ obj int64 }

type MapEntry struct{ k, v Value }

// MapV is the immutable content of a map object.
type MapV struct {
	ents []MapEntry
	idx  map[string]int // concrete key -> index, valid if allConc
	conc bool
}

type Iface struct {
	t types.Type
	v Value
}

type Closure struct {
	fn *ssa.Function
	fv []Value
	bi *ssa.Builtin
}

type StructV struct{ f []Value }

const chunk = 32

// ArrV is a persistent array. Nil chunks hold zero.
type ArrV struct {
	n    int
	zero Value
	ch   []*[chunk]Value
}

func newArr(n int, zero Value) *ArrV {
	return &ArrV{n: n, zero: zero, ch: make([]*[chunk]Value, (n+chunk-1)/chunk)}
}

func (a *ArrV) at(i int) Value {
	c := a.ch[i/chunk]
	if c == nil {
		return a.zero
	}
	return c[i%chunk]
}

func (a *ArrV) set(i int, v Value) *ArrV {
	nch := make([]*[chunk]Value, len(a.ch))
	copy(nch, a.ch)
	r := &ArrV{n: a.n, zero: a.zero, ch: nch}
	r.mutSet(i, v, true)
	return r
}

// mutSet modifies a in place, copying the chunk if fresh is set.
func (a *ArrV) mutSet(i int, v Value, fresh bool) {
	ci := i / chunk
	c := a.ch[ci]
	if c == nil {
		c = new([chunk]Value)
		for j := range c {
			c[j] = a.zero
		}
		a.ch[ci] = c
	} else if fresh {
		nc := *c
		c = &nc
		a.ch[ci] = c
	}
	c[i%chunk] = v
}

func (a *ArrV) cloneDeep() *ArrV {
	r := &ArrV{n: a.n, zero: a.zero, ch: make([]*[chunk]Value, len(a.ch))}
	for i, c := range a.ch {
		if c != nil {
			nc := *c
			r.ch[i] = &nc
		}
	}
	return r
}

type Tuple []Value

type ChanRef struct{ obj int64 }

// ChanV is the immutable content of a channel object.
type ChanV struct {
	cap    int
	buf    []Value
	closed bool
	recvq  []int // threads waiting to receive (unbuffered hand-off)
}

type MapIter struct{ obj int64 } // heap object holding *IterV

// IterV is the immutable state of a range iteration.
type IterV struct {
	m     *MapRef
	keys  []Value
	order bool // choose nondeterministically
	str   *Str
	pos   int
}

type Poison struct{ msg string }

// sameTypes caches identical types.
func identical(a, b types.Type) bool {
	return a == b || types.Identical(a, b)
}

func (vm *VM) intSort(t types.Type) (term.Sort, bool, bool) { // sort, signed, isInt
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	}
	return 0, false, false
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// zero returns the zero value of t (values are immutable, so it is shared).
func (vm *VM) zero(t types.Type) Value {
	if v, ok := vm.zeroCache[t]; ok {
		return v
	}
	v := vm.mkZero(t)
	vm.zeroCache[t] = v
	return v
}

func (vm *VM) mkZero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return vm.C.False
		case u.Info()&types.IsString != 0:
			return vm.emptyStr
		case u.Info()&types.IsFloat != 0:
			return vm.C.Float(0)
		case u.Kind() == types.UnsafePointer:
			return (*Ptr)(nil)
		case u.Kind() == types.UntypedNil:
			return (*Ptr)(nil)
		case u.Info()&types.IsComplex != 0:
			return Poison{"complex"}
		default:
			s, _, ok := vm.intSort(t)
			if !ok {
				return Poison{"zero of " + t.String()}
			}
			return vm.C.Const(0, s)
		}
	case *types.Pointer:
		return (*Ptr)(nil)
	case *types.Slice:
		return (*Slice)(nil)
	case *types.Map:
		return (*MapRef)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Chan:
		return (*ChanRef)(nil)
	case *types.Struct:
		f := make([]Value, u.NumFields())
		for i := range f {
			f[i] = vm.zero(u.Field(i).Type())
		}
		return &StructV{f}
	case *types.Array:
		return newArr(int(u.Len()), vm.zero(u.Elem()))
	case *types.Tuple:
		tp := make(Tuple, u.Len())
		for i := range tp {
			tp[i] = vm.zero(u.At(i).Type())
		}
		return tp
	}
	return Poison{"zero of " + t.String()}
}

// valEq builds the term a == b for comparable values.
func (vm *VM) valEq(a, b Value) *term.Term {
	switch x := a.(type) {
	case *term.Term:
		y, ok := b.(*term.Term)
		if !ok {
			vm.unsupported("compare term with %T", b)
		}
		if x.S == term.F64 {
			return vm.C.Bin(term.OFEq, x, y)
		}
		return vm.C.Eq(x, y)
	case *Str:
		return vm.strEq(x, b.(*Str))
	case *Ptr:
		y, ok := b.(*Ptr)
		if !ok {
			vm.unsupported("compare pointer with %T", b)
		}
		return vm.C.Bool(ptrEq(x, y))
	case *MapRef:
		y := b.(*MapRef)
		return vm.C.Bool(x == y || x != nil && y != nil && x.obj == y.obj)
	case *ChanRef:
		y := b.(*ChanRef)
		return vm.C.Bool(x == y || x != nil && y != nil && x.obj == y.obj)
	case *Slice:
		y := b.(*Slice)
		if x != nil && y != nil {
			vm.unsupported("compare slices")
		}
		return vm.C.Bool(x == nil && y == nil)
	case *Closure:
		y := b.(*Closure)
		if x != nil && y != nil {
			vm.unsupported("compare funcs")
		}
		return vm.C.Bool(x == nil && y == nil)
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			vm.unsupported("compare iface with %T", b)
		}
		if x.t == nil || y.t == nil {
			return vm.C.Bool(x.t == nil && y.t == nil)
		}
		if !identical(x.t, y.t) {
			return vm.C.False
		}
		return vm.valEq(x.v, y.v)
	case *StructV:
		y := b.(*StructV)
		r := vm.C.True
		for i := range x.f {
			r = vm.C.And(r, vm.valEq(x.f[i], y.f[i]))
		}
		return r
	case *ArrV:
		y := b.(*ArrV)
		r := vm.C.True
		for i := 0; i < x.n; i++ {
			r = vm.C.And(r, vm.valEq(x.at(i), y.at(i)))
			if r.IsFalse() {
				return r
			}
		}
		return r
	case Poison:
		vm.unsupported("poison: %s", x.msg)
	}
	vm.unsupported("compare %T", a)
	return nil
}

// concKey returns a string identity for a fully concrete comparable value.
func concKey(v Value) (string, bool) {
	switch x := v.(type) {
	case *term.Term:
		if x.IsConst() {
			return fmt.Sprintf("i%d", x.K), true
		}
	case *Str:
		if x.conc {
			return "s" + x.s, true
		}
	case *Ptr:
		if x == nil {
			return "pnil", true
		}
		return "p" + x.key(), true
	case Iface:
		if x.t == nil {
			return "nil", true
		}
		k, ok := concKey(x.v)
		return "I" + x.t.String() + ":" + k, ok
	case *StructV:
		out := "S"
		for _, f := range x.f {
			k, ok := concKey(f)
			if !ok {
				return "", false
			}
			out += fmt.Sprintf("%d:%s,", len(k), k)
		}
		return out, true
	case *ArrV:
		out := "A"
		for i := 0; i < x.n; i++ {
			k, ok := concKey(x.at(i))
			if !ok {
				return "", false
			}
			out += fmt.Sprintf("%d:%s,", len(k), k)
		}
		return out, true
	}
	return "", false
}

// descend returns the value at path inside v.
func (vm *VM) descend(v Value, path []int32) Value {
	for _, p := range path {
		switch x := v.(type) {
		case *StructV:
			v = x.f[p]
		case *ArrV:
			v = x.at(int(p))
		case Poison:
			vm.unsupported("poison: %s", x.msg)
		default:
			vm.unsupported("descend into %T", v)
		}
	}
	return v
}

// update returns v with the value at path replaced.
func (vm *VM) update(v Value, path []int32, nv Value) Value {
	if len(path) == 0 {
		return nv
	}
	switch x := v.(type) {
	case *StructV:
		nf := make([]Value, len(x.f))
		copy(nf, x.f)
		nf[path[0]] = vm.update(x.f[path[0]], path[1:], nv)
		return &StructV{nf}
	case *ArrV:
		return x.set(int(path[0]), vm.update(x.at(int(path[0])), path[1:], nv))
	}
	vm.unsupported("update into %T", v)
	return nil
}
