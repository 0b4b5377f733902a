// Package term implements hash-consed bit-vector, boolean and floating point terms with simplification.
package term

import (
	"fmt"
	"math"
	"math/bits"
	"sort"
	"strings"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OIte
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OBAnd
	OBOr
	OBXor
	OShl
	OLShr
	OAShr
	ONeg
	OBNot
	OUlt
	OUle
	OSlt
	OSle
	OConcat
	OExtract // K = hi<<8|lo
	OZExt
	OSExt
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFNeg
	OFLt
	OFLe
	OFEq
	OFFromS
	OFFromU
	OFToS
)

var opName = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OIte: "ite", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul",
	OUDiv: "bvudiv", OSDiv: "bvsdiv", OURem: "bvurem", OSRem: "bvsrem", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OShl: "bvshl",
	OLShr: "bvlshr", OAShr: "bvashr", ONeg: "bvneg", OBNot: "bvnot", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle", OConcat: "concat",
	OFAdd: "fp.add RNE", OFSub: "fp.sub RNE", OFMul: "fp.mul RNE", OFDiv: "fp.div RNE", OFNeg: "fp.neg", OFLt: "fp.lt", OFLe: "fp.leq", OFEq: "fp.eq"}

// Sort: 0 = Bool, n>0 = bit-vector of width n, -64 = float64.
type Sort int16

const (
	Bool Sort = 0
	F64  Sort = -64
)

type Term struct {
	Op   Op
	S    Sort
	K    uint64
	A    []*Term
	Name string
	ID   int32
	vars []int32 // ids of variables, sorted
	hasF bool
}

func (t *Term) IsConst() bool  { return t.Op == OConst }
func (t *Term) IsTrue() bool   { return t.Op == OConst && t.S == Bool && t.K == 1 }
func (t *Term) IsFalse() bool  { return t.Op == OConst && t.S == Bool && t.K == 0 }
func (t *Term) Vars() []int32  { return t.vars }
func (t *Term) HasFloat() bool { return t.hasF }

type key struct {
	op      Op
	s       Sort
	k       uint64
	a, b, c int32
}

// Ctx owns terms. Not safe for concurrent use.
type Ctx struct {
	tab   map[key]*Term
	ntab  map[string]*Term // n-ary and/or
	next  int32
	True  *Term
	False *Term
	nvar  map[string]int
	ByID  []*Term
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[key]*Term{}, ntab: map[string]*Term{}, nvar: map[string]int{}}
	c.True = c.mk(OConst, Bool, 1)
	c.False = c.mk(OConst, Bool, 0)
	return c
}

func mask(w Sort) uint64 {
	if w >= 64 || w < 0 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func sx(v uint64, w Sort) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := uint(64 - w)
	return int64(v<<sh) >> sh
}

func mergeVars(a, b []int32) []int32 {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	if len(a) == len(b) {
		same := true
		for i := range a {
			if a[i] != b[i] {
				same = false
				break
			}
		}
		if same {
			return a
		}
	}
	out := make([]int32, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		switch {
		case a[i] == b[j]:
			out = append(out, a[i])
			i++
			j++
		case a[i] < b[j]:
			out = append(out, a[i])
			i++
		default:
			out = append(out, b[j])
			j++
		}
	}
	out = append(out, a[i:]...)
	out = append(out, b[j:]...)
	if len(out) == len(a) {
		return a
	}
	if len(out) == len(b) {
		return b
	}
	return out
}

func (c *Ctx) mk(op Op, s Sort, k uint64, a ...*Term) *Term {
	var t *Term
	if len(a) > 3 || op == OAnd || op == OOr {
		var sb strings.Builder
		sb.WriteByte(byte(op))
		for _, x := range a {
			fmt.Fprintf(&sb, "%d,", x.ID)
		}
		ks := sb.String()
		if t = c.ntab[ks]; t != nil {
			return t
		}
		t = &Term{Op: op, S: s, K: k, A: a}
		c.ntab[ks] = t
	} else {
		kk := key{op: op, s: s, k: k, a: -1, b: -1, c: -1}
		switch len(a) {
		case 3:
			kk.c = a[2].ID
			fallthrough
		case 2:
			kk.b = a[1].ID
			fallthrough
		case 1:
			kk.a = a[0].ID
		}
		if t = c.tab[kk]; t != nil {
			return t
		}
		t = &Term{Op: op, S: s, K: k, A: append([]*Term(nil), a...)}
		c.tab[kk] = t
	}
	t.ID = c.next
	c.next++
	c.ByID = append(c.ByID, t)
	t.hasF = s < 0
	for _, x := range a {
		t.vars = mergeVars(t.vars, x.vars)
		t.hasF = t.hasF || x.hasF
	}
	return t
}

// Var creates a fresh variable.
func (c *Ctx) Var(name string, s Sort) *Term {
	n := c.nvar[name]
	c.nvar[name]++
	if n > 0 {
		name = fmt.Sprintf("%s!%d", name, n)
	}
	t := &Term{Op: OVar, S: s, Name: name, ID: c.next, hasF: s < 0}
	c.next++
	c.ByID = append(c.ByID, t)
	t.vars = []int32{t.ID}
	return t
}

func (c *Ctx) Const(v uint64, s Sort) *Term {
	if s == Bool {
		if v != 0 {
			return c.True
		}
		return c.False
	}
	return c.mk(OConst, s, v&mask(s))
}
func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}
func (c *Ctx) Float(f float64) *Term { return c.mk(OConst, F64, math.Float64bits(f)) }

func (c *Ctx) Not(a *Term) *Term {
	if a.IsConst() {
		return c.Bool(a.K == 0)
	}
	if a.Op == ONot {
		return a.A[0]
	}
	return c.mk(ONot, Bool, 0, a)
}

func (c *Ctx) And(ts ...*Term) *Term { return c.nary(OAnd, ts) }
func (c *Ctx) Or(ts ...*Term) *Term  { return c.nary(OOr, ts) }

func (c *Ctx) nary(op Op, ts []*Term) *Term {
	unit, zero := c.True, c.False
	if op == OOr {
		unit, zero = c.False, c.True
	}
	if len(ts) == 1 {
		return ts[0]
	}
	var out []*Term
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == unit {
			return true
		}
		if t == zero {
			return false
		}
		if t.Op == op {
			for _, x := range t.A {
				if !add(x) {
					return false
				}
			}
			return true
		}
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	w := 1
	for i := 1; i < len(out); i++ {
		if out[i] != out[w-1] {
			out[w] = out[i]
			w++
		}
	}
	out = out[:w]
	if len(out) == 1 {
		return out[0]
	}
	// complements, and absorption of (or (not x) y) against x inside an And (and dually)
	if len(out) <= 64 {
		has := func(x *Term) bool {
			i := sort.Search(len(out), func(i int) bool { return out[i].ID >= x.ID })
			return i < len(out) && out[i] == x
		}
		dual := OOr
		if op == OOr {
			dual = OAnd
		}
		changed := false
		for i, t := range out {
			if t.Op == ONot && has(t.A[0]) {
				return zero
			}
			if t.Op == dual {
				var keep []*Term
				drop := false
				red := false
				for _, x := range t.A {
					if has(x) {
						drop = true
						break
					}
					nx := x
					if x.Op == ONot {
						nx = x.A[0]
					} else {
						nx = nil
					}
					comp := false
					if nx != nil && has(nx) {
						comp = true
					} else if nx == nil {
						// is Not(x) in out?
						for _, o := range out {
							if o.Op == ONot && o.A[0] == x {
								comp = true
								break
							}
						}
					}
					if comp {
						red = true
						continue
					}
					keep = append(keep, x)
				}
				if drop {
					out[i] = unit
					changed = true
					// rebuild now: indices by ID are broken
					return c.nary(op, append([]*Term(nil), out...))
				}
				if red {
					n := append([]*Term(nil), out...)
					n[i] = c.nary(dual, keep)
					if len(keep) == 0 {
						n[i] = zero
					}
					return c.nary(op, n)
				}
			}
		}
		_ = changed
	}
	return c.mk(op, Bool, 0, out...)
}

// leaves counts constant leaves of an ite tree; returns false if a non-constant leaf exists or too many.
func constLeaves(t *Term, budget *int) bool {
	*budget--
	if *budget < 0 {
		return false
	}
	if t.IsConst() {
		return true
	}
	if t.Op == OIte {
		return constLeaves(t.A[1], budget) && constLeaves(t.A[2], budget)
	}
	return false
}

func isConstIte(t *Term) bool {
	if t.Op != OIte {
		return false
	}
	b := 600
	return constLeaves(t, &b)
}

func (c *Ctx) mapIte(t *Term, f func(*Term) *Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(*Term) *Term
	rec = func(x *Term) *Term {
		if x.IsConst() {
			return f(x)
		}
		if r, ok := memo[x]; ok {
			return r
		}
		r := c.Ite(x.A[0], rec(x.A[1]), rec(x.A[2]))
		memo[x] = r
		return r
	}
	return rec(t)
}

func (c *Ctx) Ite(cond, a, b *Term) *Term {
	if cond.IsConst() {
		if cond.K == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if cond.Op == ONot {
		return c.Ite(cond.A[0], b, a)
	}
	if a.S == Bool {
		if a.IsTrue() {
			return c.Or(cond, b)
		}
		if a.IsFalse() {
			return c.And(c.Not(cond), b)
		}
		if b.IsTrue() {
			return c.Or(c.Not(cond), a)
		}
		if b.IsFalse() {
			return c.And(cond, a)
		}
		if a == cond {
			return c.Or(cond, b)
		}
		if b == cond {
			return c.And(cond, a)
		}
	}
	if a.Op == OIte && a.A[0] == cond {
		a = a.A[1]
	}
	if b.Op == OIte && b.A[0] == cond {
		b = b.A[2]
	}
	if a == b {
		return a
	}
	// ite(c1, x, ite(c2, x, y)) -> ite(c1|c2, x, y)
	if b.Op == OIte && b.A[1] == a {
		return c.Ite(c.Or(cond, b.A[0]), a, b.A[2])
	}
	return c.mk(OIte, a.S, 0, cond, a, b)
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		if a.S == F64 {
			panic("Eq on float")
		}
		return c.True
	}
	if a.S != b.S {
		panic(fmt.Sprintf("Eq sort mismatch %d %d: %s vs %s", a.S, b.S, a, b))
	}
	if a.IsConst() && b.IsConst() {
		return c.Bool(a.K == b.K)
	}
	if a.IsConst() {
		a, b = b, a
	}
	if b.IsConst() {
		if a.S == Bool {
			if b.K == 1 {
				return a
			}
			return c.Not(a)
		}
		if isConstIte(a) {
			return c.mapIte(a, func(x *Term) *Term { return c.Eq(x, b) })
		}
		switch a.Op {
		case OZExt:
			in := a.A[0]
			if b.K&^mask(in.S) != 0 {
				return c.False
			}
			return c.Eq(in, c.Const(b.K, in.S))
		case OSExt:
			in := a.A[0]
			if uint64(sx(b.K&mask(in.S), in.S))&mask(a.S) != b.K {
				return c.False
			}
			return c.Eq(in, c.Const(b.K, in.S))
		case OAdd:
			if a.A[1].IsConst() {
				return c.Eq(a.A[0], c.Const(b.K-a.A[1].K, a.S))
			}
		case OIte:
			if a.A[1].IsConst() || a.A[2].IsConst() {
				return c.Ite(a.A[0], c.Eq(a.A[1], b), c.Eq(a.A[2], b))
			}
		}
	} else if a.Op == OZExt && b.Op == OZExt && a.A[0].S == b.A[0].S {
		return c.Eq(a.A[0], b.A[0])
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return c.mk(OEq, Bool, 0, a, b)
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// EvalOp evaluates op on constants.
func EvalOp(op Op, s Sort, k uint64, a []uint64, as []Sort) uint64 {
	f := func(i int) float64 { return math.Float64frombits(a[i]) }
	switch op {
	case ONot:
		return 1 - a[0]
	case OAnd:
		for _, x := range a {
			if x == 0 {
				return 0
			}
		}
		return 1
	case OOr:
		for _, x := range a {
			if x == 1 {
				return 1
			}
		}
		return 0
	case OEq:
		return b2u(a[0] == a[1])
	case OIte:
		if a[0] == 1 {
			return a[1]
		}
		return a[2]
	case OAdd:
		return (a[0] + a[1]) & mask(s)
	case OSub:
		return (a[0] - a[1]) & mask(s)
	case OMul:
		return (a[0] * a[1]) & mask(s)
	case OUDiv:
		if a[1] == 0 {
			return mask(s)
		}
		return a[0] / a[1]
	case OURem:
		if a[1] == 0 {
			return a[0]
		}
		return a[0] % a[1]
	case OSDiv:
		x, y := sx(a[0], s), sx(a[1], s)
		if y == 0 {
			if x < 0 {
				return 1
			}
			return mask(s)
		}
		if y == -1 {
			return uint64(-x) & mask(s)
		}
		return uint64(x/y) & mask(s)
	case OSRem:
		x, y := sx(a[0], s), sx(a[1], s)
		if y == 0 {
			return a[0]
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & mask(s)
	case OBAnd:
		return a[0] & a[1]
	case OBOr:
		return a[0] | a[1]
	case OBXor:
		return a[0] ^ a[1]
	case OShl:
		if a[1] >= uint64(s) {
			return 0
		}
		return (a[0] << a[1]) & mask(s)
	case OLShr:
		if a[1] >= uint64(s) {
			return 0
		}
		return a[0] >> a[1]
	case OAShr:
		sh := a[1]
		if sh >= uint64(s) {
			sh = 63
		}
		return uint64(sx(a[0], s)>>sh) & mask(s)
	case ONeg:
		return (-a[0]) & mask(s)
	case OBNot:
		return (^a[0]) & mask(s)
	case OUlt:
		return b2u(a[0] < a[1])
	case OUle:
		return b2u(a[0] <= a[1])
	case OSlt:
		return b2u(sx(a[0], as[0]) < sx(a[1], as[0]))
	case OSle:
		return b2u(sx(a[0], as[0]) <= sx(a[1], as[0]))
	case OConcat:
		return (a[0]<<uint(as[1]) | a[1]) & mask(s)
	case OExtract:
		return (a[0] >> (k & 0xff)) & mask(s)
	case OZExt:
		return a[0]
	case OSExt:
		return uint64(sx(a[0], as[0])) & mask(s)
	case OFAdd:
		return math.Float64bits(f(0) + f(1))
	case OFSub:
		return math.Float64bits(f(0) - f(1))
	case OFMul:
		return math.Float64bits(f(0) * f(1))
	case OFDiv:
		return math.Float64bits(f(0) / f(1))
	case OFNeg:
		return math.Float64bits(-f(0))
	case OFLt:
		return b2u(f(0) < f(1))
	case OFLe:
		return b2u(f(0) <= f(1))
	case OFEq:
		return b2u(f(0) == f(1))
	case OFFromS:
		return math.Float64bits(float64(sx(a[0], as[0])))
	case OFFromU:
		return math.Float64bits(float64(a[0]))
	case OFToS:
		return uint64(int64(f(0))) & mask(s)
	}
	panic("EvalOp")
}

// Bin builds a binary bit-vector or float operation.
func (c *Ctx) Bin(op Op, a, b *Term) *Term {
	s := a.S
	if op == OUlt || op == OUle || op == OSlt || op == OSle || op == OFLt || op == OFLe || op == OFEq {
		s = Bool
	}
	if a.S != b.S {
		panic(fmt.Sprintf("Bin %s sort mismatch %d %d", opName[op], a.S, b.S))
	}
	if a.IsConst() && b.IsConst() {
		return c.Const(EvalOp(op, s, 0, []uint64{a.K, b.K}, []Sort{a.S, b.S}), s)
	}
	if b.IsConst() && isConstIte(a) {
		return c.mapIte(a, func(x *Term) *Term { return c.Bin(op, x, b) })
	}
	if a.IsConst() && isConstIte(b) {
		return c.mapIte(b, func(x *Term) *Term { return c.Bin(op, a, x) })
	}
	if (op == OAdd || op == OSub) && a.S >= 32 {
		if t := c.linear(op, a, b); t != nil {
			return t
		}
	}
	if a.S > 0 {
		zero := func(t *Term) bool { return t.IsConst() && t.K == 0 }
		switch op {
		case OAdd:
			if zero(b) {
				return a
			}
			if zero(a) {
				return b
			}
			if a.IsConst() {
				a, b = b, a
			}
			if b.IsConst() && a.Op == OAdd && a.A[1].IsConst() {
				return c.Bin(OAdd, a.A[0], c.Const(a.A[1].K+b.K, a.S))
			}
		case OSub:
			if zero(b) {
				return a
			}
			if a == b {
				return c.Const(0, a.S)
			}
			if b.IsConst() {
				return c.Bin(OAdd, a, c.Const(-b.K, a.S))
			}
			if a.Op == OAdd && a.A[0] == b {
				return a.A[1]
			}
			if a.Op == OAdd && a.A[1] == b {
				return a.A[0]
			}
		case OMul:
			if zero(a) || zero(b) {
				return c.Const(0, a.S)
			}
			if b.IsConst() && b.K == 1 {
				return a
			}
			if a.IsConst() && a.K == 1 {
				return b
			}
		case OBAnd:
			if zero(a) || zero(b) {
				return c.Const(0, a.S)
			}
			if a == b {
				return a
			}
			if b.IsConst() && b.K == mask(b.S) {
				return a
			}
		case OBOr, OBXor:
			if zero(b) {
				return a
			}
			if zero(a) {
				return b
			}
			if a == b {
				if op == OBOr {
					return a
				}
				return c.Const(0, a.S)
			}
		case OShl, OLShr, OAShr:
			if zero(b) {
				return a
			}
		case OUlt:
			if a == b || zero(b) {
				return c.False
			}
			if a.Op == OZExt && b.IsConst() && b.K > mask(a.A[0].S) {
				return c.True
			}
			if a.Op == OZExt && b.IsConst() {
				return c.Bin(OUlt, a.A[0], c.Const(b.K, a.A[0].S))
			}
		case OUle:
			if a == b || zero(a) {
				return c.True
			}
			if a.Op == OZExt && b.IsConst() {
				if b.K >= mask(a.A[0].S) {
					return c.True
				}
				return c.Bin(OUle, a.A[0], c.Const(b.K, a.A[0].S))
			}
		case OSlt:
			if a == b {
				return c.False
			}
			// zero-extended operands are non-negative
			if a.Op == OZExt && b.IsConst() && a.A[0].S < a.S {
				if sx(b.K, b.S) <= 0 {
					return c.False
				}
				return c.Bin(OUlt, a, b)
			}
			if b.Op == OZExt && a.IsConst() && b.A[0].S < b.S {
				if sx(a.K, a.S) < 0 {
					return c.True
				}
				return c.Bin(OUlt, a, b)
			}
		case OSle:
			if a == b {
				return c.True
			}
			if a.Op == OZExt && b.IsConst() && a.A[0].S < a.S {
				if sx(b.K, b.S) < 0 {
					return c.False
				}
				return c.Bin(OUle, a, b)
			}
			if b.Op == OZExt && a.IsConst() && b.A[0].S < b.S {
				if sx(a.K, a.S) <= 0 {
					return c.True
				}
				return c.Bin(OUle, a, b)
			}
		}
	}
	return c.mk(op, s, 0, a, b)
}

type linForm struct {
	atoms []*Term // sorted by ID
	coef  []uint64
	k     uint64
}

func (l *linForm) add(t *Term, m uint64) bool {
	switch {
	case t.IsConst():
		l.k += t.K * m
		return true
	case t.Op == OAdd:
		return l.add(t.A[0], m) && l.add(t.A[1], m)
	case t.Op == OSub:
		return l.add(t.A[0], m) && l.add(t.A[1], -m)
	case t.Op == OMul && t.A[1].IsConst():
		return l.add(t.A[0], m*t.A[1].K)
	}
	for i, a := range l.atoms {
		if a == t {
			l.coef[i] += m
			return true
		}
	}
	if len(l.atoms) >= 24 {
		return false
	}
	i := len(l.atoms)
	l.atoms = append(l.atoms, t)
	l.coef = append(l.coef, m)
	for ; i > 0 && l.atoms[i-1].ID > t.ID; i-- {
		l.atoms[i], l.coef[i] = l.atoms[i-1], l.coef[i-1]
	}
	l.atoms[i], l.coef[i] = t, m
	return true
}

// linear returns the canonical form of a sum or difference.
func (c *Ctx) linear(op Op, a, b *Term) *Term {
	var l linForm
	m := uint64(1)
	if op == OSub {
		m = -m
	}
	if !l.add(a, 1) || !l.add(b, m) {
		return nil
	}
	s := a.S
	mk := mask(s)
	var pos, neg []*Term
	for i, t := range l.atoms {
		switch k := l.coef[i] & mk; k {
		case 0:
		case 1:
			pos = append(pos, t)
		case mk:
			neg = append(neg, t)
		default:
			pos = append(pos, c.mk(OMul, s, 0, t, c.Const(k, s)))
		}
	}
	var r *Term
	for _, t := range pos {
		if r == nil {
			r = t
		} else {
			r = c.mk(OAdd, s, 0, r, t)
		}
	}
	k := l.k & mk
	if r == nil {
		r = c.Const(k, s)
		k = 0
	}
	for _, t := range neg {
		r = c.mk(OSub, s, 0, r, t)
	}
	if k != 0 {
		r = c.mk(OAdd, s, 0, r, c.Const(k, s))
	}
	return r
}

func (c *Ctx) Un(op Op, a *Term) *Term {
	if a.IsConst() {
		return c.Const(EvalOp(op, a.S, 0, []uint64{a.K}, []Sort{a.S}), a.S)
	}
	if isConstIte(a) {
		return c.mapIte(a, func(x *Term) *Term { return c.Un(op, x) })
	}
	return c.mk(op, a.S, 0, a)
}

// Conv changes width: signed tells how to extend.
func (c *Ctx) Conv(a *Term, to Sort, signed bool) *Term {
	if a.S == to {
		return a
	}
	if a.S <= 0 || to <= 0 {
		panic(fmt.Sprintf("Conv %d -> %d", a.S, to))
	}
	if a.IsConst() {
		if to < a.S {
			return c.Const(a.K, to)
		}
		if signed {
			return c.Const(uint64(sx(a.K, a.S)), to)
		}
		return c.Const(a.K, to)
	}
	if isConstIte(a) {
		return c.mapIte(a, func(x *Term) *Term { return c.Conv(x, to, signed) })
	}
	if to < a.S {
		if a.Op == OZExt || a.Op == OSExt {
			in := a.A[0]
			if in.S == to {
				return in
			}
			if in.S > to {
				return c.Conv(in, to, false)
			}
			return c.Conv(in, to, a.Op == OSExt)
		}
		return c.mk(OExtract, to, uint64(to-1)<<8, a)
	}
	if a.Op == OZExt {
		return c.mk(OZExt, to, 0, a.A[0])
	}
	if signed {
		return c.mk(OSExt, to, 0, a)
	}
	return c.mk(OZExt, to, 0, a)
}

func (c *Ctx) Extract(a *Term, hi, lo int) *Term {
	s := Sort(hi - lo + 1)
	if a.IsConst() {
		return c.Const(a.K>>uint(lo), s)
	}
	if lo == 0 && s == a.S {
		return a
	}
	return c.mk(OExtract, s, uint64(hi)<<8|uint64(lo), a)
}

func (c *Ctx) Concat(a, b *Term) *Term {
	s := a.S + b.S
	if a.IsConst() && b.IsConst() {
		return c.Const(a.K<<uint(b.S)|b.K, s)
	}
	return c.mk(OConcat, s, 0, a, b)
}

func (c *Ctx) FromInt(a *Term, signed bool) *Term {
	op := OFFromU
	if signed {
		op = OFFromS
	}
	if a.IsConst() {
		return c.Const(EvalOp(op, F64, 0, []uint64{a.K}, []Sort{a.S}), F64)
	}
	return c.mk(op, F64, 0, a)
}
func (c *Ctx) ToInt(a *Term, w Sort) *Term {
	if a.IsConst() {
		return c.Const(EvalOp(OFToS, w, 0, []uint64{a.K}, []Sort{a.S}), w)
	}
	return c.mk(OFToS, w, 0, a)
}

func (t *Term) SVal() int64 { return sx(t.K, t.S) }

func (t *Term) String() string { return t.str(6) }
func (t *Term) str(d int) string {
	switch t.Op {
	case OConst:
		if t.S == Bool {
			return fmt.Sprint(t.K == 1)
		}
		if t.S == F64 {
			return fmt.Sprint(math.Float64frombits(t.K))
		}
		return fmt.Sprintf("%d", t.K)
	case OVar:
		return t.Name
	}
	if d == 0 {
		return "…"
	}
	var sb strings.Builder
	n := opName[t.Op]
	if n == "" {
		n = fmt.Sprintf("op%d", t.Op)
	}
	sb.WriteString("(" + n)
	for _, a := range t.A {
		sb.WriteString(" " + a.str(d-1))
	}
	sb.WriteString(")")
	return sb.String()
}

// Model maps variable ids to values. Missing variables are 0.
type Model map[int32]uint64

// Eval evaluates t under m.
func Eval(t *Term, m Model) uint64 {
	if t.IsConst() {
		return t.K
	}
	if t.Op == OVar {
		return m[t.ID]
	}
	memo := map[int32]uint64{}
	return eval(t, m, memo)
}

func eval(t *Term, m Model, memo map[int32]uint64) uint64 {
	switch t.Op {
	case OConst:
		return t.K
	case OVar:
		return m[t.ID]
	case ONot:
		return 1 - eval(t.A[0], m, memo)
	}
	if v, ok := memo[t.ID]; ok {
		return v
	}
	var r uint64
	switch t.Op {
	case OAnd:
		r = 1
		for _, x := range t.A {
			if eval(x, m, memo) == 0 {
				r = 0
				break
			}
		}
	case OOr:
		for _, x := range t.A {
			if eval(x, m, memo) == 1 {
				r = 1
				break
			}
		}
	case OIte:
		if eval(t.A[0], m, memo) == 1 {
			r = eval(t.A[1], m, memo)
		} else {
			r = eval(t.A[2], m, memo)
		}
	default:
		var av [3]uint64
		var as [3]Sort
		for i, x := range t.A {
			av[i] = eval(x, m, memo)
			as[i] = x.S
		}
		r = EvalOp(t.Op, t.S, t.K, av[:len(t.A)], as[:len(t.A)])
	}
	memo[t.ID] = r
	return r
}

// Size counts distinct nodes up to a limit.
func Size(t *Term, limit int) int {
	seen := map[*Term]bool{}
	var rec func(*Term)
	rec = func(x *Term) {
		if seen[x] || len(seen) > limit {
			return
		}
		seen[x] = true
		for _, a := range x.A {
			rec(a)
		}
	}
	rec(t)
	return len(seen)
}

var _ = bits.Len
