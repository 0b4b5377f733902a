package vm

import (
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"

	"gosym/term"

	"golang.org/x/tools/go/ssa"
)

const RepoPrefix = "github.com/redmaner/MaguroHTTP"
const HarnessPrefix = RepoPrefix + "/verif/"

// Ins is a precompiled instruction.
type Ins struct {
	i   ssa.Instruction
	dst int32
	a   []int32 // operand slots
	t   types.Type
	// call
	com      *ssa.CallCommon
	fn       *ssa.Function // static callee
	key      string        // redirect/intrinsic key of the static callee
	bi       *ssa.Builtin
	hdl      handler
	noh      bool
	isGo     bool
	isDfr    bool
	recvIntf bool
}

type Block struct {
	ins   []*Ins
	nphi  int
	succs []int
	idx   int
}

type FnInfo struct {
	fn      *ssa.Function
	name    string
	nreg    int
	nparam  int
	fvBase  int
	consts  []Value
	blocks  []*Block
	harness bool
	repo    bool
	nins    int
	hits    int64
}

type globalRef struct {
	g *ssa.Global
}

func pkgOf(fn *ssa.Function) *ssa.Package {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg != nil {
		return fn.Pkg
	}
	if o := fn.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg
	}
	return nil
}

func pkgPath(fn *ssa.Function) string {
	if p := pkgOf(fn); p != nil {
		return p.Pkg.Path()
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	return ""
}

func fnKey(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return fn.String()
}

func (vm *VM) info(fn *ssa.Function) *FnInfo {
	if fi, ok := vm.fns[fn]; ok {
		return fi
	}
	fi := vm.compile(fn)
	vm.fns[fn] = fi
	return fi
}

func (vm *VM) constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return vm.zero(t)
	}
	if tp, ok := t.(*types.TypeParam); ok {
		_ = tp
		return Poison{"const of type param"}
	}
	u := t.Underlying()
	b, ok := u.(*types.Basic)
	if !ok {
		return Poison{"const " + t.String()}
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return vm.C.Bool(constant.BoolVal(c.Value))
	case b.Info()&types.IsString != 0:
		if c.Value.Kind() == constant.Int {
			i, _ := constant.Int64Val(c.Value)
			return mkStr(string(rune(i)))
		}
		return mkStr(constant.StringVal(c.Value))
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(c.Value)
		if b.Kind() == types.Float32 {
			f = float64(float32(f))
		}
		return vm.C.Float(f)
	case b.Info()&types.IsComplex != 0:
		return Poison{"complex const"}
	}
	s, signed, ok := vm.intSort(t)
	if !ok {
		return Poison{"const " + t.String()}
	}
	v := constant.ToInt(c.Value)
	if signed {
		i, exact := constant.Int64Val(v)
		if !exact {
			u, _ := constant.Uint64Val(v)
			return vm.C.Const(u, s)
		}
		return vm.C.Const(uint64(i), s)
	}
	un, exact := constant.Uint64Val(v)
	if !exact {
		i, _ := constant.Int64Val(v)
		un = uint64(i)
	}
	return vm.C.Const(un, s)
}

func (vm *VM) compile(fn *ssa.Function) *FnInfo {
	fi := &FnInfo{fn: fn, name: fn.String()}
	pp := pkgPath(fn)
	if strings.HasPrefix(pp, HarnessPrefix) {
		fi.harness = true
	} else if pp == RepoPrefix || strings.HasPrefix(pp, RepoPrefix+"/") {
		fi.repo = true
	}
	slot := map[ssa.Value]int32{}
	n := int32(0)
	for _, p := range fn.Params {
		slot[p] = n
		n++
	}
	fi.nparam = int(n)
	fi.fvBase = int(n)
	for _, f := range fn.FreeVars {
		slot[f] = n
		n++
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				slot[v] = n
				n++
			}
		}
	}
	fi.nreg = int(n)
	cslot := map[ssa.Value]int32{}
	opnd := func(v ssa.Value) int32 {
		if v == nil {
			return math.MinInt32
		}
		if s, ok := slot[v]; ok {
			return s
		}
		if s, ok := cslot[v]; ok {
			return s
		}
		var cv Value
		switch x := v.(type) {
		case *ssa.Const:
			cv = vm.constVal(x)
		case *ssa.Global:
			cv = &globalRef{x}
		case *ssa.Function:
			cv = &Closure{fn: x}
		case *ssa.Builtin:
			cv = &Closure{bi: x}
		default:
			cv = Poison{"operand " + v.String()}
		}
		fi.consts = append(fi.consts, cv)
		s := int32(-len(fi.consts))
		cslot[v] = s
		return s
	}
	var buf [16]*ssa.Value
	for bi, b := range fn.Blocks {
		nb := &Block{idx: bi}
		for _, s := range b.Succs {
			nb.succs = append(nb.succs, s.Index)
		}
		for _, i := range b.Instrs {
			if _, ok := i.(*ssa.DebugRef); ok {
				continue
			}
			ins := &Ins{i: i, dst: -1}
			if v, ok := i.(ssa.Value); ok {
				ins.dst = slot[v]
				ins.t = v.Type()
			}
			if _, ok := i.(*ssa.Phi); ok {
				nb.nphi++
			}
			if ci, ok := i.(ssa.CallInstruction); ok {
				com := ci.Common()
				ins.com = com
				if com.IsInvoke() {
					ins.recvIntf = true
					ins.a = append(ins.a, opnd(com.Value))
				} else {
					switch f := com.Value.(type) {
					case *ssa.Function:
						ins.fn = f
						ins.key = fnKey(f)
					case *ssa.Builtin:
						ins.bi = f
					}
					ins.a = append(ins.a, opnd(com.Value))
				}
				for _, arg := range com.Args {
					ins.a = append(ins.a, opnd(arg))
				}
				switch i.(type) {
				case *ssa.Go:
					ins.isGo = true
				case *ssa.Defer:
					ins.isDfr = true
				}
			} else if ph, ok := i.(*ssa.Phi); ok {
				for _, e := range ph.Edges {
					ins.a = append(ins.a, opnd(e))
				}
			} else {
				for _, o := range i.Operands(buf[:0]) {
					if *o == nil {
						ins.a = append(ins.a, math.MinInt32)
						continue
					}
					ins.a = append(ins.a, opnd(*o))
				}
			}
			nb.ins = append(nb.ins, ins)
			fi.nins++
		}
		fi.blocks = append(fi.blocks, nb)
	}
	return fi
}

var binOps = map[token.Token]term.Op{
	token.ADD: term.OAdd, token.SUB: term.OSub, token.MUL: term.OMul,
	token.AND: term.OBAnd, token.OR: term.OBOr, token.XOR: term.OBXor,
}
