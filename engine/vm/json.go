package vm

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/types"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"gosym/term"

	"golang.org/x/tools/go/ssa"
)

// jsonHoles maps symbolic bytes to private-use runes that stand for them in JSON text. Only bytes that
// JSON text shows as they are, and that end no token, become holes; other bytes are enumerated.
type jsonHoles struct {
	b []*term.Term
}

const jsonHole = 0xE000

func (h *jsonHoles) add(b *term.Term) string {
	h.b = append(h.b, b)
	return string(rune(jsonHole + len(h.b) - 1))
}

func noHoles(st *State, s string) string {
	for _, r := range s {
		if r >= jsonHole && r < 0xF900 {
			st.vm.unsupported("json of a private-use rune")
		}
	}
	return s
}

// text returns s with holes.
func (h *jsonHoles) text(st *State, s *Str) string {
	if s.conc {
		return noHoles(st, s.s)
	}
	c := st.vm.C
	var out strings.Builder
	var conc []byte
	flush := func() {
		out.WriteString(noHoles(st, string(conc)))
		conc = nil
	}
	for _, b := range s.b {
		if b.IsConst() {
			conc = append(conc, byte(b.K))
			continue
		}
		plain := c.And(c.Bin(term.OUle, c.Const(' ', 8), b), c.Bin(term.OUlt, b, c.Const(0x7f, 8)))
		for _, x := range "\"\\<>&" {
			plain = c.And(plain, c.Not(c.Eq(b, c.Const(uint64(x), 8))))
		}
		if len(h.b) < 6000 && st.branch(plain) {
			flush()
			out.WriteString(h.add(b))
		} else {
			conc = append(conc, byte(st.concInt(b)))
		}
	}
	flush()
	return out.String()
}

// fill replaces the holes in s.
func (h *jsonHoles) fill(st *State, s string) *Str {
	if len(h.b) == 0 {
		return mkStr(s)
	}
	var out []*term.Term
	for i, r := range s {
		if r >= jsonHole && int(r) < jsonHole+len(h.b) {
			out = append(out, h.b[r-jsonHole])
			continue
		}
		n := utf8.RuneLen(r)
		if r == utf8.RuneError {
			_, n = utf8.DecodeRuneInString(s[i:])
		}
		for j := 0; j < n; j++ {
			out = append(out, st.vm.byteC[s[i+j]])
		}
	}
	return st.vm.strFromBytes(out)
}

// jsonEncode encodes a typed value; numbers are enumerated.
func (st *State) jsonEncode(h *jsonHoles, t types.Type, v Value, d int) string {
	if d > 8 {
		st.vm.unsupported("json depth")
	}
	if i, ok := v.(Iface); ok {
		if i.t == nil {
			return "null"
		}
		return st.jsonEncode(h, i.t, i.v, d+1)
	}
	for _, m := range []string{"MarshalJSON", "MarshalText"} {
		if st.vm.findMethod(t, m) != nil {
			st.vm.unsupported("json of %s with %s", t, m)
		}
	}
	js := func(s string) string {
		b, err := json.Marshal(s)
		if err != nil {
			st.vm.unsupported("json string")
		}
		return string(b)
	}
	switch x := v.(type) {
	case *Str:
		return js(h.text(st, x))
	case *term.Term:
		switch {
		case x.S == term.Bool:
			return fmt.Sprint(st.branch(x))
		case x.S == term.F64:
			if !x.IsConst() {
				st.vm.unsupported("json of a symbolic float")
			}
			b, _ := json.Marshal(math.Float64frombits(x.K))
			return string(b)
		}
		_, signed, _ := st.vm.intSort(t)
		if signed {
			return fmt.Sprint(st.concInt(x))
		}
		return fmt.Sprint(uint64(st.concInt(x)))
	case *Ptr:
		if x == nil {
			return "null"
		}
		return st.jsonEncode(h, t.Underlying().(*types.Pointer).Elem(), st.loadPtr(x), d+1)
	case *Slice:
		if x == nil {
			return "null"
		}
		et := t.Underlying().(*types.Slice).Elem()
		var out []string
		for _, e := range st.sliceVals(x) {
			out = append(out, st.jsonEncode(h, et, e, d+1))
		}
		return "[" + strings.Join(out, ",") + "]"
	case *MapRef:
		if x == nil {
			return "null"
		}
		mt := t.Underlying().(*types.Map)
		type kv struct {
			s    *Str
			k, v string
		}
		var kvs []kv
		for _, e := range st.load(x.obj).(*MapV).ents {
			var k string
			switch kx := e.k.(type) {
			case *Str:
				k = h.text(st, kx)
			case *term.Term:
				k = strconv.Itoa(st.concInt(kx))
			default:
				st.vm.unsupported("json map key")
			}
			kvs = append(kvs, kv{h.fill(st, k), k, st.jsonEncode(h, mt.Elem(), e.v, d+1)})
		}
		for i := range kvs {
			for j := i; j > 0 && st.branch(st.vm.strLess(kvs[j].s, kvs[j-1].s)); j-- {
				kvs[j], kvs[j-1] = kvs[j-1], kvs[j]
			}
		}
		var out []string
		for _, e := range kvs {
			out = append(out, js(e.k)+":"+e.v)
		}
		return "{" + strings.Join(out, ",") + "}"
	case *StructV:
		s := t.Underlying().(*types.Struct)
		var out []string
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			if !f.Exported() {
				continue
			}
			name, omit, skip := jsonName(f.Name(), s.Tag(i))
			if skip {
				continue
			}
			if f.Embedded() {
				st.vm.unsupported("json embedded field")
			}
			e := st.jsonEncode(h, f.Type(), x.f[i], d+1)
			if omit && (e == "null" || e == "0" || e == `""` || e == "false" || e == "{}" || e == "[]") {
				continue
			}
			out = append(out, js(name)+":"+e)
		}
		return "{" + strings.Join(out, ",") + "}"
	}
	st.vm.unsupported("json of %T", v)
	return ""
}

func jsonName(n, tag string) (string, bool, bool) {
	tg := reflect.StructTag(tag).Get("json")
	if tg == "-" {
		return "", false, true
	}
	ps := strings.Split(tg, ",")
	omit := false
	for _, p := range ps[1:] {
		if p == "omitempty" {
			omit = true
		} else if p != "" {
			panic(unsupportedErr{"json tag " + p})
		}
	}
	if ps[0] != "" {
		n = ps[0]
	}
	return n, omit, false
}

// jsonDecode converts decoded generic JSON into a typed value, starting from the old value.
func (st *State) jsonDecode(h *jsonHoles, t types.Type, j interface{}, old Value) (Value, error) {
	vm := st.vm
	bad := func() (Value, error) {
		return old, fmt.Errorf("json: cannot unmarshal %T into Go value of type %s", j, types.TypeString(t, func(p *types.Package) string { return p.Name() }))
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		if j == nil {
			return (*Ptr)(nil), nil
		}
		pp, _ := old.(*Ptr)
		if pp == nil {
			pp = st.alloc(vm.zero(p.Elem()), false)
		}
		nv, err := st.jsonDecode(h, p.Elem(), j, st.loadPtr(pp))
		st.storePtr(pp, nv)
		return pp, err
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if j == nil {
			return old, nil
		}
		switch {
		case u.Info()&types.IsString != 0:
			s, ok := j.(string)
			if !ok {
				return bad()
			}
			return h.fill(st, s), nil
		case u.Info()&types.IsBoolean != 0:
			b, ok := j.(bool)
			if !ok {
				return bad()
			}
			return vm.C.Bool(b), nil
		case u.Info()&types.IsInteger != 0:
			n, ok := j.(json.Number)
			if !ok {
				return bad()
			}
			s, signed, _ := vm.intSort(t)
			if signed {
				i, err := strconv.ParseInt(string(n), 10, int(s))
				if err != nil {
					return bad()
				}
				return vm.C.Const(uint64(i), s), nil
			}
			i, err := strconv.ParseUint(string(n), 10, int(s))
			if err != nil {
				return bad()
			}
			return vm.C.Const(i, s), nil
		case u.Info()&types.IsFloat != 0:
			n, ok := j.(json.Number)
			if !ok {
				return bad()
			}
			f, _ := n.Float64()
			return vm.C.Float(f), nil
		}
	case *types.Slice:
		if j == nil {
			return (*Slice)(nil), nil
		}
		l, ok := j.([]interface{})
		if !ok {
			return bad()
		}
		var vals []Value
		for _, e := range l {
			v, err := st.jsonDecode(h, u.Elem(), e, vm.zero(u.Elem()))
			if err != nil {
				return old, err
			}
			vals = append(vals, v)
		}
		return st.newSlice(vals, vm.zero(u.Elem())), nil
	case *types.Map:
		if j == nil {
			return (*MapRef)(nil), nil
		}
		m, ok := j.(map[string]interface{})
		if !ok {
			return bad()
		}
		r, _ := old.(*MapRef)
		if r == nil {
			p := st.alloc(&MapV{idx: map[string]int{}, conc: true}, false)
			r = &MapRef{obj: p.obj}
		}
		var keys []string
		for k := range m {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		var first error
		for _, k := range keys {
			var kv Value = h.fill(st, k)
			if !isString(u.Key()) {
				if len(h.b) > 0 && !h.fill(st, k).conc {
					vm.unsupported("json with a symbolic number")
				}
				s, _, isInt := vm.intSort(u.Key())
				n, err := strconv.ParseInt(k, 10, 64)
				if !isInt || err != nil {
					first = fmt.Errorf("json: cannot unmarshal number %s into Go value of type int", k)
					continue
				}
				kv = vm.C.Const(uint64(n), s)
			}
			v, err := st.jsonDecode(h, u.Elem(), m[k], vm.zero(u.Elem()))
			if err != nil {
				first = err
			}
			st.mapSet(r, kv, v)
		}
		return r, first
	case *types.Struct:
		if j == nil {
			return old, nil
		}
		m, ok := j.(map[string]interface{})
		if !ok {
			return bad()
		}
		nf := append([]Value(nil), old.(*StructV).f...)
		var first error
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if !f.Exported() {
				continue
			}
			name, _, skip := jsonName(f.Name(), u.Tag(i))
			if skip {
				continue
			}
			for k, e := range m {
				if len(h.b) > 0 && !h.fill(st, k).conc {
					vm.unsupported("json with a symbolic field name")
				}
				if strings.EqualFold(k, name) {
					v, err := st.jsonDecode(h, f.Type(), e, nf[i])
					if err != nil && first == nil {
						first = err
					}
					nf[i] = v
				}
			}
		}
		return &StructV{nf}, first
	case *types.Interface:
		if u.NumMethods() == 0 && j == nil {
			return Iface{}, nil
		}
	}
	vm.unsupported("json decode into %s", t)
	return nil, nil
}

func init() {
	symHandlers["JSONMarshal"] = func(st *State, fn *ssa.Function, a []Value) (Value, ctl) {
		i := a[0].(Iface)
		s, h := "null", &jsonHoles{}
		if i.t != nil {
			s = st.jsonEncode(h, i.t, i.v, 0)
		}
		pre, ind := st.concStr(a[1]), st.concStr(a[2])
		if pre != "" || ind != "" {
			var b bytes.Buffer
			if err := json.Indent(&b, []byte(s), pre, ind); err != nil {
				st.vm.unsupported("json indent: %v", err)
			}
			s = b.String()
		}
		return h.fill(st, s), ctlDone
	}
	// JSONUnmarshal(data, v, stream) (rest int, errmsg string)
	symHandlers["JSONUnmarshal"] = func(st *State, fn *ssa.Function, a []Value) (Value, ctl) {
		h := &jsonHoles{}
		data := h.text(st, a[0].(*Str))
		i := a[1].(Iface)
		dec := json.NewDecoder(strings.NewReader(data))
		dec.UseNumber()
		var j interface{}
		if err := dec.Decode(&j); err != nil {
			if len(h.b) > 0 {
				st.vm.unsupported("json text with symbolic bytes: %v", err)
			}
			return Tuple{st.vm.i64(0), mkStr(err.Error())}, ctlDone
		}
		p, ok := i.v.(*Ptr)
		if !ok || p == nil {
			return Tuple{st.vm.i64(0), mkStr("json: Unmarshal(nil)")}, ctlDone
		}
		nv, err := st.jsonDecode(h, i.t.Underlying().(*types.Pointer).Elem(), j, st.loadPtr(p))
		st.storePtr(p, nv)
		msg := ""
		if err != nil {
			msg = err.Error()
		}
		return Tuple{st.vm.i64(int64(h.fill(st, data[:dec.InputOffset()]).Len())), mkStr(msg)}, ctlDone
	}
}
