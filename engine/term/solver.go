package term

import (
	"bufio"
	"fmt"
	"io"
	"math"
	"math/big"
	"os"
	"os/exec"
	"sort"
	"strings"
	"time"
)

// Solver is one z3 process. Queries are conjunctions of terms.
type Solver struct {
	C         *Ctx
	Path      string
	TimeoutMS int
	cmd       *exec.Cmd
	in        *bufio.Writer
	inc       io.Closer
	out       *bufio.Reader
	defd      map[int32]bool // emitted terms
	lits      map[int32]bool // emitted assumption literals
	cache     map[string]qres

	Queries   int
	CacheHits int
	ModelHits int
	Sat       int
	Unsat     int
	Unknown   int
	Time      time.Duration
	Log       io.Writer
	Errors    []string
	fp        bool
	Fresh     *Solver // for queries decided in a context of their own
	wmemo     map[int32]bool
}

type qres struct {
	r Result
	m Model
}

type Result int

const (
	UnsatR Result = iota
	SatR
	UnknownR
)

func NewSolver(c *Ctx, path string, timeoutMS int) *Solver {
	return &Solver{C: c, Path: path, TimeoutMS: timeoutMS, cache: map[string]qres{}}
}

func (s *Solver) start() error {
	s.defd = map[int32]bool{}
	s.lits = map[int32]bool{}
	s.cmd = exec.Command(s.Path, "-in", "-smt2")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.inc = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	if s.fp {
		fmt.Fprintf(s.in, "(set-logic QF_BVFP)\n")
	} else {
		fmt.Fprintf(s.in, "(set-logic QF_BV)\n")
	}
	ms := s.TimeoutMS
	if !s.fp && ms > 1500 {
		ms = 1500 // a fresh context has the last word
	}
	fmt.Fprintf(s.in, "(set-option :timeout %d)\n", ms)
	return nil
}

func (s *Solver) Close() {
	if s.Fresh != nil {
		s.Fresh.Close()
	}
	if s.cmd != nil {
		s.inc.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func sortStr(s Sort) string {
	switch {
	case s == Bool:
		return "Bool"
	case s == F64:
		return "(_ FloatingPoint 11 53)"
	}
	return fmt.Sprintf("(_ BitVec %d)", s)
}

func constStr(t *Term) string {
	switch {
	case t.S == Bool:
		if t.K == 1 {
			return "true"
		}
		return "false"
	case t.S == F64:
		f := math.Float64frombits(t.K)
		if math.IsNaN(f) {
			return "(_ NaN 11 53)"
		}
		return fmt.Sprintf("(fp #b%b #b%011b #b%052b)", t.K>>63, (t.K>>52)&0x7ff, t.K&(1<<52-1))
	}
	return fmt.Sprintf("(_ bv%d %d)", t.K, t.S)
}

func (s *Solver) ref(t *Term) string {
	if t.IsConst() {
		return constStr(t)
	}
	return fmt.Sprintf("t%d", t.ID)
}

func (s *Solver) define(t *Term) {
	if t.IsConst() || s.defd[t.ID] {
		return
	}
	for _, a := range t.A {
		s.define(a)
	}
	s.defd[t.ID] = true
	w := s.in
	if t.Op == OVar {
		fmt.Fprintf(w, "(declare-const t%d %s)\n", t.ID, sortStr(t.S))
		return
	}
	fmt.Fprintf(w, "(define-fun t%d () %s ", t.ID, sortStr(t.S))
	switch t.Op {
	case OExtract:
		fmt.Fprintf(w, "((_ extract %d %d) %s)", t.K>>8, t.K&0xff, s.ref(t.A[0]))
	case OZExt:
		fmt.Fprintf(w, "((_ zero_extend %d) %s)", t.S-t.A[0].S, s.ref(t.A[0]))
	case OSExt:
		fmt.Fprintf(w, "((_ sign_extend %d) %s)", t.S-t.A[0].S, s.ref(t.A[0]))
	case OFFromS:
		fmt.Fprintf(w, "((_ to_fp 11 53) RNE %s)", s.ref(t.A[0]))
	case OFFromU:
		fmt.Fprintf(w, "((_ to_fp_unsigned 11 53) RNE %s)", s.ref(t.A[0]))
	case OFToS:
		fmt.Fprintf(w, "((_ fp.to_sbv %d) RTZ %s)", t.S, s.ref(t.A[0]))
	default:
		fmt.Fprintf(w, "(%s", opName[t.Op])
		for _, a := range t.A {
			w.WriteByte(' ')
			w.WriteString(s.ref(a))
		}
		w.WriteByte(')')
	}
	w.WriteString(")\n")
}

func (s *Solver) lit(t *Term) string {
	if !s.lits[t.ID] {
		s.define(t)
		s.lits[t.ID] = true
		fmt.Fprintf(s.in, "(declare-const a%d Bool)\n(assert (=> a%d t%d))\n", t.ID, t.ID, t.ID)
	}
	return fmt.Sprintf("a%d", t.ID)
}

// Check decides the conjunction. On SatR the model covers the variables of ts.
func (s *Solver) Check(ts []*Term) (Result, Model) {
	ids := make([]int, 0, len(ts))
	seen := map[int32]bool{}
	needFP := false
	for _, t := range ts {
		if t.IsFalse() {
			return UnsatR, nil
		}
		if t.IsTrue() || seen[t.ID] {
			continue
		}
		seen[t.ID] = true
		ids = append(ids, int(t.ID))
		needFP = needFP || t.hasF
	}
	if len(ids) == 0 {
		return SatR, Model{}
	}
	sort.Ints(ids)
	k := fmt.Sprint(ids)
	if r, ok := s.cache[k]; ok {
		s.CacheHits++
		return r.r, r.m
	}
	t0 := time.Now()
	r, m := s.query(ids, needFP)
	s.Time += time.Since(t0)
	s.Queries++
	switch r {
	case SatR:
		s.Sat++
	case UnsatR:
		s.Unsat++
	default:
		s.Unknown++
	}
	s.cache[k] = qres{r, m}
	return r, m
}

func (s *Solver) query(ids []int, needFP bool) (Result, Model) {
	if !needFP && s.wide(ids) {
		return s.freshQuery(ids)
	}
	if needFP && !s.fp {
		s.fp = true
		s.Close()
	}
	if s.cmd != nil && len(s.defd) > 400000 {
		s.Close()
	}
	if s.cmd == nil {
		if err := s.start(); err != nil {
			s.Errors = append(s.Errors, err.Error())
			return UnknownR, nil
		}
	}
	var vars []int32
	var lits []string
	for _, id := range ids {
		t := s.C.ByID[id]
		vars = mergeVars(vars, t.vars)
		lits = append(lits, s.lit(t))
	}
	fmt.Fprintf(s.in, "(check-sat-assuming (%s))\n", strings.Join(lits, " "))
	s.in.Flush()
	line, err := s.readLine()
	if err != nil {
		s.Errors = append(s.Errors, "solver died: "+err.Error())
		s.Close()
		return UnknownR, nil
	}
	switch line {
	case "unsat":
		return UnsatR, nil
	case "sat":
	default:
		if !needFP && line == "unknown" {
			return s.freshQuery(ids)
		}
		if d := os.Getenv("GOSYM_DUMPQ"); d != "" {
			s.dump(d, ids)
		}
		if strings.HasPrefix(line, "(error") {
			s.Errors = append(s.Errors, line)
			s.Close()
		}
		return UnknownR, nil
	}
	return s.values(vars)
}

// values reads the model of vars.
func (s *Solver) values(vars []int32) (Result, Model) {
	m := Model{}
	if len(vars) == 0 {
		return SatR, m
	}
	var sb strings.Builder
	sb.WriteString("(get-value (")
	for _, v := range vars {
		fmt.Fprintf(&sb, "t%d ", v)
	}
	sb.WriteString("))\n")
	s.in.WriteString(sb.String())
	s.in.Flush()
	txt, err := s.readSexp()
	if err != nil {
		s.Errors = append(s.Errors, err.Error())
		s.Close()
		return UnknownR, nil
	}
	if !parseModel(txt, m, s.C) {
		s.Errors = append(s.Errors, "model: "+txt)
		s.Close()
		return UnknownR, nil
	}
	return SatR, m
}

// wide says whether wide sums occur: the incremental solver is bad at them.
func (s *Solver) wide(ids []int) bool {
	if s.wmemo == nil {
		s.wmemo = map[int32]bool{}
	}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t.IsConst() || t.Op == OVar {
			return false
		}
		if w, ok := s.wmemo[t.ID]; ok {
			return w
		}
		w := t.S >= 32 && (t.Op == OAdd || t.Op == OSub || t.Op == OMul)
		for _, a := range t.A {
			w = w || rec(a)
		}
		s.wmemo[t.ID] = w
		return w
	}
	for _, id := range ids {
		if rec(s.C.ByID[id]) {
			return true
		}
	}
	return false
}

// freshQuery decides one query in a context of its own.
func (s *Solver) freshQuery(ids []int) (Result, Model) {
	if s.Fresh == nil {
		s.Fresh = NewSolver(s.C, s.Path, s.TimeoutMS)
	}
	f := s.Fresh
	if f.cmd == nil {
		if err := f.start(); err != nil {
			s.Errors = append(s.Errors, err.Error())
			return UnknownR, nil
		}
	}
	f.defd = map[int32]bool{}
	fmt.Fprintf(f.in, "(reset)\n(set-option :timeout %d)\n(set-logic QF_BV)\n", f.TimeoutMS)
	var vars []int32
	for _, id := range ids {
		t := s.C.ByID[id]
		vars = mergeVars(vars, t.vars)
		f.define(t)
	}
	for _, id := range ids {
		fmt.Fprintf(f.in, "(assert %s)\n", f.ref(s.C.ByID[id]))
	}
	f.in.WriteString("(check-sat)\n")
	f.in.Flush()
	line, err := f.readLine()
	if err != nil {
		s.Errors = append(s.Errors, "solver died: "+err.Error())
		f.Close()
		return UnknownR, nil
	}
	switch line {
	case "unsat":
		return UnsatR, nil
	case "sat":
		r, m := f.values(vars)
		s.Errors = append(s.Errors, f.Errors...)
		f.Errors = nil
		return r, m
	}
	if d := os.Getenv("GOSYM_DUMPQ"); d != "" {
		s.dump(d, ids)
	}
	if strings.HasPrefix(line, "(error") {
		s.Errors = append(s.Errors, line)
		f.Close()
	}
	return UnknownR, nil
}

// dump writes a query as a script of its own.
func (s *Solver) dump(dir string, ids []int) {
	var sb strings.Builder
	o := &Solver{C: s.C, defd: map[int32]bool{}, in: bufio.NewWriter(&sb)}
	fmt.Fprintf(o.in, "(set-logic QF_BV)\n")
	for _, id := range ids {
		o.define(s.C.ByID[id])
	}
	for _, id := range ids {
		fmt.Fprintf(o.in, "(assert %s)\n", o.ref(s.C.ByID[id]))
	}
	fmt.Fprintf(o.in, "(check-sat)\n")
	o.in.Flush()
	os.WriteFile(fmt.Sprintf("%s/q%d-%d.smt2", dir, time.Now().UnixNano(), len(ids)), []byte(sb.String()), 0644)
}

func (s *Solver) readLine() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l, nil
		}
	}
}

func (s *Solver) readSexp() (string, error) {
	var sb strings.Builder
	depth := 0
	started := false
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			return "", err
		}
		sb.WriteByte(b)
		if b == '(' {
			depth++
			started = true
		}
		if b == ')' {
			depth--
		}
		if started && depth == 0 {
			return sb.String(), nil
		}
	}
}

func tokenize(s string) []string {
	s = strings.ReplaceAll(s, "(", " ( ")
	s = strings.ReplaceAll(s, ")", " ) ")
	return strings.Fields(s)
}

func parseBits(tok string) (uint64, bool) {
	b := new(big.Int)
	var ok bool
	switch {
	case strings.HasPrefix(tok, "#x"):
		b, ok = b.SetString(tok[2:], 16)
	case strings.HasPrefix(tok, "#b"):
		b, ok = b.SetString(tok[2:], 2)
	case tok == "true":
		return 1, true
	case tok == "false":
		return 0, true
	default:
		return 0, false
	}
	if !ok {
		return 0, false
	}
	return b.Uint64(), true
}

func parseModel(txt string, m Model, c *Ctx) bool {
	toks := tokenize(txt)
	i := 1
	for i < len(toks) && toks[i] == "(" {
		name := toks[i+1]
		var id int32
		if _, err := fmt.Sscanf(name, "t%d", &id); err != nil {
			return false
		}
		i += 2
		if toks[i] == "(" {
			// (fp s e m) or (_ NaN 11 53) or (_ +oo 11 53) or (_ bvN w)
			switch toks[i+1] {
			case "fp":
				sg, _ := parseBits(toks[i+2])
				ex, _ := parseBits(toks[i+3])
				mn, _ := parseBits(toks[i+4])
				m[id] = sg<<63 | ex<<52 | mn
				i += 6
			case "_":
				switch toks[i+2] {
				case "NaN":
					m[id] = math.Float64bits(math.NaN())
				case "+oo":
					m[id] = math.Float64bits(math.Inf(1))
				case "-oo":
					m[id] = math.Float64bits(math.Inf(-1))
				case "+zero":
					m[id] = 0
				case "-zero":
					m[id] = 1 << 63
				default:
					if strings.HasPrefix(toks[i+2], "bv") {
						b, ok := new(big.Int).SetString(toks[i+2][2:], 10)
						if !ok {
							return false
						}
						m[id] = b.Uint64()
					} else {
						return false
					}
				}
				for toks[i] != ")" {
					i++
				}
				i++
			default:
				return false
			}
		} else {
			v, ok := parseBits(toks[i])
			if !ok {
				return false
			}
			m[id] = v
			i++
		}
		if toks[i] != ")" {
			return false
		}
		i++
	}
	return true
}
