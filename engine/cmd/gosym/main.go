// Command gosym decides the properties of /verif/properties.jsonl by symbolic execution of /repo.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"gosym/vm"
)

// Entry is one harness function with its bounds.
type Entry struct {
	Name     string `json:"name"`
	What     string `json:"what"`
	Preempt  int    `json:"preempt"`
	Visits   int    `json:"visits"`
	Ins      int64  `json:"ins"`
	Paths    int    `json:"paths"`
	Budget   int    `json:"budget"`   // seconds, quick
	TBudget  int    `json:"tbudget"`  // seconds, thorough
	TPreempt int    `json:"tpreempt"` // thorough
	Tier     string `json:"tier"`     // "thorough": not run in quick
}

// Check is check.json of a harness package.
type Check struct {
	Property    string   `json:"property"`
	Entries     []Entry  `json:"entries"`
	Bounds      []string `json:"bounds"`
	Outside     []string `json:"outside"`
	Assumptions []string `json:"assumptions"`
	MustCall    []string `json:"must_call"`
}

type job struct {
	e *Entry
	c int
}

type violCand struct {
	entry string
	v     *vm.Violation
}

type entryStat struct {
	Cases, CasesDone, Paths, Infeasible, Asserts, AssertQ, AssertC, SchedPts, MaxThreads int
	Ins                                                                                  int64
	Cut, Cover, AssertBy                                                                 map[string]int
	Wall                                                                                 float64
}

type runner struct {
	l        *Loaded
	thorough bool
	words    []string
	sizes    []int
	debug    bool
	mu       sync.Mutex
	cond     *sync.Cond
	jobs     []job
	active   int
	stats    map[string]*entryStat
	cands    []violCand
	samples  map[string][]*vm.Sample
	repoFn   map[string]int64
	libFn    map[string]int64
	queries  int
	sat      int
	unsat    int
	unknown  int
	stop     int32
	solverT  time.Duration
	errors   []string
	forks    int
	deadline time.Time
	onlyCase int
	solver   string
}

func envInt(k string, d int) int {
	if n, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return n
	}
	return d
}

func (r *runner) worker(wg *sync.WaitGroup) {
	defer wg.Done()
	for {
		r.mu.Lock()
		for len(r.jobs) == 0 && r.active > 0 {
			r.cond.Wait()
		}
		if len(r.jobs) == 0 {
			r.mu.Unlock()
			r.cond.Broadcast()
			return
		}
		j := r.jobs[0]
		r.jobs = r.jobs[1:]
		r.active++
		r.mu.Unlock()
		r.run(j)
		r.mu.Lock()
		r.active--
		r.mu.Unlock()
		r.cond.Broadcast()
	}
}

func (r *runner) run(j job) {
	start := time.Now()
	m := vm.NewVM(r.l.Prog, r.solver, 10000)
	m.TryLocks = r.l.TryLocks
	defer m.Close()
	m.Thorough = r.thorough
	m.Words, m.Sizes = r.words, r.sizes
	m.Debug = r.debug
	m.Res = vm.NewResult()
	e := j.e
	lim := vm.Limits{MaxPathIns: e.Ins, MaxVisits: e.Visits, MaxPaths: e.Paths, MaxPreempt: e.Preempt, MaxViol: 3, SampleEvery: 997}
	if lim.MaxPathIns == 0 {
		lim.MaxPathIns = 4000000
	}
	if lim.MaxVisits == 0 {
		lim.MaxVisits = 3000
	}
	if lim.MaxPreempt == 0 {
		lim.MaxPreempt = 2
	}
	if lim.MaxPreempt < 0 { // sequential harness: goroutines switch only where they block
		lim.MaxPreempt = 0
	}
	b := e.Budget
	if b == 0 {
		b = 60
	}
	if r.thorough {
		if e.TBudget > 0 {
			b = e.TBudget
		} else {
			b *= 4
		}
		if e.TPreempt > 0 {
			lim.MaxPreempt = e.TPreempt
		}
	}
	if n, err := strconv.Atoi(os.Getenv("GOSYM_BUDGET")); err == nil {
		b = n
	}
	lim.Stop = &r.stop
	lim.Deadline = start.Add(time.Duration(b) * time.Second)
	if lim.Deadline.After(r.deadline) {
		lim.Deadline = r.deadline
	}
	m.Lim = lim
	skipped := time.Now().After(r.deadline) || atomic.LoadInt32(&r.stop) != 0
	if !skipped {
		func() {
			defer func() {
				if p := recover(); p != nil {
					if r.debug {
						panic(p)
					}
					m.Res.Cut[fmt.Sprintf("unsupported: engine error %v", p)]++
					if os.Getenv("GOSYM_TRACE") != "" {
						debug.PrintStack()
					}
				}
			}()
			m.Run(r.l.Entry[e.Name], j.c)
		}()
	} else {
		m.Res.Cut["time budget (case not started)"]++
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	s := r.stats[e.Name]
	if j.c == 0 && r.onlyCase < 0 {
		s.Cases = m.NCases
		if s.Cases < 1 {
			s.Cases = 1
		}
		for c := 1; c < m.NCases; c++ {
			r.jobs = append(r.jobs, job{e, c})
		}
	}
	res := m.Res
	if res.Exhausted {
		s.CasesDone++
	}
	s.Paths += res.Paths
	s.Infeasible += res.Infeasible
	s.Asserts += res.Asserts
	s.AssertQ += res.AssertQ
	s.AssertC += res.AssertC
	s.SchedPts += res.SchedPts
	s.Ins += res.Ins
	if res.MaxThreads > s.MaxThreads {
		s.MaxThreads = res.MaxThreads
	}
	s.Wall += time.Since(start).Seconds()
	for k, v := range res.Cut {
		s.Cut[k] += v
	}
	for k, v := range res.Cover {
		s.Cover[k] += v
	}
	for k, v := range res.AssertBy {
		s.AssertBy[k] += v
	}
	for _, v := range res.Viol {
		v.Case = j.c
		r.cands = append(r.cands, violCand{e.Name, v})
	}
	r.samples[e.Name] = append(r.samples[e.Name], res.Samples...)
	a, b2 := m.FnUse()
	for k, v := range a {
		r.repoFn[k] += v
	}
	for k, v := range b2 {
		r.libFn[k] += v
	}
	r.forks += res.Forks
	r.queries += int(m.S.Queries)
	r.sat += int(m.S.Sat)
	r.unsat += int(m.S.Unsat)
	r.unknown += int(m.S.Unknown)
	r.solverT += m.S.Time
}

func main() {
	prop := flag.String("prop", "", "property")
	tier := flag.String("tier", "quick", "quick or thorough")
	repo := flag.String("repo", "/repo", "")
	verif := flag.String("verif", "/verif", "")
	entry := flag.String("entry", "", "only this entry")
	onlyCase := flag.Int("case", -1, "only this case")
	dbg := flag.Bool("debug", false, "")
	workers := flag.Int("j", 8, "")
	replay := flag.String("replay", "", "replay a recorded violation")
	pkg := flag.String("pkg", "", "harness package")
	cs := flag.Bool("consts", false, "write go/consts.json for the tree and stop")
	flag.Parse()
	start := time.Now()
	debug.SetGCPercent(200)
	if *pkg == "" {
		*pkg = strings.ToLower(*prop)
	}
	if *replay != "" {
		os.Exit(doReplay(*repo, *verif, *replay))
	}
	thorough := *tier == "thorough"

	var ck Check
	b, err := os.ReadFile(filepath.Join(*verif, "go", *pkg, "check.json"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if err := json.Unmarshal(b, &ck); err != nil {
		fmt.Fprintln(os.Stderr, "check.json:", err)
		os.Exit(2)
	}
	if ck.Property == "" {
		ck.Property = strings.ToUpper(*pkg)
	}
	id := ck.Property

	l, err := load(*repo, *verif, *pkg)
	if err != nil {
		// A tree on which the harness does not even compile gives no answer about the property.
		fmt.Printf("INCONCLUSIVE property=%s the harness does not build against this tree: %v\n", id, err)
		writeEvidence(*verif, id, *tier, start, &ck, nil, nil, err)
		os.Exit(0)
	}
	fmt.Printf("loaded in %.1fs\n", time.Since(start).Seconds())

	if *cs {
		if err := writeJSON(filepath.Join(*verif, "go", "consts.json"), l.consts()); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		return
	}

	total := 240
	if thorough {
		total = 780
	}
	r := &runner{l: l, thorough: thorough, debug: *dbg, stats: map[string]*entryStat{}, samples: map[string][]*vm.Sample{},
		repoFn: map[string]int64{}, libFn: map[string]int64{}, onlyCase: *onlyCase, solver: "z3"}
	if p := os.Getenv("GOSYM_SOLVER"); p != "" {
		r.solver = p
	}
	if r.words, r.sizes = l.fresh(); len(r.words)+len(r.sizes) > 0 {
		fmt.Printf("new constants: %q %v\n", r.words, r.sizes)
	}
	r.cond = sync.NewCond(&r.mu)
	r.deadline = start.Add(time.Duration(envInt("GOSYM_TOTAL", total)) * time.Second)
	for i := range ck.Entries {
		e := &ck.Entries[i]
		if *entry != "" && e.Name != *entry || e.Tier == "thorough" && !thorough {
			continue
		}
		if l.Entry[e.Name] == nil {
			fmt.Fprintln(os.Stderr, "no entry", e.Name)
			os.Exit(2)
		}
		r.stats[e.Name] = &entryStat{Cut: map[string]int{}, Cover: map[string]int{}, AssertBy: map[string]int{}}
		c := 0
		if *onlyCase >= 0 {
			c = *onlyCase
		}
		r.jobs = append(r.jobs, job{e, c})
	}
	var nat *Native
	natReady := make(chan bool)
	nat = newNative(l)
	defer nat.close()
	go func() {
		if _, err := nat.bin(false); err != nil {
			r.mu.Lock()
			r.errors = append(r.errors, "replay binary: "+err.Error())
			r.mu.Unlock()
		}
		close(natReady)
	}()
	var wg sync.WaitGroup
	for i := 0; i < *workers; i++ {
		wg.Add(1)
		go r.worker(&wg)
	}
	over := make(chan bool)
	watched := make(chan bool)
	go func() {
		defer close(watched)
		<-natReady
		if len(findings(*verif, id)) == 0 {
			r.watch(nat, over)
		}
	}()
	wg.Wait()
	close(over)
	<-natReady
	<-watched
	v := r.conclude(nat, &ck, *verif, *tier, start)
	nat.close()
	if v > 0 {
		os.Exit(1)
	}
}

// watch ends the exploration some time after a counterexample was confirmed against the real
// code: what remains cannot change the verdict.
func (r *runner) watch(nat *Native, over chan bool) {
	tried := map[string]int{}
	for {
		select {
		case <-over:
			return
		case <-time.After(500 * time.Millisecond):
		}
		r.mu.Lock()
		groups := pick(append([]violCand(nil), r.cands...))
		r.mu.Unlock()
		for _, g := range groups {
			c := g[0]
			k := c.entry + "|" + c.v.Kind + "|" + c.v.Msg
			if tried[k] > 0 {
				continue
			}
			tried[k]++
			rec := &Recording{Entry: c.entry, Case: c.v.Case, Thorough: r.thorough, Log: c.v.Log, Sched: c.v.Sched, Msg: c.v.Msg, Kind: c.v.Kind}
			tmp := filepath.Join(nat.dir, "watch.json")
			writeJSON(tmp, rec)
			if f, _ := nat.confirm(rec, tmp); f != "" {
				select {
				case <-over:
				case <-time.After(10 * time.Second):
				}
				atomic.StoreInt32(&r.stop, 1)
				return
			}
			select {
			case <-over:
				return
			default:
			}
		}
	}
}

// pick orders the candidates so that distinct failures come first.
func pick(c []violCand) [][]violCand {
	by := map[string][]violCand{}
	var keys []string
	for _, x := range c {
		k := x.entry + "|" + x.v.Kind + "|" + x.v.Msg
		if by[k] == nil {
			keys = append(keys, k)
		}
		by[k] = append(by[k], x)
	}
	sort.Strings(keys)
	var out [][]violCand
	for _, k := range keys {
		l := by[k]
		sort.SliceStable(l, func(i, j int) bool { return len(l[i].v.Log)+len(l[i].v.Sched) < len(l[j].v.Log)+len(l[j].v.Sched) })
		out = append(out, l)
	}
	return out
}

type finding struct {
	status, prop, entry, match, text string
}

// findings reads known-findings.txt: lines "known: property=<id> entry=<E> match=<text>| description".
func findings(verif, id string) []finding {
	b, _ := os.ReadFile(filepath.Join(verif, "known-findings.txt"))
	var out []finding
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		parts := strings.SplitN(l[7:], "|", 2)
		if len(parts) != 2 {
			continue
		}
		f := finding{status: "known", text: strings.TrimSpace(parts[1])}
		rest := parts[0]
		if i := strings.Index(rest, "match="); i >= 0 {
			f.match = strings.TrimSpace(rest[i+6:])
			rest = rest[:i]
		}
		for _, w := range strings.Fields(rest) {
			if strings.HasPrefix(w, "property=") {
				f.prop = w[9:]
			}
			if strings.HasPrefix(w, "entry=") {
				f.entry = w[6:]
			}
		}
		if f.prop == id && f.match != "" {
			out = append(out, f)
		}
	}
	return out
}

func (r *runner) conclude(nat *Native, ck *Check, verif, tier string, start time.Time) int {
	id := ck.Property
	ev := filepath.Join(verif, "evidence")
	os.MkdirAll(ev, 0755)
	old, _ := filepath.Glob(filepath.Join(ev, "replay-"+id+"-*.json"))
	for _, f := range old {
		os.Remove(f)
	}
	mk := func(c violCand) *Recording {
		return &Recording{Property: id, Entry: c.entry, Case: c.v.Case, Thorough: r.thorough, Log: c.v.Log, Sched: c.v.Sched,
			Msg: c.v.Msg, Kind: c.v.Kind, Obs: c.v.Obs, Stack: c.v.Stack}
	}
	viols := 0
	known := 0
	var unconfirmed []string
	hard := start.Add(840 * time.Second)
	fl := findings(verif, id)
	seen := map[string]bool{}
	for _, group := range pick(r.cands) {
		ok := false
		for n, c := range group {
			if n >= 6 || time.Now().After(hard) {
				break
			}
			rec := mk(c)
			tmp := filepath.Join(nat.dir, "cand.json")
			writeJSON(tmp, rec)
			f, mode := nat.confirm(rec, tmp)
			if f == "" {
				continue
			}
			ok = true
			rec.Mode = mode
			line := ""
			for _, k := range fl {
				if (k.entry == "" || k.entry == c.entry) && strings.Contains(c.v.Msg, k.match) {
					line = fmt.Sprintf("KNOWN-FINDING: property=%s %s", id, k.text)
				}
			}
			if line != "" {
				known++
				if !seen[line] {
					seen[line] = true
					fmt.Println(line)
				}
				break
			}
			viols++
			p := filepath.Join(ev, fmt.Sprintf("replay-%s-%d.json", id, viols))
			writeJSON(p, rec)
			fmt.Printf("%s: %s (%s; confirmed natively: %s)\n", c.entry, c.v.Msg, c.v.Kind, f)
			for i, s := range c.v.Stack {
				if i > 8 {
					break
				}
				fmt.Println("    at", s)
			}
			for _, e := range c.v.Log {
				if e.Str != nil {
					fmt.Printf("    %s = %q\n", e.Name, e.Str)
				} else {
					fmt.Printf("    %s = %d\n", e.Name, int64(e.Val))
				}
			}
			for _, o := range c.v.Obs {
				fmt.Println("    obs", o)
			}
			if len(c.v.Sched) > 0 {
				fmt.Println("    schedule", c.v.Sched)
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, p)
			break
		}
		if !ok {
			c := group[0]
			unconfirmed = append(unconfirmed, c.entry+": "+c.v.Kind+": "+c.v.Msg)
			if r.debug || os.Getenv("GOSYM_UNCONF") != "" {
				p := filepath.Join(ev, fmt.Sprintf("unconf-%s-%d.json", id, len(unconfirmed)))
				writeJSON(p, mk(c))
				fmt.Println("UNCONFIRMED", c.entry, c.v.Kind, c.v.Msg, p)
				for i, s := range c.v.Stack {
					if i > 12 {
						break
					}
					fmt.Println("    at", s)
				}
			}
		}
	}
	// differential validation of sampled paths
	validated, mismatched := 0, 0
	var mism []string
	var samples []interface{}
	var names []string
	for n := range r.samples {
		names = append(names, n)
	}
	sort.Strings(names)
	per := 12
	if r.thorough {
		per = 60
	}
	vdead := time.Now().Add(60 * time.Second)
	type vres struct {
		rec *Recording
		bad string
		ok  bool
	}
	var recs []*vres
	for _, n := range names {
		l := r.samples[n]
		// spread over the list
		k := len(l)
		stepN := 1
		if k > per {
			stepN = k / per
		}
		for i := 0; i < k; i += stepN {
			s := l[i]
			recs = append(recs, &vres{rec: &Recording{Property: id, Entry: n, Case: s.Case, Thorough: r.thorough, Log: s.Log, Sched: s.Sched, Obs: s.Obs}})
		}
	}
	sem := make(chan bool, 8)
	var wg sync.WaitGroup
	for i, v := range recs {
		wg.Add(1)
		go func(i int, v *vres) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			if time.Now().After(vdead) {
				return
			}
			p := filepath.Join(nat.dir, fmt.Sprintf("s%d.json", i))
			writeJSON(p, v.rec)
			mode := "seq"
			if len(v.rec.Sched) > 0 {
				mode = "coop"
			}
			o, err := nat.run(p, mode, 1, 20*time.Second)
			if err != nil {
				return
			}
			var obs []string
			for _, ln := range strings.Split(o.text, "\n") {
				if strings.HasPrefix(ln, "OBS ") {
					obs = append(obs, ln[4:])
				}
			}
			hasMap := false
			for _, e := range v.rec.Log {
				hasMap = hasMap || e.Kind == "map"
			}
			if o.code == 0 && strings.Join(obs, "\n") == strings.Join(v.rec.Obs, "\n") {
				v.ok = true
			} else if !hasMap {
				v.bad = fmt.Sprintf("%s case %d: exit %d", v.rec.Entry, v.rec.Case, o.code)
				if r.debug || os.Getenv("GOSYM_UNCONF") != "" {
					q := filepath.Join(ev, fmt.Sprintf("mism-%s-%d.json", id, i))
					writeJSON(q, v.rec)
					fmt.Println("MISMATCH", v.bad, q)
					t := o.text
					if len(t) > 1500 {
						t = t[:1500]
					}
					fmt.Println(t)
					fmt.Println("--- engine:")
					for _, s := range v.rec.Obs {
						fmt.Println("   ", s)
					}
				}
			}
		}(i, v)
	}
	wg.Wait()
	for _, v := range recs {
		if v.ok {
			validated++
			if len(samples) < 4 && len(v.rec.Log) > 0 {
				samples = append(samples, describe(v.rec))
			}
		}
		if v.bad != "" {
			mismatched++
			if len(mism) < 5 {
				mism = append(mism, v.bad)
			}
		}
	}
	if len(samples) == 0 && len(recs) > 0 {
		samples = append(samples, describe(recs[0].rec))
	}
	st := &conclusion{validated: validated, mismatched: mismatched, mism: mism, samples: samples, viols: viols, known: known, unconfirmed: unconfirmed}
	writeEvidence(verif, id, tier, start, ck, r, st, nil)
	paths, asserts, cuts := 0, 0, 0
	for _, s := range r.stats {
		paths += s.Paths
		asserts += s.Asserts
		for _, n := range s.Cut {
			cuts += n
		}
	}
	names = nil
	for n := range r.stats {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		s := r.stats[n]
		fmt.Printf("%-24s cases %d/%d paths %d infeasible %d asserts %d (solver %d, simplified %d) sched %d threads %d ins %d wall %.1fs\n", n, s.CasesDone, s.Cases, s.Paths, s.Infeasible, s.Asserts, s.AssertQ, s.AssertC, s.SchedPts, s.MaxThreads, s.Ins, s.Wall)
		for k, c := range s.Cut {
			fmt.Printf("    cut %d: %s\n", c, k)
		}
		var cov []string
		for k, c := range s.Cover {
			cov = append(cov, fmt.Sprintf("%s:%d", k, c))
		}
		sort.Strings(cov)
		if len(cov) > 0 {
			fmt.Printf("    cover %s\n", strings.Join(cov, " "))
		}
	}
	for _, u := range unconfirmed {
		fmt.Println("    unconfirmed:", u)
	}
	for _, e := range r.errors {
		fmt.Println("    error:", e)
	}
	fmt.Printf("%s: %d paths, %d assertions, %d cut, %d queries (%d unsat) %.1fs solver, validated %d mismatched %d, violations %d, %.1fs\n", id, paths, asserts, cuts, r.queries, r.unsat, r.solverT.Seconds(), validated, mismatched, viols, time.Since(start).Seconds())
	return viols
}

type conclusion struct {
	validated, mismatched, viols, known int
	mism, unconfirmed                   []string
	samples                             []interface{}
}

func describe(r *Recording) interface{} {
	var in []string
	for _, e := range r.Log {
		if e.Str != nil {
			in = append(in, fmt.Sprintf("%s=%q", e.Name, e.Str))
		} else {
			in = append(in, fmt.Sprintf("%s=%d", e.Name, int64(e.Val)))
		}
	}
	var sc []int
	for _, s := range r.Sched {
		sc = append(sc, s.Tid)
	}
	m := map[string]interface{}{"entry": r.Entry, "case": r.Case, "inputs": in, "observed": r.Obs}
	if len(sc) > 0 {
		m["schedule"] = sc
	}
	return m
}

func writeEvidence(verif, id, tier string, start time.Time, ck *Check, r *runner, c *conclusion, lerr error) {
	cov := map[string]interface{}{"bounds": ck.Bounds, "outside_the_bounds": ck.Outside}
	viol := 0
	states, trans := 0, 0
	if r == nil {
		cov["states"], cov["transitions"], cov["traces_validated_against_impl"] = 0, 0, 0
		cov["samples"] = []interface{}{}
		if lerr != nil {
			cov["inconclusive"] = lerr.Error()
		}
	} else {
		viol = c.viols
		var asserts, aq, ac int
		ents := map[string]interface{}{}
		exhaustive := true
		for n, s := range r.stats {
			states += s.Paths
			asserts += s.Asserts
			aq += s.AssertQ
			ac += s.AssertC
			if len(s.Cut) > 0 || s.CasesDone < s.Cases {
				exhaustive = false
			}
			ents[n] = map[string]interface{}{"cases": s.Cases, "cases_explored_completely": s.CasesDone, "paths": s.Paths, "infeasible_paths": s.Infeasible,
				"assertions_decided": s.Asserts, "ssa_instructions": s.Ins, "scheduling_decisions": s.SchedPts, "max_goroutines": s.MaxThreads,
				"cut_paths": s.Cut, "reached": s.Cover, "assertions_by_message": s.AssertBy, "cpu_s": round(s.Wall)}
		}
		for _, s := range r.stats {
			trans += int(s.Ins)
		}
		fns := []string{}
		for k := range r.repoFn {
			fns = append(fns, k)
		}
		sort.Strings(fns)
		cov["states"] = states
		cov["transitions"] = trans
		cov["states_are"] = "complete symbolic paths (each stands for all inputs that satisfy its path condition)"
		cov["transitions_are"] = "SSA instructions executed symbolically"
		cov["traces_validated_against_impl"] = c.validated
		cov["traces_that_differed_from_impl"] = c.mismatched
		if len(c.mism) > 0 {
			cov["differing_traces"] = c.mism
		}
		cov["samples"] = c.samples
		cov["entries"] = ents
		cov["functions_encoded"] = fns
		cov["library_functions_encoded"] = len(r.libFn)
		cov["assertions_decided"] = asserts
		cov["assertions_decided_by_solver_query"] = aq
		cov["assertions_decided_by_simplification_under_the_path_condition"] = ac
		cov["solver"] = map[string]interface{}{"name": r.solver, "queries": r.queries, "sat": r.sat, "unsat": r.unsat, "unknown": r.unknown, "time_s": round(r.solverT.Seconds())}
		cov["exhaustive_within_bounds"] = exhaustive
		cov["known_findings_reproduced"] = c.known
		if len(c.unconfirmed) > 0 {
			cov["counterexamples_not_reproduced_natively"] = c.unconfirmed
		}
		if len(r.errors) > 0 {
			cov["errors"] = r.errors
		}
	}
	e := map[string]interface{}{"property": id, "tier": tier, "seed": envInt("VERIF_SEED", 1), "level": "model_checking",
		"coverage": cov, "assumptions": ck.Assumptions, "wall_s": round(time.Since(start).Seconds()), "violations": viol}
	if ck.Assumptions == nil {
		e["assumptions"] = []string{}
	}
	writeJSON(filepath.Join(verif, "evidence", id+".json"), e)
}

func round(f float64) float64 { return float64(int64(f*100)) / 100 }

func doReplay(repo, verif, file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rec Recording
	if err := json.Unmarshal(b, &rec); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	l, err := load(repo, verif, strings.ToLower(rec.Property))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	n := newNative(l)
	defer n.close()
	abs, _ := filepath.Abs(file)
	f, mode := n.confirm(&rec, abs)
	if f == "" {
		fmt.Println("the recorded run does not fail on this tree")
		o, err := n.run(abs, map[bool]string{true: "coop", false: "seq"}[len(rec.Sched) > 0], 1, 20*time.Second)
		fmt.Println(o.text, err)
		if rec.Kind == "race" {
			o, err := n.run(abs, "race", 20, 60*time.Second)
			fmt.Println(o.text, err)
		}
		return 0
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n%s (mode %s)\n", rec.Property, file, f, mode)
	return 1
}
