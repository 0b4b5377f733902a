// Package sym is the interface between harnesses and the symbolic engine.
//
// The engine (/verif/engine) intercepts every exported function below. Compiled natively, the
// same functions replay one recorded run: nondeterministic values come from a log, and the
// schedule is either forced (mode "coop") or left to the Go runtime (modes "free" and "race").
package sym

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"
	"unsafe"
)

// LogEntry is one recorded nondeterministic value.
type LogEntry struct {
	Tid  int    `json:"t"`
	Kind string `json:"k"`
	Name string `json:"n"`
	Val  uint64 `json:"v"`
	Str  []byte `json:"s,omitempty"`
}

// SchedEntry names the goroutine picked at one scheduling decision.
type SchedEntry struct {
	Tid int `json:"t"`
}

// Recording is a run to replay.
type Recording struct {
	Entry    string       `json:"entry"`
	Case     int          `json:"case"`
	Thorough bool         `json:"thorough"`
	Log      []LogEntry   `json:"log"`
	Sched    []SchedEntry `json:"sched"`
	Mode     string       `json:"mode"`
	Msg      string       `json:"msg"`
	Kind     string       `json:"kind"`
	Obs      []string     `json:"obs,omitempty"`
	Stack    []string     `json:"stack,omitempty"`
}

type thr struct {
	id     int
	wake   chan struct{}
	kind   string // "" runnable, "done", "lock", "wait", "quiesce", "forever"
	can    func() bool
	armed  bool
	joined bool
}

var (
	rec      *Recording
	coop     bool
	race     bool
	logs     map[int][]LogEntry
	sched    []SchedEntry
	ths      []*thr
	cur      int
	gmu      sync.Mutex // free mode bookkeeping
	gids     map[int64]int
	obsOut   []string
	joinWG   *sync.WaitGroup
	exitCh   []chan int
	catchTid []int
	nthr     int
)

// Out prints a result line.
func out(s string) {
	os.Stdout.WriteString(s + "\n")
}

func finish(code int, s string) {
	if s != "" {
		out(s)
	}
	os.Exit(code)
}

// Load prepares the replay of r.
func Load(r *Recording) {
	rec = r
	coop = r.Mode == "coop"
	race = r.Mode == "race"
	logs = map[int][]LogEntry{}
	for _, e := range r.Log {
		if e.Kind == "map" {
			continue
		}
		logs[e.Tid] = append(logs[e.Tid], e)
	}
	sched = r.Sched
	ths = []*thr{{id: 0, wake: make(chan struct{}, 1)}}
	cur = 0
	gmu.Lock()
	gids = map[int64]int{goid(): 0}
	gmu.Unlock()
	obsOut = nil
	joinWG = &sync.WaitGroup{}
	exitCh = nil
	nthr = 1
}

// Obs returns the observations made so far.
func Obs() []string { return obsOut }

func goid() int64 {
	var b [64]byte
	n := runtime.Stack(b[:], false)
	f := strings.Fields(string(b[:n]))
	i, _ := strconv.ParseInt(f[1], 10, 64)
	return i
}

func tid() int {
	if coop || len(gids) == 1 {
		return cur
	}
	gmu.Lock()
	defer gmu.Unlock()
	return gids[goid()]
}

func next(kind, name string) LogEntry {
	t := tid()
	if !coop {
		gmu.Lock()
		defer gmu.Unlock()
	}
	l := logs[t]
	if len(l) == 0 {
		finish(4, "DIVERGED log exhausted at "+name)
	}
	e := l[0]
	logs[t] = l[1:]
	if e.Kind != kind || e.Name != name {
		finish(4, fmt.Sprintf("DIVERGED want %s %s, recorded %s %s", kind, name, e.Kind, e.Name))
	}
	return e
}

func Bool(name string) bool                { return next("bool", name).Val == 1 }
func Byte(name string) byte                { return byte(next("int", name).Val) }
func Int(name string) int                  { return int(next("int", name).Val) }
func Int64(name string) int64              { return int64(next("int", name).Val) }
func Uint64(name string) uint64            { return next("int", name).Val }
func IntRange(name string, lo, hi int) int { return int(next("int", name).Val) }

// Choose returns one of 0..n-1; the engine explores each as a path of its own.
func Choose(name string, n int) int {
	return int(next("int", name).Val)
}

// Case returns the number of the case this run explores, one of 0..n-1.
func Case(n int) int { return rec.Case }

// Thorough reports the tier.
func Thorough() bool { return rec.Thorough }

// Engine reports whether the code runs in the symbolic engine.
func Engine() bool { return false }

// String returns an arbitrary string of n bytes.
func String(name string, n int) string { return string(next("str", name).Str) }

// Word returns def or, where the code under test has string constants that the baseline lacks, one of them.
func Word(name, def string) string { return string(next("str", name).Str) }

// Size returns def or a number up to max that the code under test has as a constant and the baseline lacks.
func Size(name string, def, max int) int { return int(next("int", name).Val) }

// Assume restricts the run.
func Assume(c bool) {
	if !c {
		finish(4, "DIVERGED assumption is false")
	}
}

// Assert states the property.
func Assert(c bool, msg string) {
	if !c {
		finish(7, "FAILED "+msg)
	}
}

// Fail is Assert(false, msg).
func Fail(msg string) { finish(7, "FAILED "+msg) }

// Cover marks a point that must be reached.
func Cover(name string) {}

// Observe records a value; engine and native run must agree on it.
func Observe(label string, v interface{}) {
	gmu.Lock()
	obsOut = append(obsOut, label+"="+render(reflect.ValueOf(v)))
	gmu.Unlock()
}

func render(v reflect.Value) string {
	if !v.IsValid() {
		return "nil"
	}
	switch v.Kind() {
	case reflect.Bool:
		return fmt.Sprint(v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return fmt.Sprint(v.Int())
	case reflect.Uint, reflect.Uint64, reflect.Uintptr:
		return fmt.Sprint(int64(v.Uint()))
	case reflect.Uint8:
		return fmt.Sprint(int8(v.Uint()))
	case reflect.Uint16:
		return fmt.Sprint(int16(v.Uint()))
	case reflect.Uint32:
		return fmt.Sprint(int32(v.Uint()))
	case reflect.String:
		return fmt.Sprintf("%q", v.String())
	case reflect.Interface:
		return render(v.Elem())
	case reflect.Slice:
		var sb strings.Builder
		sb.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				sb.WriteByte(' ')
			}
			sb.WriteString(render(v.Index(i)))
		}
		sb.WriteByte(']')
		return sb.String()
	}
	return v.Type().String()
}

// And, Or, Not, Implies, Iff and IteInt build conditions without forking.
func And(c ...bool) bool {
	for _, x := range c {
		if !x {
			return false
		}
	}
	return true
}

func Or(c ...bool) bool {
	for _, x := range c {
		if x {
			return true
		}
	}
	return false
}

func Not(a bool) bool        { return !a }
func Implies(a, b bool) bool { return !a || b }
func Iff(a, b bool) bool     { return a == b }
func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}
func EqStr(a, b string) bool              { return a == b }
func LessStr(a, b string) bool            { return a < b }
func HasPrefix(s, p string) bool          { return strings.HasPrefix(s, p) }
func Contains(s, p string) bool           { return strings.Contains(s, p) }
func ContainsByte(s string, c byte) bool  { return strings.IndexByte(s, c) >= 0 }
func In(b byte, set string) bool          { return strings.IndexByte(set, b) >= 0 }
func Redirect(key string, fn interface{}) {}

// RedirectRepo is Redirect for calls from the code under test only.
func RedirectRepo(key string, fn interface{}) {}

// RedirectEngine is Redirect for the engine only: the native run keeps the real function.
func RedirectEngine(key string, fn interface{}) {}

// MapOrder makes the engine explore every iteration order of maps.
func MapOrder(on bool) {}

// TimeFromNanos returns an instant of the virtual clock.
func TimeFromNanos(ns int64) time.Time { return time.Unix(0, ns) }

// IsConcrete reports whether the engine knows v exactly.
func IsConcrete(v interface{}) bool { return true }

// StructString returns string field f of a struct (or string-keyed map) and the name of its type.
func StructString(data interface{}, f string) (string, string, bool) {
	v := reflect.ValueOf(data)
	for v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface {
		v = v.Elem()
	}
	var x reflect.Value
	switch v.Kind() {
	case reflect.Struct:
		x = v.FieldByName(f)
	case reflect.Map:
		x = v.MapIndex(reflect.ValueOf(f))
	}
	if x.IsValid() && x.Kind() == reflect.Interface {
		x = x.Elem()
	}
	if !x.IsValid() || x.Kind() != reflect.String {
		return "", "", false
	}
	return x.String(), x.Type().String(), true
}

// SliceSwap and SliceLen work on a slice of any type.
func SliceSwap(s interface{}, i, j int) { reflect.Swapper(s)(i, j) }
func SliceLen(s interface{}) int        { return reflect.ValueOf(s).Len() }

// PtrID identifies the object a pointer points to.
func PtrID(p interface{}) string {
	v := reflect.ValueOf(p)
	if v.IsNil() {
		return "nil"
	}
	return fmt.Sprintf("%x", v.Pointer())
}

// MapID identifies a map.
func MapID(m map[string][]string) string { return fmt.Sprintf("%x", reflect.ValueOf(m).Pointer()) }

// JSONMarshal and JSONUnmarshal are encoding/json.
func JSONMarshal(v interface{}, prefix, indent string) string {
	var b []byte
	var err error
	if prefix == "" && indent == "" {
		b, err = json.Marshal(v)
	} else {
		b, err = json.MarshalIndent(v, prefix, indent)
	}
	if err != nil {
		return ""
	}
	return string(b)
}

// JSONUnmarshal decodes the first value of data into v.
func JSONUnmarshal(data string, v interface{}) (int, string) {
	d := json.NewDecoder(bytes.NewReader([]byte(data)))
	if err := d.Decode(v); err != nil {
		return 0, err.Error()
	}
	return int(d.InputOffset()), ""
}

// ---- goroutines ----

// Tid is the number of the current goroutine, in order of creation.
func Tid() int { return tid() }

// Go starts a goroutine that Wait waits for.
func Go(f func()) { spawn(f, true) }

// NGo is the replacement of the go statement in the code under test.
func NGo(f func()) { spawn(f, false) }

func spawn(f func(), joined bool) {
	if coop {
		t := &thr{id: len(ths), wake: make(chan struct{}, 1), joined: joined}
		ths = append(ths, t)
		go func() {
			<-t.wake
			defer crash()
			f()
			t.kind = "done"
			resched()
		}()
		return
	}
	gmu.Lock()
	n := nthr
	nthr++
	gmu.Unlock()
	wg := joinWG
	if joined {
		wg.Add(1)
	}
	go func() {
		defer crash()
		if !race {
			gmu.Lock()
			gids[goid()] = n
			gmu.Unlock()
		}
		f()
		if joined {
			wg.Done()
		}
	}()
}

func crash() {
	if r := recover(); r != nil {
		var b [8192]byte
		n := runtime.Stack(b[:], false)
		out(string(b[:n]))
		finish(8, "PANIC "+fmt.Sprint(r))
	}
}

// resched hands control to the next recorded goroutine and returns when the current one runs again.
func resched() {
	me := ths[cur]
	pick := -1
	if len(sched) > 0 {
		pick = sched[0].Tid
		sched = sched[1:]
		if pick >= len(ths) || ths[pick].kind == "done" {
			finish(4, "DIVERGED schedule names an impossible goroutine")
		}
	} else {
		ok := func(t *thr) bool {
			switch t.kind {
			case "":
				return true
			case "done", "forever", "quiesce":
				return false
			case "wait":
				for _, o := range ths {
					if o.joined && o.kind != "done" {
						return false
					}
				}
				return true
			}
			return t.can()
		}
		if ok(me) {
			pick = me.id
		}
		for i := 0; pick < 0 && i < len(ths); i++ {
			if ok(ths[i]) {
				pick = i
			}
		}
		for i := 0; pick < 0 && i < len(ths); i++ {
			if ths[i].kind == "quiesce" {
				pick = i
			}
		}
		if pick < 0 {
			finish(9, "DEADLOCK")
		}
	}
	if ths[pick].kind != "" {
		ths[pick].kind = ""
	}
	ths[pick].armed = true
	if pick == me.id {
		return
	}
	done := me.kind == "done"
	cur = pick
	ths[pick].wake <- struct{}{}
	if !done {
		<-me.wake
	}
}

func blockOn(kind string, can func() bool) {
	t := ths[cur]
	t.kind, t.can = kind, can
	t.armed = false
	resched()
	t.armed = false
}

// Point is a scheduling point.
func Point() {
	if coop && len(ths) > 1 {
		t := ths[cur]
		if !t.armed {
			resched()
		}
		t.armed = false
	}
}

// Wait waits for all goroutines started by Go.
func Wait() {
	if coop {
		if len(ths) > 1 {
			blockOn("wait", nil)
		}
		return
	}
	done := make(chan bool)
	go func() { joinWG.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		finish(9, "DEADLOCK")
	}
}

// Quiesce waits until no other goroutine can run.
func Quiesce() {
	if coop {
		if len(ths) > 1 {
			blockOn("quiesce", nil)
		}
		return
	}
	for i := 0; i < 10; i++ {
		runtime.Gosched()
		time.Sleep(2 * time.Millisecond)
	}
}

// Yield lets any goroutine run next.
func Yield() {
	if coop {
		if len(ths) > 1 {
			blockOn("yield", func() bool { return true })
		}
		return
	}
	runtime.Gosched()
}

// BlockForever ends the current goroutine without running its deferred calls.
func BlockForever() {
	if coop {
		blockOn("forever", nil)
	}
	select {}
}

// Exit ends the process as far as the harness is concerned.
func Exit(code int) {
	if len(exitCh) == 0 {
		finish(10, "EXIT outside of CatchExit")
	}
	exitCh[len(exitCh)-1] <- code
	select {}
}

// CatchExit runs f and reports whether it ended the process.
func CatchExit(f func()) (bool, int) {
	ch := make(chan int, 16)
	exitCh = append(exitCh, ch)
	done := make(chan bool, 1)
	t := tid()
	go func() {
		defer crash()
		if !coop {
			gmu.Lock()
			gids[goid()] = t
			gmu.Unlock()
		}
		f()
		done <- true
	}()
	ex, code := false, 0
	select {
	case <-done:
	case code = <-ch:
		ex = true
		if coop {
			for _, o := range ths[1:] {
				o.kind = "done"
			}
			cur = t
			// the goroutine that ran f may be waiting: it must never wake up
			ths[t].wake = make(chan struct{}, 1)
			ths[t].kind = ""
		}
	}
	exitCh = exitCh[:len(exitCh)-1]
	return ex, code
}

// NLock and friends replace the methods of sync.Mutex and sync.RWMutex in the code under test.
func NLock(m *sync.Mutex) {
	if !coop {
		m.Lock()
		return
	}
	Point()
	for !m.TryLock() {
		blockOn("lock", func() bool {
			if m.TryLock() {
				m.Unlock()
				return true
			}
			return false
		})
	}
}

// Gate locks m on behalf of the harness, which is no scheduling point unless it has to wait.
func Gate(m *sync.Mutex) {
	if !coop {
		m.Lock()
		return
	}
	for !m.TryLock() {
		blockOn("lock", func() bool {
			if m.TryLock() {
				m.Unlock()
				return true
			}
			return false
		})
		ths[cur].armed = true
	}
}

func NTryLock(m *sync.Mutex) bool {
	if coop {
		Point()
	}
	return m.TryLock()
}

// TryLocks is set when the code under test observes locks without waiting for them. Unlocking
// is a scheduling point then.
var TryLocks bool

func NRWTryLock(m *sync.RWMutex) bool {
	if coop {
		Point()
	}
	return m.TryLock()
}

func NTryRLock(m *sync.RWMutex) bool {
	if coop {
		Point()
	}
	return m.TryRLock()
}

func NUnlock(m *sync.Mutex) {
	if coop && TryLocks {
		Point()
	}
	m.Unlock()
}

func NRWUnlock(m *sync.RWMutex) {
	if coop && TryLocks {
		Point()
	}
	m.Unlock()
}

func NRUnlock(m *sync.RWMutex) {
	if coop && TryLocks {
		Point()
	}
	m.RUnlock()
}

func NRWLock(m *sync.RWMutex) {
	if !coop {
		m.Lock()
		return
	}
	Point()
	for !m.TryLock() {
		blockOn("lock", func() bool {
			if m.TryLock() {
				m.Unlock()
				return true
			}
			return false
		})
	}
}

func NRLock(m *sync.RWMutex) {
	if !coop {
		m.RLock()
		return
	}
	Point()
	for !m.TryRLock() {
		blockOn("lock", func() bool {
			if m.TryRLock() {
				m.RUnlock()
				return true
			}
			return false
		})
	}
}

// chanState looks at a channel without changing it.
func chanState(c interface{}) (n, size int, closed, ok bool) {
	v := reflect.ValueOf(c)
	if v.Kind() != reflect.Chan || v.IsNil() {
		return
	}
	h := (*struct {
		qcount, dataqsiz uint
		buf              unsafe.Pointer
		elemsize         uint16
		closed           uint32
	})(unsafe.Pointer(v.Pointer()))
	return v.Len(), v.Cap(), h.closed != 0, true
}

// NChan comes before a statement with channel operations: dirs has r or s for each channel.
// It returns once an operation can proceed, or at once if the statement does not block.
func NChan(block bool, dirs string, chs ...interface{}) {
	if !coop {
		return
	}
	Point()
	if !block {
		return
	}
	ready := func() bool {
		for i, c := range chs {
			n, size, closed, ok := chanState(c)
			if ok && (closed || dirs[i] == 'r' && n > 0 || dirs[i] == 's' && n < size) {
				return true
			}
		}
		return false
	}
	for !ready() {
		blockOn("lock", ready)
	}
}

// Coop reports whether a schedule is being forced.
func Coop() bool { return coop }

// Run replays r on f and prints the outcome.
func Run(r *Recording, f func(), n int) {
	for i := 0; i < n; i++ {
		Load(r)
		done := make(chan bool)
		go func() {
			defer crash()
			gmu.Lock()
			gids = map[int64]int{goid(): 0}
			gmu.Unlock()
			f()
			close(done)
		}()
		<-done
	}
	for _, o := range obsOut {
		out("OBS " + o)
	}
	finish(0, "DONE")
}
