// Package env models the environment of the server: files, clock, process exit, signals,
// listeners and the file-serving part of net/http.
//
// The table in Init names the standard-library functions that are replaced. The engine follows it
// at run time; for native replays /verif/engine/rewrite rewrites the calls in a copy of /repo.
package env

import (
	"fmt"
	"io"
	"log"
	"os"
	"strings"
	"time"

	"github.com/redmaner/MaguroHTTP/verif/sym"
	"golang.org/x/time/rate"
)

// Init installs the stubs and resets the environment.
func Init() {
	reset()

	sym.Redirect("time.Now", Now)
	sym.Redirect("time.Since", Since)
	sym.Redirect("time.Until", Until)
	sym.Redirect("time.Sleep", Sleep)
	sym.Redirect("time.After", After)
	sym.Redirect("time.Tick", Tick)
	sym.Redirect("time.NewTicker", NewTicker)
	sym.Redirect("(*time.Ticker).Stop", TickerStop)
	sym.Redirect("time.NewTimer", NewTimer)
	sym.Redirect("(*time.Timer).Stop", TimerStop)
	sym.Redirect("time.AfterFunc", AfterFunc)
	sym.Redirect("(*time.Ticker).Reset", TickerReset)
	sym.Redirect("(*time.Timer).Reset", TimerReset)
	sym.Redirect("(*sync.Map).Load", SMLoad)
	sym.Redirect("(*sync.Map).Store", SMStore)
	sym.Redirect("(*sync.Map).LoadOrStore", SMLoadOrStore)
	sym.Redirect("(*sync.Map).LoadAndDelete", SMLoadAndDelete)
	sym.Redirect("(*sync.Map).Delete", SMDelete)
	sym.Redirect("(*sync.Map).Swap", SMSwap)
	sym.Redirect("(*sync.Map).CompareAndSwap", SMCompareAndSwap)
	sym.Redirect("(*sync.Map).CompareAndDelete", SMCompareAndDelete)
	sym.Redirect("(*sync.Map).Clear", SMClear)
	sym.Redirect("(*sync.Map).Range", SMRange)
	sym.Redirect("os.Exit", Exit)
	sym.Redirect("log.Fatal", Fatal)
	sym.Redirect("log.Fatalf", Fatalf)
	sym.Redirect("log.Fatalln", Fatalln)
	sym.Redirect("log.Print", Print)
	sym.Redirect("log.Printf", Printf)
	sym.Redirect("log.Println", Println)
	sym.Redirect("log.New", LogNew)
	sym.Redirect("(*log.Logger).Print", LPrint)
	sym.Redirect("(*log.Logger).Printf", LPrintf)
	sym.Redirect("(*log.Logger).Println", LPrintln)
	sym.Redirect("(*log.Logger).Output", LOutput)
	sym.Redirect("(*log.Logger).Fatal", LFatal)
	sym.Redirect("(*log.Logger).Fatalf", LFatalf)
	sym.Redirect("(*log.Logger).Fatalln", LFatalln)

	sym.Redirect("(*golang.org/x/time/rate.Limiter).Allow", LimiterAllow)
	sym.Redirect("(*golang.org/x/time/rate.Limiter).Reserve", LimiterReserve)

	sym.Redirect("os.Stat", Stat)
	sym.Redirect("os.Lstat", Lstat)
	sym.Redirect("os.Open", Open)
	sym.Redirect("os.Create", Create)
	sym.Redirect("os.OpenFile", OpenFile)
	sym.Redirect("os.CreateTemp", CreateTemp)
	sym.Redirect("io/ioutil.TempFile", CreateTemp)
	sym.Redirect("os.ReadFile", ReadFile)
	sym.Redirect("io/ioutil.ReadFile", ReadFile)
	sym.Redirect("os.WriteFile", WriteFile)
	sym.Redirect("io/ioutil.WriteFile", WriteFile)
	sym.Redirect("os.Rename", Rename)
	sym.Redirect("os.Remove", Remove)
	sym.Redirect("os.RemoveAll", RemoveAll)
	sym.Redirect("os.Mkdir", Mkdir)
	sym.Redirect("os.MkdirAll", MkdirAll)
	sym.Redirect("os.Chmod", Chmod)
	sym.Redirect("os.Truncate", Truncate)
	sym.Redirect("os.ReadDir", ReadDirE)
	sym.Redirect("io/ioutil.ReadDir", ReadDirI)
	sym.Redirect("(*os.File).Read", FRead)
	sym.Redirect("(*os.File).Write", FWrite)
	sym.Redirect("(*os.File).WriteString", FWriteString)
	sym.Redirect("(*os.File).WriteAt", FWriteAt)
	sym.Redirect("(*os.File).ReadAt", FReadAt)
	sym.Redirect("(*os.File).Close", FClose)
	sym.Redirect("(*os.File).Sync", FSync)
	sym.Redirect("(*os.File).Stat", FStat)
	sym.Redirect("(*os.File).Name", FName)
	sym.Redirect("(*os.File).Seek", FSeek)
	sym.Redirect("(*os.File).Truncate", FTruncate)
	sym.Redirect("(*os.File).Chmod", FChmod)
	sym.Redirect("(*os.File).ReadFrom", FReadFrom)
	sym.Redirect("(*os.File).WriteTo", FWriteTo)
	sym.Redirect("(*os.File).Readdir", FReaddir)
	sym.Redirect("path/filepath.Walk", Walk)
	sym.Redirect("path/filepath.WalkDir", WalkDir)
	sym.Redirect("path/filepath.Glob", Glob)

	sym.Redirect("net/http.ServeFile", ServeFile)
	sym.Redirect("net/http.ServeContent", ServeContent)
	sym.RedirectRepo("index net/http.Header", HeaderMap)
	sym.RedirectRepo("(net/http.Header).Get", HeaderGet)
	sym.RedirectRepo("(net/http.Header).Values", HeaderValues)
	sym.RedirectRepo("(*net/http.Request).UserAgent", ReqUserAgent)
	sym.RedirectRepo("(*net/http.Request).Referer", ReqReferer)
	sym.RedirectRepo("(*net/http.Request).FormValue", FormValue)
	sym.RedirectRepo("(*net/http.Request).Cookie", Cookie)
	sym.RedirectRepo("(*net/url.URL).Query", URLQuery)
	sym.RedirectRepo("(net/url.Values).Get", ValuesGet)
	sym.RedirectRepo("(net/url.Values).Has", ValuesHas)
	sym.Redirect("(*net/http.Server).ListenAndServe", ListenAndServe)
	sym.Redirect("(*net/http.Server).ListenAndServeTLS", ListenAndServeTLS)
	sym.Redirect("(*net/http.Server).Serve", ServerServe)
	sym.Redirect("(*net/http.Server).ServeTLS", ServerServeTLS)
	sym.Redirect("net.Listen", Listen)
	sym.Redirect("crypto/tls.Listen", TLSListen)
	sym.Redirect("crypto/tls.NewListener", TLSNewListener)
	sym.Redirect("crypto/tls.LoadX509KeyPair", LoadX509KeyPair)
	sym.RedirectEngine("(*golang.org/x/crypto/acme/autocert.Manager).createCert", createCert)
	sym.Redirect("(*net/http.Server).Shutdown", Shutdown)
	sym.Redirect("(*net/http.Server).Close", ServerClose)
	sym.Redirect("(*net/http.Server).SetKeepAlivesEnabled", SetKeepAlivesEnabled)
	sym.Redirect("(*net/http.Server).RegisterOnShutdown", RegisterOnShutdown)
	sym.Redirect("os/signal.Notify", Notify)
	sym.Redirect("os/signal.Stop", StopNotify)
	sym.Redirect("context.WithTimeout", WithTimeout)
	sym.Redirect("context.WithDeadline", WithDeadline)
	sym.Redirect("crypto/x509.SystemCertPool", SystemCertPool)
	sym.Redirect("golang.org/x/crypto/acme/autocert.HostWhitelist", HostWhitelist)
	sym.Redirect("github.com/hashicorp/hcl.Unmarshal", HCLUnmarshal)
	sym.Redirect("html/template.ParseFiles", ParseFiles)

	sym.RedirectEngine("(*html/template.Template).ExecuteTemplate", ExecuteTemplate)
	sym.RedirectEngine("(*html/template.Template).Execute", ExecuteT)
	sym.RedirectEngine("html/template.HTMLEscapeString", htmlEscape)
	sym.RedirectEngine("text/template.HTMLEscapeString", htmlEscape)
	sym.RedirectEngine("html.EscapeString", htmlEscape5)
	sym.RedirectEngine("encoding/json.NewDecoder", jsonNewDecoder)
	sym.RedirectEngine("(*encoding/json.Decoder).Decode", jsonDecode)
	sym.RedirectEngine("encoding/json.Unmarshal", jsonUnmarshal)
	sym.RedirectEngine("encoding/json.Marshal", jsonMarshal)
	sym.RedirectEngine("encoding/json.MarshalIndent", jsonMarshalIndent)
	sym.RedirectEngine("encoding/json.NewEncoder", jsonNewEncoder)
	sym.RedirectEngine("(*encoding/json.Encoder).Encode", jsonEncode)
	sym.RedirectEngine("(*encoding/json.Encoder).SetIndent", jsonSetIndent)
	sym.RedirectEngine("errors.Is", errorsIs)
	sym.RedirectEngine("sort.Slice", sortSlice)
	sym.RedirectEngine("sort.SliceStable", sortSlice)
	sym.RedirectEngine("mime.TypeByExtension", mimeType)
}

// ---- process and clock ----

var (
	// Clock is the current instant in nanoseconds.
	Clock int64
	// Step is added to the clock by every reading.
	Step int64
	// Logs collects what loggers wrote.
	Logs []LogLine
	// SleepLeft is the number of sleeps that return (after advancing the clock).
	SleepLeft int
	pauses    int
	// Slept records the durations of all sleeps.
	Slept []time.Duration
	// OnSleep, if set, runs at the start of each sleep.
	OnSleep func(d time.Duration)
)

// LogLine is one line written through a logger.
type LogLine struct {
	Out  string // "std" for the log package, else the name of the file
	Text string
}

const T0 = int64(1600000000000000000)

func reset() {
	Clock = T0
	Step = 0
	Logs = nil
	SleepLeft = 0
	pauses = 0
	Slept = nil
	OnSleep = nil
	timers = map[*time.Timer]*timer{}
	tickers = map[*time.Ticker]*timer{}
	resetFS()
	resetServer()
	resetMisc()
	resetOpen()
}

func Now() time.Time {
	Clock += Step
	return sym.TimeFromNanos(Clock)
}

func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

// Sleep blocks forever once SleepLeft is used up.
func Sleep(d time.Duration) {
	Slept = append(Slept, d)
	if OnSleep != nil {
		OnSleep(d)
	}
	if d < 5*time.Second {
		// a pause: other goroutines run, the clock moves on; only few pauses are followed
		pauses++
		sym.Assume(pauses <= 4)
		Clock += int64(d)
		sym.Yield()
		return
	}
	if SleepLeft <= 0 {
		sym.BlockForever()
	}
	SleepLeft--
	Clock += int64(d)
}

// timer is a running timer or ticker. A goroutine sleeps for it, unless it would sleep forever.
type timer struct {
	c    chan time.Time
	f    func()
	d    time.Duration
	many bool
	run  int // changes when it is stopped or reset
	live bool
}

var (
	timers  map[*time.Timer]*timer
	tickers map[*time.Ticker]*timer
)

func (t *timer) start() {
	t.run++
	t.live = true
	run := t.run
	if t.d >= 5*time.Second && SleepLeft <= 0 {
		Slept = append(Slept, t.d)
		if OnSleep != nil {
			OnSleep(t.d)
		}
		return
	}
	sym.NGo(func() {
		for {
			Sleep(t.d)
			if t.run != run {
				return
			}
			t.live = t.many
			if t.f != nil {
				t.f()
				return
			}
			select {
			case t.c <- Now():
			default:
			}
			if !t.many {
				return
			}
		}
	})
}

func (t *timer) stop() bool {
	l := t.live
	t.live = false
	t.run++
	return l
}

func newTimer(d time.Duration, f func()) *time.Timer {
	t := &timer{d: d, f: f}
	r := &time.Timer{}
	if f == nil {
		t.c = make(chan time.Time, 1)
		r.C = t.c
	}
	timers[r] = t
	t.start()
	return r
}

func NewTicker(d time.Duration) *time.Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	t := &timer{d: d, c: make(chan time.Time, 1), many: true}
	r := &time.Ticker{C: t.c}
	tickers[r] = t
	t.start()
	return r
}

func After(d time.Duration) <-chan time.Time { return newTimer(d, nil).C }
func Tick(d time.Duration) <-chan time.Time  { return NewTicker(d).C }
func TickerStop(t *time.Ticker)              { tickers[t].stop() }
func NewTimer(d time.Duration) *time.Timer   { return newTimer(d, nil) }
func TimerStop(t *time.Timer) bool           { return timers[t].stop() }

func TickerReset(t *time.Ticker, d time.Duration) {
	tickers[t].stop()
	tickers[t].d = d
	tickers[t].start()
}

func TimerReset(t *time.Timer, d time.Duration) bool {
	l := timers[t].stop()
	timers[t].d = d
	timers[t].start()
	return l
}

// AfterFunc runs f in a goroutine once it has slept.
func AfterFunc(d time.Duration, f func()) *time.Timer { return newTimer(d, f) }

// LimiterAllow is Allow on the virtual clock.
func LimiterAllow(l *rate.Limiter) bool { return l.AllowN(Now(), 1) }

// LimiterReserve is Reserve on the virtual clock.
func LimiterReserve(l *rate.Limiter) *rate.Reservation { return l.ReserveN(Now(), 1) }

func Exit(code int) { sym.Exit(code) }

func logTo(o, s string) {
	if len(s) == 0 || s[len(s)-1] != '\n' {
		s += "\n"
	}
	Logs = append(Logs, LogLine{o, s})
}

func Fatal(v ...interface{})            { logTo("std", fmt.Sprint(v...)); sym.Exit(1) }
func Fatalf(f string, v ...interface{}) { logTo("std", fmt.Sprintf(f, v...)); sym.Exit(1) }
func Fatalln(v ...interface{})          { logTo("std", fmt.Sprintln(v...)); sym.Exit(1) }
func Print(v ...interface{})            { logTo("std", fmt.Sprint(v...)) }
func Printf(f string, v ...interface{}) { logTo("std", fmt.Sprintf(f, v...)) }
func Println(v ...interface{})          { logTo("std", fmt.Sprintln(v...)) }

var loggers map[*log.Logger]io.Writer

// LogNew is log.New; its output goes to Logs.
func LogNew(w io.Writer, prefix string, flags int) *log.Logger {
	l := new(log.Logger)
	loggers[l] = w
	return l
}

func lout(l *log.Logger, s string) {
	w := loggers[l]
	name := "?"
	switch x := w.(type) {
	case *os.File:
		name = FName(x)
	case *FileW:
		name = FName(x.f)
	}
	logTo(name, s)
}

func LPrint(l *log.Logger, v ...interface{})            { lout(l, fmt.Sprint(v...)) }
func LPrintf(l *log.Logger, f string, v ...interface{}) { lout(l, fmt.Sprintf(f, v...)) }
func LPrintln(l *log.Logger, v ...interface{})          { lout(l, fmt.Sprintln(v...)) }
func LOutput(l *log.Logger, d int, s string) error      { lout(l, s); return nil }
func LFatal(l *log.Logger, v ...interface{})            { lout(l, fmt.Sprint(v...)); sym.Exit(1) }
func LFatalf(l *log.Logger, f string, v ...interface{}) { lout(l, fmt.Sprintf(f, v...)); sym.Exit(1) }
func LFatalln(l *log.Logger, v ...interface{})          { lout(l, fmt.Sprintln(v...)); sym.Exit(1) }

// LogLines returns what was written to output o.
func LogLines(o string) []string {
	var r []string
	for _, l := range Logs {
		if l.Out == o {
			r = append(r, l.Text)
		}
	}
	return r
}

func contains(s, x string) bool { return strings.Contains(s, x) }
