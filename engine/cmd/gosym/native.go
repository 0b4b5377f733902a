package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"gosym/vm"
)

// Recording mirrors sym.Recording.
type Recording struct {
	Property string          `json:"property"`
	Entry    string          `json:"entry"`
	Case     int             `json:"case"`
	Thorough bool            `json:"thorough"`
	Log      []vm.LogEntry   `json:"log"`
	Sched    []vm.SchedEntry `json:"sched"`
	Mode     string          `json:"mode"`
	Msg      string          `json:"msg"`
	Kind     string          `json:"kind"`
	Obs      []string        `json:"obs,omitempty"`
	Stack    []string        `json:"stack,omitempty"`
}

// Native builds and runs replays.
type Native struct {
	l    *Loaded
	dir  string
	mu   sync.Mutex
	bins map[bool]string
	errs map[bool]error
	ov   map[string]string
}

func newNative(l *Loaded) *Native {
	d, _ := os.MkdirTemp("", "gosym-")
	return &Native{l: l, dir: d, bins: map[bool]string{}, errs: map[bool]error{}}
}

func (n *Native) close() {
	if os.Getenv("GOSYM_KEEP") != "" {
		fmt.Fprintln(os.Stderr, "kept", n.dir)
		return
	}
	os.RemoveAll(n.dir)
}

func (n *Native) bin(race bool) (string, error) {
	n.mu.Lock()
	defer n.mu.Unlock()
	if b, ok := n.bins[race]; ok {
		return b, n.errs[race]
	}
	b, err := n.build(race, true)
	if err != nil {
		if b2, err2 := n.build(race, false); err2 == nil {
			b, err = b2, nil
		}
	}
	n.bins[race], n.errs[race] = b, err
	return b, err
}

func (n *Native) build(race, goOK bool) (string, error) {
	tag := fmt.Sprintf("%v-%v", race, goOK)
	sub := filepath.Join(n.dir, tag)
	os.MkdirAll(sub, 0755)
	ov, err := rewriteAll(n.l, sub, goOK)
	if err != nil {
		return "", err
	}
	for k, v := range n.l.Overlay {
		ov[k] = v
	}
	var names []string
	for e := range n.l.Entry {
		names = append(names, e)
	}
	sort.Strings(names)
	var b bytes.Buffer
	fmt.Fprintf(&b, "package main\nimport (\n\"encoding/json\"\n\"os\"\n\"strconv\"\np %q\n\"%ssym\"\n)\n", vm.HarnessPrefix+n.l.Pkg, vm.HarnessPrefix)
	fmt.Fprintf(&b, "var entries = map[string]func(){\n")
	for _, e := range names {
		fmt.Fprintf(&b, "%q: p.%s,\n", e, e)
	}
	fmt.Fprintf(&b, "}\nfunc main() {\nb, err := os.ReadFile(os.Args[1])\nif err != nil { panic(err) }\nr := new(sym.Recording)\nif err := json.Unmarshal(b, r); err != nil { panic(err) }\nr.Mode = os.Args[2]\nk, _ := strconv.Atoi(os.Args[3])\nsym.Run(r, entries[r.Entry], k)\n}\n")
	mf := filepath.Join(sub, "main.go")
	if err := os.WriteFile(mf, b.Bytes(), 0644); err != nil {
		return "", err
	}
	ov[filepath.Join(n.l.Repo, "verif", "replaymain", "main.go")] = mf
	oj, _ := json.Marshal(map[string]interface{}{"Replace": ov})
	of := filepath.Join(sub, "overlay.json")
	if err := os.WriteFile(of, oj, 0644); err != nil {
		return "", err
	}
	bin := filepath.Join(sub, "replay")
	args := []string{"build", "-overlay", of, "-o", bin}
	if race {
		args = append(args, "-race")
	}
	args = append(args, vm.HarnessPrefix+"replaymain")
	ctx, cancel := context.WithTimeout(context.Background(), 300*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, "go", args...)
	c.Dir = n.l.Repo
	out, err := c.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("go build: %v\n%s", err, out)
	}
	return bin, nil
}

type outcome struct {
	text    string
	timeout bool
	code    int
}

func (n *Native) run(rec, mode string, times int, d time.Duration) (outcome, error) {
	bin, err := n.bin(mode == "race")
	if err != nil {
		return outcome{}, err
	}
	ctx, cancel := context.WithTimeout(context.Background(), d)
	defer cancel()
	c := exec.CommandContext(ctx, bin, rec, mode, fmt.Sprint(times))
	c.Dir = n.dir
	c.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=66", "GOMEMLIMIT=2GiB")
	var buf limited
	c.Stdout, c.Stderr = &buf, &buf
	err = c.Run()
	o := outcome{text: buf.String(), timeout: ctx.Err() != nil}
	if c.ProcessState != nil {
		o.code = c.ProcessState.ExitCode()
	}
	return o, nil
}

type limited struct{ bytes.Buffer }

func (l *limited) Write(b []byte) (int, error) {
	if l.Len() < 1<<20 {
		l.Buffer.Write(b)
	}
	return len(b), nil
}

// failure classifies an outcome; "" means the run showed no violation.
func (o outcome) failure() string {
	if o.timeout {
		return "hang"
	}
	if strings.Contains(o.text, "WARNING: DATA RACE") {
		if repoRace(o.text) {
			return "race"
		}
		return ""
	}
	for _, l := range strings.Split(o.text, "\n") {
		switch {
		case strings.HasPrefix(l, "FAILED "):
			return "assert " + l[7:]
		case strings.HasPrefix(l, "PANIC "):
			return "panic " + l[6:]
		case strings.HasPrefix(l, "DEADLOCK"):
			return "deadlock"
		case strings.HasPrefix(l, "EXIT "):
			return "exit"
		case strings.HasPrefix(l, "fatal error: concurrent map"):
			return "race"
		case strings.HasPrefix(l, "fatal error: all goroutines are asleep"):
			return "deadlock"
		case strings.HasPrefix(l, "fatal error: "):
			return "panic " + l[13:]
		case strings.HasPrefix(l, "panic: "):
			return "panic " + l[7:]
		}
	}
	return ""
}

// repoRace reports whether one side of the reported race is code of the repository.
func repoRace(s string) bool {
	sec := strings.Split(s, " by ")
	for _, x := range sec[1:] {
		for _, l := range strings.Split(x, "\n")[1:] {
			l = strings.TrimSpace(l)
			if l == "" {
				break
			}
			if strings.HasPrefix(l, "/") || strings.HasPrefix(l, "runtime.") || strings.HasPrefix(l, "internal/") || strings.HasPrefix(l, "sync") {
				continue
			}
			if strings.HasPrefix(l, vm.RepoPrefix) && !strings.HasPrefix(l, vm.HarnessPrefix) {
				return true
			}
			if i := strings.IndexByte(l, '/'); i < 0 || !strings.Contains(l[:i], ".") {
				continue // the standard library, called by one of them
			}
			break
		}
	}
	return false
}

// confirm replays a counterexample against the real code. It returns how it failed, or "".
func (n *Native) confirm(r *Recording, file string) (string, string) {
	hasMap := false
	for _, e := range r.Log {
		if e.Kind == "map" {
			hasMap = true
		}
	}
	try := func(mode string, times, procs int, d time.Duration) string {
		for i := 0; i < procs; i++ {
			o, err := n.run(file, mode, times, d)
			if err != nil {
				fmt.Fprintln(os.Stderr, "replay:", err)
				return ""
			}
			f := o.failure()
			if f == "hang" && r.Kind != "hang" && r.Kind != "deadlock" {
				return "" // the recorded run could not be forced
			}
			if f != "" {
				return f
			}
		}
		return ""
	}
	if r.Kind == "race" {
		if f := try("race", 20, 3, 60*time.Second); f != "" {
			return f, "race"
		}
		return "", ""
	}
	procs := 1
	if hasMap {
		procs = 60
	}
	if len(r.Sched) > 0 {
		if f := try("coop", 1, procs, 10*time.Second); f != "" {
			return f, "coop"
		}
		if f := try("free", 1, 40, 10*time.Second); f != "" {
			return f, "free"
		}
		return "", ""
	}
	if f := try("seq", 1, procs, 15*time.Second); f != "" {
		return f, "seq"
	}
	return "", ""
}
