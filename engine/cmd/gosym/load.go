package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"

	"gosym/vm"
)

// Loaded is /repo with the harness packages laid over it.
type Loaded struct {
	TryLocks    bool
	Repo, Verif string
	Pkg         string // harness package, e.g. c01
	Overlay     map[string]string
	Pkgs        []*packages.Package
	Prog        *ssa.Program
	Entry       map[string]*ssa.Function
}

// harnessFiles maps overlay paths in /repo to files of /verif.
func harnessFiles(repo, verif, pkg string) (map[string]string, error) {
	ov := map[string]string{}
	for _, d := range []string{"sym", "env", "lib", pkg} {
		fs, err := filepath.Glob(filepath.Join(verif, "go", d, "*.go"))
		if err != nil {
			return nil, err
		}
		if len(fs) == 0 {
			return nil, fmt.Errorf("no harness package %s", d)
		}
		for _, f := range fs {
			ov[filepath.Join(repo, "verif", d, filepath.Base(f))] = f
		}
	}
	return ov, nil
}

func load(repo, verif, pkg string) (*Loaded, error) {
	l := &Loaded{Repo: repo, Verif: verif, Pkg: pkg, Entry: map[string]*ssa.Function{}}
	var err error
	if l.Overlay, err = harnessFiles(repo, verif, pkg); err != nil {
		return nil, err
	}
	ov := map[string][]byte{}
	for k, f := range l.Overlay {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		ov[k] = b
	}
	cfg := &packages.Config{
		Mode:    packages.LoadAllSyntax | packages.NeedModule,
		Dir:     repo,
		Overlay: ov,
		Env:     os.Environ(),
	}
	pkgs, err := packages.Load(cfg, vm.HarnessPrefix+pkg, vm.RepoPrefix+"/...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		sort.Strings(errs)
		if len(errs) > 8 {
			errs = errs[:8]
		}
		return nil, fmt.Errorf("%s", strings.Join(errs, "\n"))
	}
	l.Pkgs = pkgs
	for _, p := range pkgs {
		if strings.HasPrefix(p.PkgPath, vm.HarnessPrefix) {
			continue
		}
		for _, o := range p.TypesInfo.Uses {
			if f, ok := o.(*types.Func); ok && isTryLock(f) {
				l.TryLocks = true
			}
		}
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	l.Prog = prog
	for i, p := range pkgs {
		if p.PkgPath == vm.HarnessPrefix+pkg && spkgs[i] != nil {
			for n, m := range spkgs[i].Members {
				if f, ok := m.(*ssa.Function); ok && strings.HasPrefix(n, "H_") {
					l.Entry[n] = f
				}
			}
		}
	}
	if len(l.Entry) == 0 {
		return nil, fmt.Errorf("no entries in package %s", pkg)
	}
	return l, nil
}

// isTryLock reports whether f observes a lock without waiting for it.
func isTryLock(f *types.Func) bool {
	return f.Pkg() != nil && f.Pkg().Path() == "sync" && (f.Name() == "TryLock" || f.Name() == "TryRLock")
}

func writeJSON(path string, v interface{}) error {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		return err
	}
	os.MkdirAll(filepath.Dir(path), 0755)
	return os.WriteFile(path, append(b, '\n'), 0644)
}
