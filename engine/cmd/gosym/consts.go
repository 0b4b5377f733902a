package main

import (
	"encoding/json"
	"go/constant"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"

	"gosym/vm"
)

// consts counts the string and small integer constants of the repository's functions.
type consts struct {
	Strings map[string]int
	Ints    map[string]int
}

func (l *Loaded) consts() *consts {
	c := &consts{map[string]int{}, map[string]int{}}
	for f := range ssautil.AllFunctions(l.Prog) {
		p := f.Pkg
		if p == nil && f.Parent() != nil {
			p = f.Parent().Pkg
		}
		if p == nil || !strings.HasPrefix(p.Pkg.Path(), vm.RepoPrefix) || strings.HasPrefix(p.Pkg.Path(), vm.HarnessPrefix) {
			continue
		}
		if pos := l.Prog.Fset.Position(f.Pos()); strings.HasSuffix(pos.Filename, "_test.go") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var ops [16]*ssa.Value
				for _, o := range in.Operands(ops[:0]) {
					k, ok := (*o).(*ssa.Const)
					if !ok || k.Value == nil {
						continue
					}
					switch k.Value.Kind() {
					case constant.String:
						c.Strings[constant.StringVal(k.Value)]++
					case constant.Int:
						if constant.Compare(k.Value, token.LEQ, constant.MakeInt64(1<<23)) && constant.Compare(k.Value, token.GTR, constant.MakeInt64(1)) {
							c.Ints[k.Value.ExactString()]++
						}
					}
				}
			}
		}
	}
	return c
}

// fresh returns the words and sizes that the loaded tree has and the baseline lacks. They are only
// hints about which further values are worth exploring: a special path, a limit on a length.
func (l *Loaded) fresh() (words []string, sizes []int) {
	var base consts
	b, err := os.ReadFile(filepath.Join(l.Verif, "go", "consts.json"))
	if err != nil || json.Unmarshal(b, &base) != nil {
		return nil, nil
	}
	c := l.consts()
	for w, n := range c.Strings {
		// another use of a separator is no hint
		if n > base.Strings[w] && len(w) > 0 && (len(w) > 1 || base.Strings[w] == 0) && len(w) <= 40 && !strings.ContainsAny(w, " %\r\n\t<>") {
			words = append(words, w)
		}
	}
	sort.Slice(words, func(i, j int) bool {
		if len(words[i]) != len(words[j]) {
			return len(words[i]) < len(words[j])
		}
		return words[i] < words[j]
	})
	if w := os.Getenv("GOSYM_WORDS"); w != "" {
		words = append(words, strings.Split(w, ",")...)
	}
	if len(words) > 16 {
		words = words[:16]
	}
	set := map[int]bool{}
	for s, n := range c.Ints {
		if n > base.Ints[s] {
			if k, ok := constant.Int64Val(constant.MakeFromLiteral(s, token.INT, 0)); ok && (base.Ints[s] == 0 || k < 100) {
				set[int(k)], set[int(k)+1] = true, true
			}
		}
	}
	for n := range set {
		sizes = append(sizes, n)
	}
	for _, s := range strings.Split(os.Getenv("GOSYM_SIZES"), ",") {
		if n, err := strconv.Atoi(s); err == nil {
			sizes = append(sizes, n)
		}
	}
	sort.Ints(sizes)
	return words, sizes
}
