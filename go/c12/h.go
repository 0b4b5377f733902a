// Package c12 decides property C12: concurrent use of the cache.
package c12

import (
	"sync"

	"github.com/redmaner/MaguroHTTP/cache"
	"github.com/redmaner/MaguroHTTP/verif/env"
	"github.com/redmaner/MaguroHTTP/verif/sym"
)

// shard 0: alw, awd and the fillers; shard 7: aga
var keys = []string{"alw", "awd", "aga"}
var fillers = []string{"bbx", "bxo", "bxz", "cws", "djj", "djq", "dmu", "eqh", "eue"}

type op struct {
	kind, key int // 0 Set, 1 Get, 2 Find
	val       int // value set or returned, 0 for a miss
	from, to  int // real-time stamps
}

type world struct {
	mu    sync.Mutex
	clock int
	c     *cache.SpearCache
	ops   []*op
	init  [3]int
}

const long = 1 << 60

func (w *world) stamp() int {
	w.mu.Lock()
	w.clock++
	n := w.clock
	w.mu.Unlock()
	return n
}

func (w *world) do(o *op) {
	o.from = w.stamp()
	get := func(hit bool, v interface{}) {
		if hit {
			n, ok := v.(int)
			sym.Assert(ok && n != 0, "a hit returns a stored value")
			o.val = n
		}
	}
	switch o.kind {
	case 0:
		w.c.Set(keys[o.key], o.val)
	case 1:
		get(w.c.Get(keys[o.key], long))
	case 2:
		hit, v, age := w.c.Find(keys[o.key])
		get(hit, v)
		sym.Assert(!hit || age < long, "the age of an entry is not negative")
	}
	o.to = w.stamp()
}

// explained says whether some order of the operations explains their results.
func (w *world) explained() bool {
	n := len(w.ops)
	used := make([]bool, n)
	state := w.init
	var rec func(k int) bool
	rec = func(k int) bool {
		if k == n {
			return true
		}
		for i, o := range w.ops {
			if used[i] {
				continue
			}
			ready := true
			for j, p := range w.ops {
				if !used[j] && j != i && p.to < o.from {
					ready = false
				}
			}
			if !ready {
				continue
			}
			save := state
			if o.kind == 0 {
				state[o.key] = o.val
			} else if state[o.key] != o.val {
				continue
			}
			used[i] = true
			if rec(k + 1) {
				return true
			}
			used[i] = false
			state = save
		}
		return false
	}
	return rec(0)
}

func start() *world {
	env.Init()
	env.Step = 1
	w := &world{c: cache.NewCache()}
	fill := func(n int) {
		for i := 0; i < n; i++ {
			w.c.Set(fillers[i%len(fillers)], -1)
		}
	}
	set := func(k, v int) {
		w.c.Set(keys[k], v)
		w.init[k] = v
	}
	switch sym.Choose("start", 4) {
	case 0:
	case 1:
		set(0, 90)
	case 2:
		fill(1023)
		set(0, 90)
		set(2, 91)
	case 3:
		fill(3)
		set(0, 90)
		set(1, 91)
		fill(8)
	}
	return w
}

// finish reads every key back and judges the whole history.
func (w *world) finish() {
	for i := range keys {
		o := &op{kind: 1, key: i}
		w.do(o)
		w.ops = append(w.ops, o)
	}
	var res []int
	for _, o := range w.ops {
		if o.kind > 0 {
			res = append(res, o.val)
		}
	}
	sym.Observe("results", res)
	sym.Assert(w.explained(), "the results are explained by a sequential order of the calls")
	sym.Cover("end")
}

func pick(k, val int) *op {
	o := &op{kind: k / 3, key: k % 3}
	if o.kind == 0 {
		o.val = val
	}
	return o
}

func (w *world) spawn(ops ...*op) {
	w.ops = append(w.ops, ops...)
	sym.Go(func() {
		for _, o := range ops {
			w.do(o)
		}
	})
}

// H_two: two goroutines of one operation each.
func H_two() {
	w := start()
	k := sym.Case(81)
	w.spawn(pick(k%9, 1))
	w.spawn(pick(k/9, 2))
	sym.Wait()
	w.finish()
}

// H_seq: one goroutine of two operations against one of one.
func H_seq() {
	w := start()
	k := sym.Case(81)
	w.spawn(pick(k%9, 1), pick(k/9, 2))
	w.spawn(pick([]int{0, 2, 3, 6, 5}[sym.Choose("other", 5)], 3))
	sym.Wait()
	w.finish()
}

// H_three: three goroutines.
func H_three() {
	w := start()
	k := sym.Case(25)
	ops := []int{0, 1, 3, 6, 2}
	w.spawn(pick(ops[k%5], 1))
	w.spawn(pick(ops[k/5], 2))
	w.spawn(pick(ops[sym.Choose("third", 4)], 3))
	sym.Wait()
	w.finish()
}

// H_four: two goroutines of two operations each.
func H_four() {
	w := start()
	k := sym.Case(81)
	ops := []int{0, 3, 2, 6}
	w.spawn(pick(k%9, 1), pick(k/9, 2))
	w.spawn(pick(ops[sym.Choose("third", 4)], 3), pick(ops[sym.Choose("fourth", 4)], 4))
	sym.Wait()
	w.finish()
}

type timed struct {
	kind, from, to int
	before, after  int64 // readings of the clock before and after
	hit            bool
	age            uint64
}

// H_age: concurrent lookups by age, with a symbolic speed of time and a symbolic maximal age.
func H_age() {
	env.Init()
	w := &world{c: cache.NewCache()}
	speed := sym.Int64("speed")
	sym.Assume(sym.And(speed >= 0, speed < 1<<40))
	env.Step = speed
	maxAge := sym.Uint64("max age")
	k := sym.Case(12)
	var ops []*timed
	do := func(o *timed) {
		o.from = w.stamp()
		o.before = env.Now().UnixNano()
		switch o.kind {
		case 0:
			w.c.Set(keys[0], 7)
			o.hit = true
		case 1:
			hit, v := w.c.Get(keys[0], maxAge)
			sym.Assert(!hit || v.(int) == 7, "a hit returns the stored value")
			o.hit = hit
		case 2:
			hit, v, age := w.c.Find(keys[0])
			sym.Assert(!hit || v.(int) == 7, "a hit returns the stored value")
			o.hit, o.age = hit, age
		}
		o.after = env.Now().UnixNano()
		o.to = w.stamp()
	}
	run := func(os ...*timed) {
		ops = append(ops, os...)
		sym.Go(func() {
			for _, o := range os {
				do(o)
			}
		})
	}
	if sym.Choose("stored before", 2) == 1 {
		o := &timed{kind: 0}
		ops = append(ops, o)
		do(o)
	}
	kinds := []int{1, 0, 2, 1}
	if k%2 == 0 {
		run(&timed{kind: kinds[k/2%3]})
	} else {
		run(&timed{kind: kinds[k/2%3]}, &timed{kind: 1})
	}
	run(&timed{kind: k / 6}, &timed{kind: kinds[sym.Choose("other", 3)]})
	sym.Wait()
	last := &timed{kind: 1}
	ops = append(ops, last)
	do(last)
	for _, o := range ops {
		if o.kind == 0 {
			continue
		}
		some, must := false, false
		for _, r := range ops {
			if r == o || !r.hit || r.from > o.to {
				continue
			}
			// the least and the greatest age the entry can have if r refreshed it last
			least, most := o.before-r.after, o.after-r.before
			if o.kind == 2 {
				some = sym.Or(some, sym.And(int64(o.age) >= least, int64(o.age) <= most))
				must = must || r.to < o.from
				continue
			}
			some = sym.Or(some, sym.Or(least <= 0, uint64(least) <= maxAge))
			must = sym.Or(must, sym.And(r.to < o.from, uint64(most) <= maxAge))
		}
		if o.hit {
			sym.Assert(some, "a hit is explained by a refresh that is recent enough")
			sym.Cover("hit")
		} else {
			sym.Assert(sym.Not(must), "an entry that a completed call refreshed recently enough hits")
			sym.Cover("miss")
		}
	}
}
