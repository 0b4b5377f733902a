package lib

import (
	"github.com/redmaner/MaguroHTTP/cache"
	"github.com/redmaner/MaguroHTTP/verif/env"
	"github.com/redmaner/MaguroHTTP/verif/sym"
)

// keys that hash into shard 0, and one each of two other shards
var (
	CacheKeys = []string{"alw", "awd", "aga", "ayq"}
	fillers   = []string{"bbx", "bxo", "bxz", "cws", "djj", "djq", "dmu", "eqh", "eue"}
)

type centry struct {
	val  int
	last int64
	seq  int
	ok   bool
}

// CacheRef is a cache together with its reference.
type CacheRef struct {
	C     *cache.SpearCache
	ref   map[string]*centry
	keys  []string // symbolic keys are compared, not looked up
	seq   int
	nval  int
	nfill int
	Hits  bool // also require hits (C11); otherwise only the content of hits is judged (C10)
}

// NewCacheRef returns an empty cache and reference.
func NewCacheRef(hits bool) *CacheRef {
	return &CacheRef{C: cache.NewCache(), ref: map[string]*centry{}, Hits: hits, nval: 100}
}

// Tick lets any amount of time pass.
func Tick(name string) {
	d := sym.Int64(name)
	sym.Assume(sym.And(d >= 0, d < 1<<50))
	env.Clock += d
}

func (c *CacheRef) entry(key string) *centry {
	e, ok := c.ref[key]
	if !ok {
		e = &centry{}
		c.ref[key] = e
	}
	return e
}

// Set stores a new value.
func (c *CacheRef) Set(key string) {
	c.nval++
	c.C.Set(key, c.nval)
	e := c.entry(key)
	c.seq++
	e.val, e.last, e.seq, e.ok = c.nval, env.Clock, c.seq, true
}

// Retained is the number of later insertions an entry survives: the 1024 slots of a shard less the
// 7 most recent ones, in which Set may update an entry in place.
const Retained = 1017

// sound states a condition on the content of a hit; C11 leaves it to C10.
func (c *CacheRef) sound(ok bool, msg string) {
	if c.Hits {
		sym.Assume(ok)
	} else {
		sym.Assert(ok, msg)
	}
}

func (c *CacheRef) hit(e *centry, hit bool, v interface{}) {
	if hit {
		c.sound(e.ok, "a key that was never set misses")
		n, isInt := v.(int)
		c.sound(isInt && n == e.val, "a hit returns the latest value")
	}
}

// Get looks a key up with any maximal age.
func (c *CacheRef) Get(key string) {
	maxAge := sym.Uint64("max age")
	hit, v := c.C.Get(key, maxAge)
	e := c.entry(key)
	c.hit(e, hit, v)
	age := uint64(env.Clock - e.last)
	if hit {
		sym.Cover("get hit")
		c.sound(age <= maxAge, "an expired entry misses")
		c.seq++
		e.last, e.seq = env.Clock, c.seq
		return
	}
	sym.Cover("get miss")
	if c.Hits && e.ok && c.seq-e.seq <= Retained {
		sym.Assert(age > maxAge, "an entry that is neither expired nor evicted hits")
	}
}

// Find looks a key up irrespective of age.
func (c *CacheRef) Find(key string) {
	hit, v, age := c.C.Find(key)
	e := c.entry(key)
	c.hit(e, hit, v)
	if hit {
		sym.Cover("find hit")
		c.sound(age == uint64(env.Clock-e.last), "the age of the entry is reported")
		c.seq++
		e.last, e.seq = env.Clock, c.seq
		return
	}
	sym.Cover("find miss")
	if c.Hits && e.ok {
		sym.Assert(c.seq-e.seq > Retained, "an entry that is not evicted is found")
	}
}

// Fill makes n insertions of other keys into shard 0.
func (c *CacheRef) Fill(n int) {
	for i := 0; i < n; i++ {
		c.C.Set(fillers[c.nfill%len(fillers)], -1)
		c.nfill++
		c.seq++
	}
}

// Step performs one of 9 operations (or 6 if lookups are wanted).
func (c *CacheRef) Step(k int) {
	key := CacheKeys[k%3]
	switch k / 3 {
	case 0:
		c.Get(key)
	case 1:
		c.Find(key)
	case 2:
		c.Set(key)
	}
}

// CacheHistory: every history of a few operations on an empty cache.
func CacheHistory(hits bool) {
	env.Init()
	n := 4
	if sym.Thorough() {
		n = 5
	}
	c := NewCacheRef(hits)
	first := sym.Case(81)
	for i := 0; i < n; i++ {
		Tick("elapsed")
		switch i {
		case 0:
			c.Step(first % 9)
		case 1:
			c.Step(first / 9)
		case n - 1:
			c.Step(sym.Choose("lookup", 6))
		default:
			c.Step(sym.Choose("operation", 9))
		}
	}
}

var fills = []int{6, 7, 8, 9, 1014, 1015, 1016, 1017, 1018, 1021, 1022, 1023, 1024, 1025, 1026, 2047}

// CacheWrap: histories around the point where the ring wraps.
func CacheWrap(hits bool) {
	env.Init()
	pre := []int{0, 3}
	if sym.Thorough() {
		pre = []int{0, 3, 1017, 1023, 1024}
	}
	k := sym.Case(len(fills) * len(pre))
	c := NewCacheRef(hits)
	c.Fill(pre[k/len(fills)])
	Tick("elapsed")
	c.Set(CacheKeys[0])
	if sym.Bool("other key first") {
		Tick("elapsed")
		c.Set(CacheKeys[1])
	}
	Tick("elapsed")
	c.Fill(fills[k%len(fills)])
	ops := []int{0, 3, 6, 1, 7}
	n := 3
	if sym.Thorough() {
		n = 4
	}
	for i := 0; i < n; i++ {
		Tick("elapsed")
		if i == n-1 {
			c.Step(ops[sym.Choose("lookup", 2)])
		} else {
			c.Step(ops[sym.Choose("operation", 5)])
		}
	}
}

// CacheRound: an entry is stored again at every distance, then looked up when the old copy is the oldest entry.
func CacheRound(hits bool) {
	env.Init()
	again := []int{0, 1, 6, 7, 8, 500, 1014, 1016, 1017, 1022}
	k := sym.Case(len(again) * 3)
	c := NewCacheRef(hits)
	c.Fill(sym.Choose("before", 2) * 700)
	c.Set(CacheKeys[0])
	Tick("elapsed")
	d := again[k/3]
	c.Fill(d)
	Tick("elapsed")
	switch k % 3 {
	case 0:
		c.Set(CacheKeys[0])
	case 1:
		c.Get(CacheKeys[0])
	case 2:
		c.Find(CacheKeys[0])
	}
	// bring the cursor to the old copy, or next to it
	rest := 1023 - d - 1 + sym.Choose("distance", 4)
	if rest < 0 {
		rest = 0
	}
	Tick("elapsed")
	c.Fill(rest)
	Tick("elapsed")
	c.Step([]int{0, 3}[sym.Choose("lookup", 2)])
	c.Step([]int{0, 3}[sym.Choose("second lookup", 2)])
}

// CacheMixed: old and fresh entries of several keys are interleaved among the newest entries.
func CacheMixed(hits bool) {
	env.Init()
	c := NewCacheRef(hits)
	// CacheKeys[0], [1] and [3] share a shard
	same := []string{CacheKeys[0], CacheKeys[1], CacheKeys[3]}
	n := sym.Case(12)
	c.Set(same[0])
	c.Set(same[1])
	c.Fill(n % 6)
	Tick("elapsed")
	c.Set(same[n/6])
	Tick("elapsed")
	c.Fill([]int{0, 1, 3, 8, 20}[sym.Choose("fill", 5)])
	c.Set(same[2])
	for i := 0; i < 3; i++ {
		Tick("elapsed")
		key := same[sym.Choose("key", 3)]
		if sym.Choose("lookup", 3) == 2 {
			c.Find(key)
		} else {
			c.Get(key)
		}
	}
}

// CacheIdent: every pair of short keys, in one shard or two.
func CacheIdent(hits bool) {
	env.Init()
	n := sym.Case(9)
	a, b := sym.String("a", 1+n%3), sym.String("b", 1+n/3)
	cr := NewCacheRef(hits)
	c := cr.C
	same := sym.EqStr(a, b)
	h0, _ := c.Get(b, 1<<62)
	cr.sound(!h0, "a key that was never set misses")
	c.Set(a, 1)
	h, v := c.Get(b, 1<<62)
	if h {
		cr.sound(sym.And(same, v.(int) == 1), "only the key that was set hits")
	} else if hits {
		sym.Assert(sym.Not(same), "the key that was set hits")
	}
	c.Set(b, 2)
	h, v = c.Get(a, 1<<62)
	if h {
		cr.sound(sym.Or(sym.And(same, v.(int) == 2), sym.And(sym.Not(same), v.(int) == 1)), "a hit returns the latest value of that key")
	} else if hits {
		sym.Fail("a stored key hits")
	}
	h, v, _ = c.Find(b)
	if h {
		cr.sound(v.(int) == 2, "a hit returns the latest value of that key")
	} else if hits {
		sym.Fail("a stored key is found")
	}
	sym.Cover("end")
}

// CacheDense: every short sequence of operations near the end of the ring.
func CacheDense(hits bool) {
	env.Init()
	at := sym.Case(12)
	c := NewCacheRef(hits)
	c.Fill(1014 + at)
	c.Set(CacheKeys[0])
	n := 4
	if sym.Thorough() {
		n = 5
	}
	for i := 0; i < n; i++ {
		Tick("elapsed")
		if i == n-1 {
			c.Step([]int{0, 3}[sym.Choose("lookup", 2)])
			break
		}
		switch sym.Choose("operation", 6) {
		case 0:
			c.Get(CacheKeys[0])
		case 1:
			c.Find(CacheKeys[0])
		case 2:
			c.Set(CacheKeys[0])
		case 3:
			c.Set(CacheKeys[1])
		case 4:
			c.Fill(1)
		case 5:
			c.Fill(5)
		}
	}
}

// CacheNames: long keys, the empty key, keys of a changed tree, and values of any kind.
func CacheNames(hits bool) {
	env.Init()
	cr := NewCacheRef(hits)
	c := cr.C
	n := sym.Size("length", []int{0, 1, 33, 64, 130, 300}[sym.Case(6)], 3000)
	b := make([]byte, n)
	for i := range b {
		b[i] = 'k'
	}
	a := string(b)
	others := []string{a + "k", a + "\x00", "k" + a + "a", a + "/", WordPath("/x"), WordText("y")}
	if n > 0 {
		others = append(others, a[:n-1], "K"+a[1:], a[:n/2]+"q"+a[n/2+1:], a[:n-1]+"K")
	}
	o := others[sym.Choose("other", len(others))]
	vals := []interface{}{nil, 0, "", "v", false, []byte("v")[:0:0], 3.5}
	v, w := vals[sym.Choose("value", len(vals))], sym.Int("other value")
	eq := func(x, y interface{}) bool {
		if b, ok := y.([]byte); ok {
			x, ok := x.([]byte)
			return ok && len(x) == len(b)
		}
		return x == y
	}
	c.Set(a, v)
	h, _ := c.Get(o, 1<<62)
	cr.sound(!h, "a key that was never set misses")
	h, _, _ = c.Find(o)
	cr.sound(!h, "a key that was never set misses")
	c.Set(o, w)
	Tick("elapsed")
	for i := 0; i < 3; i++ {
		h, x := c.Get(a, 1<<62)
		if h {
			cr.sound(eq(x, v), "a hit returns the latest value of that key")
		} else if hits {
			sym.Fail("a stored key hits")
		}
		h, x, _ = c.Find(o)
		if h {
			y, ok := x.(int)
			cr.sound(sym.And(ok, y == w), "a hit returns the latest value of that key")
		} else if hits {
			sym.Fail("a stored key hits")
		}
	}
	c.Set(a, 5)
	if h, x := c.Get(a, 1<<62); h {
		cr.sound(eq(x, 5), "a hit returns the latest value of that key")
	}
	sym.Cover("end")
}

// CacheMany: many keys, each with its own value.
func CacheMany(hits bool) {
	env.Init()
	cr := NewCacheRef(hits)
	c := cr.C
	n := sym.Size("keys", 150, 3000)
	key := func(i int) string {
		return "m" + string([]byte{'a' + byte(i%26), 'a' + byte(i/26%26), 'a' + byte(i/676)})
	}
	for i := 0; i < n; i++ {
		c.Set(key(i), i)
	}
	Tick("elapsed")
	age := sym.Uint64("max age")
	d := uint64(env.Clock - env.T0)
	for i := 0; i < n; i++ {
		h, x := c.Get(key(i), age)
		if h {
			cr.sound(sym.And(x.(int) == i, d <= age), "a hit returns the value of that very key")
		} else if hits && n < 1000 {
			sym.Assert(d > age, "an entry that is neither expired nor evicted hits")
		}
		h, _ = c.Get(key(i)+"x", age)
		cr.sound(!h, "a key that was never set misses")
	}
	sym.Cover("end")
}

// CacheTurns: a client that keeps using one key, with more of other keys than the cache holds.
func CacheTurns(hits bool) {
	env.Init()
	c := NewCacheRef(hits)
	n := []int{1, 5, 9, 300}[sym.Case(4)]
	c.Set(CacheKeys[0])
	kind := sym.Choose("use", 3)
	for i := 0; i < 1200/n+3; i++ {
		if i > 6 && n < 9 {
			c.Fill(60)
		}
		c.Fill(n)
		if i%16 == 3 || n > 9 {
			env.Clock += 1 << 40
		}
		key := CacheKeys[0]
		if kind == 2 || kind == 0 && i%2 == 0 {
			c.Find(key)
		} else {
			hit, v := c.C.Get(key, 1<<60)
			e := c.entry(key)
			c.hit(e, hit, v)
			if hit {
				c.seq++
				e.last, e.seq = env.Clock, c.seq
			} else if hits {
				sym.Fail("a key in constant use hits")
			}
		}
		if i > 24 && n < 9 {
			break
		}
	}
	Tick("elapsed")
	c.Get(CacheKeys[0])
}
