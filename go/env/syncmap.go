package env

import (
	"sync"

	"github.com/redmaner/MaguroHTTP/verif/sym"
)

// sync.Map as a map behind a lock. Every operation is a scheduling point.

var (
	smMu   sync.Mutex
	smMaps map[*sync.Map]*smap
)

type smap struct {
	keys []interface{}
	vals map[interface{}]interface{}
}

func smLock(m *sync.Map) *smap {
	sym.Point()
	sym.Gate(&smMu)
	x := smMaps[m]
	if x == nil {
		x = &smap{vals: map[interface{}]interface{}{}}
		smMaps[m] = x
	}
	return x
}

func (x *smap) drop(k interface{}) {
	for i, y := range x.keys {
		if y == k {
			x.keys = append(x.keys[:i:i], x.keys[i+1:]...)
			break
		}
	}
	delete(x.vals, k)
}

func (x *smap) put(k, v interface{}) {
	if _, ok := x.vals[k]; !ok {
		x.keys = append(x.keys, k)
	}
	x.vals[k] = v
}

func SMLoad(m *sync.Map, k interface{}) (interface{}, bool) {
	x := smLock(m)
	v, ok := x.vals[k]
	smMu.Unlock()
	return v, ok
}

func SMStore(m *sync.Map, k, v interface{}) {
	smLock(m).put(k, v)
	smMu.Unlock()
}

func SMLoadOrStore(m *sync.Map, k, v interface{}) (interface{}, bool) {
	x := smLock(m)
	defer smMu.Unlock()
	if old, ok := x.vals[k]; ok {
		return old, true
	}
	x.put(k, v)
	return v, false
}

func SMLoadAndDelete(m *sync.Map, k interface{}) (interface{}, bool) {
	x := smLock(m)
	v, ok := x.vals[k]
	x.drop(k)
	smMu.Unlock()
	return v, ok
}

func SMDelete(m *sync.Map, k interface{}) { SMLoadAndDelete(m, k) }

func SMSwap(m *sync.Map, k, v interface{}) (interface{}, bool) {
	x := smLock(m)
	old, ok := x.vals[k]
	x.put(k, v)
	smMu.Unlock()
	return old, ok
}

func SMCompareAndSwap(m *sync.Map, k, o, n interface{}) bool {
	x := smLock(m)
	defer smMu.Unlock()
	if old, ok := x.vals[k]; ok && old == o {
		x.vals[k] = n
		return true
	}
	return false
}

func SMCompareAndDelete(m *sync.Map, k, o interface{}) bool {
	x := smLock(m)
	defer smMu.Unlock()
	if old, ok := x.vals[k]; ok && old == o {
		x.drop(k)
		return true
	}
	return false
}

func SMClear(m *sync.Map) {
	smLock(m)
	delete(smMaps, m)
	smMu.Unlock()
}

func SMRange(m *sync.Map, f func(k, v interface{}) bool) {
	x := smLock(m)
	keys := append([]interface{}{}, x.keys...)
	smMu.Unlock()
	for _, k := range keys {
		sym.Gate(&smMu)
		v, ok := x.vals[k]
		smMu.Unlock()
		if ok && !f(k, v) {
			return
		}
	}
}
