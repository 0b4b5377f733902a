package sym

// Replacements of package sync and sync/atomic in the code under test. Generated by tools/genatomic.py.

import (
	"os"
	"sync"
	"sync/atomic"
	"time"
	"unsafe"
)

func NALoadInt32(p *int32) int32                 { Point(); return atomic.LoadInt32(p) }
func NMLoadInt32(p *atomic.Int32) int32          { Point(); return p.Load() }
func NAStoreInt32(p *int32, v int32)             { Point(); atomic.StoreInt32(p, v) }
func NMStoreInt32(p *atomic.Int32, v int32)      { Point(); p.Store(v) }
func NAAddInt32(p *int32, v int32) int32         { Point(); return atomic.AddInt32(p, v) }
func NMAddInt32(p *atomic.Int32, v int32) int32  { Point(); return p.Add(v) }
func NASwapInt32(p *int32, v int32) int32        { Point(); return atomic.SwapInt32(p, v) }
func NMSwapInt32(p *atomic.Int32, v int32) int32 { Point(); return p.Swap(v) }
func NACompareAndSwapInt32(p *int32, a, b int32) bool {
	Point()
	return atomic.CompareAndSwapInt32(p, a, b)
}
func NMCompareAndSwapInt32(p *atomic.Int32, a, b int32) bool { Point(); return p.CompareAndSwap(a, b) }
func NALoadInt64(p *int64) int64                             { Point(); return atomic.LoadInt64(p) }
func NMLoadInt64(p *atomic.Int64) int64                      { Point(); return p.Load() }
func NAStoreInt64(p *int64, v int64)                         { Point(); atomic.StoreInt64(p, v) }
func NMStoreInt64(p *atomic.Int64, v int64)                  { Point(); p.Store(v) }
func NAAddInt64(p *int64, v int64) int64                     { Point(); return atomic.AddInt64(p, v) }
func NMAddInt64(p *atomic.Int64, v int64) int64              { Point(); return p.Add(v) }
func NASwapInt64(p *int64, v int64) int64                    { Point(); return atomic.SwapInt64(p, v) }
func NMSwapInt64(p *atomic.Int64, v int64) int64             { Point(); return p.Swap(v) }
func NACompareAndSwapInt64(p *int64, a, b int64) bool {
	Point()
	return atomic.CompareAndSwapInt64(p, a, b)
}
func NMCompareAndSwapInt64(p *atomic.Int64, a, b int64) bool { Point(); return p.CompareAndSwap(a, b) }
func NALoadUint32(p *uint32) uint32                          { Point(); return atomic.LoadUint32(p) }
func NMLoadUint32(p *atomic.Uint32) uint32                   { Point(); return p.Load() }
func NAStoreUint32(p *uint32, v uint32)                      { Point(); atomic.StoreUint32(p, v) }
func NMStoreUint32(p *atomic.Uint32, v uint32)               { Point(); p.Store(v) }
func NAAddUint32(p *uint32, v uint32) uint32                 { Point(); return atomic.AddUint32(p, v) }
func NMAddUint32(p *atomic.Uint32, v uint32) uint32          { Point(); return p.Add(v) }
func NASwapUint32(p *uint32, v uint32) uint32                { Point(); return atomic.SwapUint32(p, v) }
func NMSwapUint32(p *atomic.Uint32, v uint32) uint32         { Point(); return p.Swap(v) }
func NACompareAndSwapUint32(p *uint32, a, b uint32) bool {
	Point()
	return atomic.CompareAndSwapUint32(p, a, b)
}
func NMCompareAndSwapUint32(p *atomic.Uint32, a, b uint32) bool {
	Point()
	return p.CompareAndSwap(a, b)
}
func NALoadUint64(p *uint64) uint64                  { Point(); return atomic.LoadUint64(p) }
func NMLoadUint64(p *atomic.Uint64) uint64           { Point(); return p.Load() }
func NAStoreUint64(p *uint64, v uint64)              { Point(); atomic.StoreUint64(p, v) }
func NMStoreUint64(p *atomic.Uint64, v uint64)       { Point(); p.Store(v) }
func NAAddUint64(p *uint64, v uint64) uint64         { Point(); return atomic.AddUint64(p, v) }
func NMAddUint64(p *atomic.Uint64, v uint64) uint64  { Point(); return p.Add(v) }
func NASwapUint64(p *uint64, v uint64) uint64        { Point(); return atomic.SwapUint64(p, v) }
func NMSwapUint64(p *atomic.Uint64, v uint64) uint64 { Point(); return p.Swap(v) }
func NACompareAndSwapUint64(p *uint64, a, b uint64) bool {
	Point()
	return atomic.CompareAndSwapUint64(p, a, b)
}
func NMCompareAndSwapUint64(p *atomic.Uint64, a, b uint64) bool {
	Point()
	return p.CompareAndSwap(a, b)
}
func NALoadUintptr(p *uintptr) uintptr                   { Point(); return atomic.LoadUintptr(p) }
func NMLoadUintptr(p *atomic.Uintptr) uintptr            { Point(); return p.Load() }
func NAStoreUintptr(p *uintptr, v uintptr)               { Point(); atomic.StoreUintptr(p, v) }
func NMStoreUintptr(p *atomic.Uintptr, v uintptr)        { Point(); p.Store(v) }
func NAAddUintptr(p *uintptr, v uintptr) uintptr         { Point(); return atomic.AddUintptr(p, v) }
func NMAddUintptr(p *atomic.Uintptr, v uintptr) uintptr  { Point(); return p.Add(v) }
func NASwapUintptr(p *uintptr, v uintptr) uintptr        { Point(); return atomic.SwapUintptr(p, v) }
func NMSwapUintptr(p *atomic.Uintptr, v uintptr) uintptr { Point(); return p.Swap(v) }
func NACompareAndSwapUintptr(p *uintptr, a, b uintptr) bool {
	Point()
	return atomic.CompareAndSwapUintptr(p, a, b)
}
func NMCompareAndSwapUintptr(p *atomic.Uintptr, a, b uintptr) bool {
	Point()
	return p.CompareAndSwap(a, b)
}
func NMLoadBool(p *atomic.Bool) bool                         { Point(); return p.Load() }
func NMStoreBool(p *atomic.Bool, v bool)                     { Point(); p.Store(v) }
func NMSwapBool(p *atomic.Bool, v bool) bool                 { Point(); return p.Swap(v) }
func NMCompareAndSwapBool(p *atomic.Bool, a, b bool) bool    { Point(); return p.CompareAndSwap(a, b) }
func NMLoadValue(p *atomic.Value) interface{}                { Point(); return p.Load() }
func NMStoreValue(p *atomic.Value, v interface{})            { Point(); p.Store(v) }
func NMSwapValue(p *atomic.Value, v interface{}) interface{} { Point(); return p.Swap(v) }
func NMCompareAndSwapValue(p *atomic.Value, a, b interface{}) bool {
	Point()
	return p.CompareAndSwap(a, b)
}

// NWGWait is (*sync.WaitGroup).Wait.
func NWGWait(wg *sync.WaitGroup) {
	if !coop {
		wg.Wait()
		return
	}
	zero := func() bool { return int32(atomic.LoadUint64((*uint64)(unsafe.Pointer(wg)))>>32) == 0 }
	for !zero() {
		blockOn("lock", zero)
		ths[cur].armed = true
	}
}

// NWGGo is (*sync.WaitGroup).Go.
func NWGGo(wg *sync.WaitGroup, f func()) {
	wg.Add(1)
	NGo(func() {
		defer wg.Done()
		f()
	})
}

// NOnce is (*sync.Once).Do.
func NOnce(o *sync.Once, f func()) {
	if !coop {
		o.Do(f)
		return
	}
	l := (*struct {
		done uint32
		m    sync.Mutex
	})(unsafe.Pointer(o))
	if atomic.LoadUint32(&l.done) != 0 {
		return
	}
	Gate(&l.m)
	defer l.m.Unlock()
	if atomic.LoadUint32(&l.done) == 0 {
		defer atomic.StoreUint32(&l.done, 1)
		f()
	}
}

// NRecvTime comes before a receive from c.
func NRecvTime(c <-chan time.Time) <-chan time.Time { NChan(true, "r", c); return c }

// NRecvStruct comes before a receive from c.
func NRecvStruct(c <-chan struct{}) <-chan struct{} { NChan(true, "r", c); return c }

// NRecvSignal comes before a receive from c.
func NRecvSignal(c <-chan os.Signal) <-chan os.Signal { NChan(true, "r", c); return c }

// NRecvError comes before a receive from c.
func NRecvError(c <-chan error) <-chan error { NChan(true, "r", c); return c }

// NRecvBool comes before a receive from c.
func NRecvBool(c <-chan bool) <-chan bool { NChan(true, "r", c); return c }

// NRecvInt comes before a receive from c.
func NRecvInt(c <-chan int) <-chan int { NChan(true, "r", c); return c }

// NRecvString comes before a receive from c.
func NRecvString(c <-chan string) <-chan string { NChan(true, "r", c); return c }
