package main

// Generated by tools/genatomic.py.
var atomicTab = map[string]string{
	"sync/atomic.LoadInt32":                 "verifsym.NALoadInt32",
	"(*sync/atomic.Int32).Load":             "verifsym.NMLoadInt32",
	"sync/atomic.StoreInt32":                "verifsym.NAStoreInt32",
	"(*sync/atomic.Int32).Store":            "verifsym.NMStoreInt32",
	"sync/atomic.AddInt32":                  "verifsym.NAAddInt32",
	"(*sync/atomic.Int32).Add":              "verifsym.NMAddInt32",
	"sync/atomic.SwapInt32":                 "verifsym.NASwapInt32",
	"(*sync/atomic.Int32).Swap":             "verifsym.NMSwapInt32",
	"sync/atomic.CompareAndSwapInt32":       "verifsym.NACompareAndSwapInt32",
	"(*sync/atomic.Int32).CompareAndSwap":   "verifsym.NMCompareAndSwapInt32",
	"sync/atomic.LoadInt64":                 "verifsym.NALoadInt64",
	"(*sync/atomic.Int64).Load":             "verifsym.NMLoadInt64",
	"sync/atomic.StoreInt64":                "verifsym.NAStoreInt64",
	"(*sync/atomic.Int64).Store":            "verifsym.NMStoreInt64",
	"sync/atomic.AddInt64":                  "verifsym.NAAddInt64",
	"(*sync/atomic.Int64).Add":              "verifsym.NMAddInt64",
	"sync/atomic.SwapInt64":                 "verifsym.NASwapInt64",
	"(*sync/atomic.Int64).Swap":             "verifsym.NMSwapInt64",
	"sync/atomic.CompareAndSwapInt64":       "verifsym.NACompareAndSwapInt64",
	"(*sync/atomic.Int64).CompareAndSwap":   "verifsym.NMCompareAndSwapInt64",
	"sync/atomic.LoadUint32":                "verifsym.NALoadUint32",
	"(*sync/atomic.Uint32).Load":            "verifsym.NMLoadUint32",
	"sync/atomic.StoreUint32":               "verifsym.NAStoreUint32",
	"(*sync/atomic.Uint32).Store":           "verifsym.NMStoreUint32",
	"sync/atomic.AddUint32":                 "verifsym.NAAddUint32",
	"(*sync/atomic.Uint32).Add":             "verifsym.NMAddUint32",
	"sync/atomic.SwapUint32":                "verifsym.NASwapUint32",
	"(*sync/atomic.Uint32).Swap":            "verifsym.NMSwapUint32",
	"sync/atomic.CompareAndSwapUint32":      "verifsym.NACompareAndSwapUint32",
	"(*sync/atomic.Uint32).CompareAndSwap":  "verifsym.NMCompareAndSwapUint32",
	"sync/atomic.LoadUint64":                "verifsym.NALoadUint64",
	"(*sync/atomic.Uint64).Load":            "verifsym.NMLoadUint64",
	"sync/atomic.StoreUint64":               "verifsym.NAStoreUint64",
	"(*sync/atomic.Uint64).Store":           "verifsym.NMStoreUint64",
	"sync/atomic.AddUint64":                 "verifsym.NAAddUint64",
	"(*sync/atomic.Uint64).Add":             "verifsym.NMAddUint64",
	"sync/atomic.SwapUint64":                "verifsym.NASwapUint64",
	"(*sync/atomic.Uint64).Swap":            "verifsym.NMSwapUint64",
	"sync/atomic.CompareAndSwapUint64":      "verifsym.NACompareAndSwapUint64",
	"(*sync/atomic.Uint64).CompareAndSwap":  "verifsym.NMCompareAndSwapUint64",
	"sync/atomic.LoadUintptr":               "verifsym.NALoadUintptr",
	"(*sync/atomic.Uintptr).Load":           "verifsym.NMLoadUintptr",
	"sync/atomic.StoreUintptr":              "verifsym.NAStoreUintptr",
	"(*sync/atomic.Uintptr).Store":          "verifsym.NMStoreUintptr",
	"sync/atomic.AddUintptr":                "verifsym.NAAddUintptr",
	"(*sync/atomic.Uintptr).Add":            "verifsym.NMAddUintptr",
	"sync/atomic.SwapUintptr":               "verifsym.NASwapUintptr",
	"(*sync/atomic.Uintptr).Swap":           "verifsym.NMSwapUintptr",
	"sync/atomic.CompareAndSwapUintptr":     "verifsym.NACompareAndSwapUintptr",
	"(*sync/atomic.Uintptr).CompareAndSwap": "verifsym.NMCompareAndSwapUintptr",
	"(*sync/atomic.Bool).Load":              "verifsym.NMLoadBool",
	"(*sync/atomic.Bool).Store":             "verifsym.NMStoreBool",
	"(*sync/atomic.Bool).Swap":              "verifsym.NMSwapBool",
	"(*sync/atomic.Bool).CompareAndSwap":    "verifsym.NMCompareAndSwapBool",
	"(*sync/atomic.Value).Load":             "verifsym.NMLoadValue",
	"(*sync/atomic.Value).Store":            "verifsym.NMStoreValue",
	"(*sync/atomic.Value).Swap":             "verifsym.NMSwapValue",
	"(*sync/atomic.Value).CompareAndSwap":   "verifsym.NMCompareAndSwapValue",
	"(*sync.WaitGroup).Wait":                "verifsym.NWGWait",
	"(*sync.WaitGroup).Go":                  "verifsym.NWGGo",
	"(*sync.Once).Do":                       "verifsym.NOnce",
}
