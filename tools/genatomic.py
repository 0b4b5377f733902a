o=['package sym','','// Replacements of package sync and sync/atomic in the code under test. Generated by tools/genatomic.py.','','import (\n\t"sync"\n\t"sync/atomic"\n\t"unsafe"\n)','']
tab=[]
T={'Int32':'int32','Int64':'int64','Uint32':'uint32','Uint64':'uint64','Uintptr':'uintptr'}
for N,t in T.items():
    for op,args,call,ret in [('Load','','',t),('Store','v '+t,'v',''),('Add','v '+t,'v',t),('Swap','v '+t,'v',t),('CompareAndSwap','a, b '+t,'a, b','bool')]:
        r='return ' if ret else ''
        o.append('func NA%s%s(p *%s%s) %s { Point(); %satomic.%s%s(p%s) }'%(op,N,t,', '+args if args else '',ret,r,op,N,', '+call if call else ''))
        tab.append(('sync/atomic.%s%s'%(op,N),'NA%s%s'%(op,N)))
        o.append('func NM%s%s(p *atomic.%s%s) %s { Point(); %sp.%s(%s) }'%(op,N,N,', '+args if args else '',ret,r,op,call))
        tab.append(('(*sync/atomic.%s).%s'%(N,op),'NM%s%s'%(op,N)))
for op,args,call,ret in [('Load','','','bool'),('Store','v bool','v',''),('Swap','v bool','v','bool'),('CompareAndSwap','a, b bool','a, b','bool')]:
    r='return ' if ret else ''
    o.append('func NM%sBool(p *atomic.Bool%s) %s { Point(); %sp.%s(%s) }'%(op,', '+args if args else '',ret,r,op,call))
    tab.append(('(*sync/atomic.Bool).'+op,'NM%sBool'%op))
for op,args,call,ret in [('Load','','','interface{}'),('Store','v interface{}','v',''),('Swap','v interface{}','v','interface{}'),('CompareAndSwap','a, b interface{}','a, b','bool')]:
    r='return ' if ret else ''
    o.append('func NM%sValue(p *atomic.Value%s) %s { Point(); %sp.%s(%s) }'%(op,', '+args if args else '',ret,r,op,call))
    tab.append(('(*sync/atomic.Value).'+op,'NM%sValue'%op))
o.append('''
// NWGWait is (*sync.WaitGroup).Wait.
func NWGWait(wg *sync.WaitGroup) {
	if !coop {
		wg.Wait()
		return
	}
	zero := func() bool { return int32(atomic.LoadUint64((*uint64)(unsafe.Pointer(wg)))>>32) == 0 }
	for !zero() {
		blockOn("lock", zero)
		ths[cur].armed = true
	}
}

// NWGGo is (*sync.WaitGroup).Go.
func NWGGo(wg *sync.WaitGroup, f func()) {
	wg.Add(1)
	NGo(func() {
		defer wg.Done()
		f()
	})
}

// NOnce is (*sync.Once).Do.
func NOnce(o *sync.Once, f func()) {
	if !coop {
		o.Do(f)
		return
	}
	l := (*struct {
		done uint32
		m    sync.Mutex
	})(unsafe.Pointer(o))
	if atomic.LoadUint32(&l.done) != 0 {
		return
	}
	Gate(&l.m)
	defer l.m.Unlock()
	if atomic.LoadUint32(&l.done) == 0 {
		defer atomic.StoreUint32(&l.done, 1)
		f()
	}
}
''')
tab+= [('(*sync.WaitGroup).Wait','NWGWait'),('(*sync.WaitGroup).Go','NWGGo'),('(*sync.Once).Do','NOnce')]
for n,t in [('Time','time.Time'),('Struct','struct{}'),('Signal','os.Signal'),('Error','error'),('Bool','bool'),('Int','int'),('String','string')]:
    o.append('// NRecv%s comes before a receive from c.\nfunc NRecv%s(c <-chan %s) <-chan %s { NChan(true, "r", c); return c }'%(n,n,t,t))
s='\n'.join(o).replace('"sync"\n','"os"\n\t"sync"\n',1).replace('"unsafe"\n','"time"\n\t"unsafe"\n',1)
open('/verif/go/sym/atomic.go','w').write(s)
g='package main\n\n// Generated by tools/genatomic.py.\nvar atomicTab = map[string]string{\n'+''.join('\t%s: "verifsym.%s",\n'%('"'+k+'"',v) for k,v in tab)+'}\n'
open('/verif/engine/cmd/gosym/atomictab.go','w').write(g)
