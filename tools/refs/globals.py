F='factory/factorys.go'
bad('nolock',['C25'],[(F,'''	me.lock.Lock()
	defer me.lock.Unlock()
	if creater == nil {''','''	if creater == nil {''')])
bad('rlock-write',['C25'],[(F,'''	me.lock.Lock()
	defer me.lock.Unlock()
	if creater == nil {''','''	me.lock.RLock()
	defer me.lock.RUnlock()
	if creater == nil {''')])
bad('early-unlock',['C25'],[(F,'''	me.lock.Lock()
	defer me.lock.Unlock()
	if _, ok := me.cmap[typename]; !ok {
		return fmt.Errorf("[factory] no creater of type %q", typename)
	}
''','''	me.lock.Lock()
	if _, ok := me.cmap[typename]; !ok {
		me.lock.Unlock()
		return fmt.Errorf("[factory] no creater of type %q", typename)
	}
	me.lock.Unlock()
''')])
bad('unlocked-read',['C25'],[(F,'''	me.lock.RLock()
	p, ok := me.cmap[typename]
	me.lock.RUnlock()
''','''	p, ok := me.cmap[typename]
''')])
ref('manual',['C25'],[(F,'''	me.lock.Lock()
	defer me.lock.Unlock()
	if _, ok := me.cmap[typename]; !ok {
		return fmt.Errorf("[factory] no creater of type %q", typename)
	}
	delete(me.cmap, typename)
''','''	me.lock.Lock()
	_, ok := me.cmap[typename]
	if !ok {
		me.lock.Unlock()
		return fmt.Errorf("[factory] no creater of type %q", typename)
	}
	me.drop(typename)
	me.lock.Unlock()
'''),(F,'','''
func (me *FactoryS) drop(n string) { delete(me.cmap, n) }
''')])
ref('lockfunc',['C25'],[(F,'''	me.lock.RLock()
	p, ok := me.cmap[typename]
	me.lock.RUnlock()
''','''	p, ok := me.get(typename)
'''),(F,'','''
func (me *FactoryS) get(n string) (Creater, bool) {
	me.lock.RLock()
	defer me.lock.RUnlock()
	c, ok := me.cmap[n]
	return c, ok
}
''')])
ref('wholelock',['C25'],[(F,'''	me.lock.RLock()
	p, ok := me.cmap[typename]
	me.lock.RUnlock()
''','''	me.lock.Lock()
	p, ok := me.cmap[typename]
	me.lock.Unlock()
''')])
N='hash/none_hash.go'
bad('plain',['C25'],[(N,'atomic.AddUint32(&gId, 1)','next()'),(N,'''	"sync/atomic"
''',''),(N,'','''
func next() uint32 { gId++; return gId }
''')])
bad('plain2',['C25'],[(N,'return &NoneHash{id: atomic.AddUint32(&gId, 1)}','n := gId\n\tatomic.AddUint32(&gId, 1)\n\treturn &NoneHash{id: n+1}')])
ref('mutex',['C25'],[(N,'atomic.AddUint32(&gId, 1)','next()'),(N,'''	"sync/atomic"
''','''	"sync"
'''),(N,'','''
var mu sync.Mutex
func next() uint32 { mu.Lock(); defer mu.Unlock(); gId++; return gId }
''')])
ref('atomictype',['C25'],[(N,'atomic.AddUint32(&gId, 1)','gId.Add(1)'),(N,'''	gId uint32
''','''	gId atomic.Uint32
''')])
L='stl/list.gp_int.go'
bad('cache',['C25'],[('math/prime/prime.go','func ',"var lastN uint32\nvar lastR bool\nfunc setLast(n uint32, r bool) bool { lastN, lastR = n, r; return r }\nfunc ") if False else ('math/uint64.go','','''
var scratch [32]byte
func put(i int, b byte) { scratch[i] = b }
func Digits(v uint64) string { i := 31; for v > 9 { put(i, byte('0'+v%10)); v /= 10; i-- }; put(i, byte('0'+v)); return string(scratch[i:]) }
''')])
bad('sortcmp',['C25'],[(L,'''		if gIntListGbl.cmp.F(po.val, p.val) {''','''		gIntListGbl.cmp = gIntListGbl.cmp.CreateByName("")
		if gIntListGbl.cmp.F(po.val, p.val) {''')])
bad('viaptr',['C25'],[('math/prime/prime.go','','''
func tbl() []uint32 { return g_primes }
func Hot(i int) { t := tbl(); t[0], t[i] = t[i], t[0] }
''')])
ref('initfn',['C25'],[('math/prime/prime.go','','''
var idx map[uint32]int
func fill() { idx = map[uint32]int{}; for i, p := range g_primes { idx[p] = i } }
func init() { fill() }
func Index(p uint32) int { return idx[p] }
''')])
ref('once',['C25'],[('math/uint64.go','','''
var once sync.Once
var tab []int
func Tab(i int) int { once.Do(func() { tab = []int{1, 2, 3} }); return tab[i] }
'''),('math/uint64.go','import (','import (\n\t"sync"')])
