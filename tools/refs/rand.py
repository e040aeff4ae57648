R='math/rand/rand.gp_32.go'; R6='math/rand/rand.gp_64.go'; S='strings/rand.go'; T='time/duration.go'
STEP='''	var o, n uint32
	for { //mutithread lock-free operation
		o = atomic.LoadUint32(&me.seed)
		n = o*7368787 + 2750159
		if atomic.CompareAndSwapUint32(&me.seed, o, n) {
			break
		}
	}
	return n
'''
ref('r-early',['C29','C25'],[(R,STEP,'''	for {
		o := atomic.LoadUint32(&me.seed)
		if n := next32(o); atomic.CompareAndSwapUint32(&me.seed, o, n) {
			return n
		}
	}
'''),(R,'','''
func next32(seed uint32) uint32 {
	seed *= 7368787
	seed += 2750159
	return seed
}
''')])
ref('r-cond',['C29'],[(R,STEP,'''	o := atomic.LoadUint32(&me.seed)
	n := o*7368787 + 2750159
	for !atomic.CompareAndSwapUint32(&me.seed, o, n) {
		o = atomic.LoadUint32(&me.seed)
		n = o*7368787 + 2750159
	}
	return n
''')])
ref('r-mutex',['C29'],[(R,STEP,'''	me.lock.Lock()
	defer me.lock.Unlock()
	me.seed = me.seed*7368787 + 2750159
	return me.seed
'''),(R,'	//lock sync.Mutex\n','	lock sync.Mutex\n'),(R,'	"sync/atomic"\n','	"sync"\n'),(R,'''	return atomic.LoadUint32(&me.seed)
''','''	me.lock.Lock()
	s := me.seed
	me.lock.Unlock()
	return s
'''),(R,'''	ret := atomic.SwapUint32(&me.seed, _seed) //mutithread lock-free operation
	return ret
''','''	me.lock.Lock()
	ret := me.seed
	me.seed = _seed
	me.lock.Unlock()
	return ret
''')])
ref('r-typed',['C29'],[(R,STEP,'''	for {
		o := me.seed.Load()
		n := o*7368787 + 2750159
		if me.seed.CompareAndSwap(o, n) {
			return n
		}
	}
'''),(R,'	seed uint32\n','	seed atomic.Uint32\n'),(R,'''	return &Rand32T{seed: seed}
''','''	r := &Rand32T{}
	r.seed.Store(seed)
	return r
'''),(R,'''	return atomic.LoadUint32(&me.seed)
''','''	return me.seed.Load()
'''),(R,'''	ret := atomic.SwapUint32(&me.seed, _seed) //mutithread lock-free operation
	return ret
''','''	return me.seed.Swap(_seed)
''')])
bad('r-noncas',['C29'],[(R,STEP,'''	o := atomic.LoadUint32(&me.seed)
	n := o*7368787 + 2750159
	atomic.StoreUint32(&me.seed, n)
	return n
''')])
bad('r-plain',['C29'],[(R,STEP,'''	me.seed = me.seed*7368787 + 2750159
	return me.seed
''')])
bad('r-late',['C29'],[(R,STEP,'''	var o, n uint32
	for {
		o = atomic.LoadUint32(&me.seed)
		n = o*7368787 + 2750159
		if atomic.CompareAndSwapUint32(&me.seed, o, n) {
			break
		}
	}
	return atomic.LoadUint32(&me.seed)
''')])
bad('r-stale',['C29'],[(R,STEP,'''	o := atomic.LoadUint32(&me.seed)
	n := o*7368787 + 2750159
	for !atomic.CompareAndSwapUint32(&me.seed, o, n) {
		o = atomic.LoadUint32(&me.seed)
	}
	return n
''')])
bad('r-old',['C29'],[(R,STEP,STEP.replace('return n','return o'))])
bad('r-even',['C29'],[(R,'o*7368787','o*7368786')])
bad('r-srand',['C29'],[(R,'''	ret := atomic.SwapUint32(&me.seed, _seed) //mutithread lock-free operation
	return ret
''','''	ret := atomic.LoadUint32(&me.seed)
	atomic.StoreUint32(&me.seed, _seed)
	return ret
''')])
RNG='''	if max < min {
		max, min = min, max
	}
	d := max - min + 1
	r := me.Rand()
	if d == 0 { //every uint32 is in range
		return r
	}
	ret := r%d + min

	return ret
'''
ref('rr-early',['C29'],[(R,RNG,'''	if max < min {
		return me.RandRange(max, min)
	}
	r := me.Rand()
	if d := max - min; d < math.MaxUint32 {
		r = min + r%(d+1)
	}
	return r
'''),(R,'import (\n','import (\n\t"math"\n')])
ref('rr-wide',['C29'],[(R,RNG,'''	lo, hi := min, max
	if lo > hi {
		lo, hi = hi, lo
	}
	span := uint64(hi) - uint64(lo) + 1
	return lo + uint32(uint64(me.Rand())%span)
''')])
bad('rr-excl',['C29'],[(R,RNG,RNG.replace('max - min + 1','max - min'))])
bad('rr-bias',['C29'],[(R,RNG,RNG.replace('r%d + min','r%d | min'))])
bad('rr-noswap',['C29'],[(R,RNG,RNG.replace('max < min','max+1 < min'))])
bad('rr-nozero',['C29'],[(R6,'''	if d == 0 { //every uint64 is in range
		return r
	}
''','')])
bad('rr-two',['C29'],[(R,RNG,RNG.replace('	ret := r%d + min\n','	ret := r%d + min\n	if d == 1 {\n		me.Rand()\n	}\n'))])
bad('rm',['C29'],[(R,'RandRange(0, max-1)','RandRange(0, max)')])
ref('rm-loop',['C29'],[(R,'	return me.RandRange(0, max-1)\n','''	if max == 0 {
		return me.Rand()
	}
	return me.Rand() % max
''')])
ref('rg',['C29'],[(R,'	return gRand32.RandMax(max)\n','''	g := gRand32
	return g.RandMax(max)
''')])
ref('s-append',['C29'],[(S,'''	b := make([]byte, length, length)
	for i := 0; i < length; i++ {
		b[i] = upper[rnd.RandMax(uint32(len(upper)))]
	}
''','''	b := make([]byte, 0, length)
	for len(b) < length {
		b = append(b, upper[rnd.RandMax(uint32(len(upper)))])
	}
''')])
ref('s-range',['C29'],[(S,'''	for i := 0; i < length; i++ {
		b[i] = upper[rnd.RandMax(uint32(len(upper)))]
	}
''','''	for i := range b {
		b[i] = randLetter()
	}
'''),(S,'','''
func randLetter() byte {
	n := rnd.RandRange(0, uint32(len(upper)-1))
	return upper[n]
}
''')])
ref('s-arith',['C29'],[(S,'''		b[i] = upper[rnd.RandMax(uint32(len(upper)))]
''','''		b[i] = 'A' + byte(rnd.RandMax(26))
''')])
ref('s-down',['C29'],[(S,'''	for i := 0; i < length; i++ {
''','''	for i := length - 1; i >= 0; i-- {
''')])
bad('s-len',['C29'],[(S,'''	for i := 0; i < length; i++ {
''','''	for i := 1; i < length; i++ {
''')])
bad('s-over',['C29'],[(S,'uint32(len(upper))','uint32(len(upper)+1)')])
bad('s-cap',['C29'],[(S,'make([]byte, length, length)','make([]byte, length+length%2)')])
ref('t-str',['C30'],[(T,'''	if d < Day {
		return d.Std().String()
	} else {
		days := int(d / Day)
		left := d % Day
		return fmt.Sprintf("%dd%s", days, left.Std().String())
	}
	return ""
''','''	if days := d / Day; days > 0 {
		rest := d - days*Day
		return strconv.FormatInt(int64(days), 10) + "d" + time.Duration(rest).String()
	}
	return time.Duration(d).String()
'''),(T,'	"fmt"\n','	"strconv"\n')])
ref('t-days',['C30'],[(T,'\nfunc (d Duration) Days() float64 {\n	return float64(d) / float64(Day)\n','''
func (d Duration) Days() float64 {
	day := d / Day
	nsec := d % Day
	return float64(day) + float64(nsec)/float64(Day)
''')])
ref('t-weeks',['C30'],[(T,'	return float64(d) / float64(Week)\n','	return d.Days() / 7\n')])
ref('t-hours',['C30'],[(T,'	return d.Std().Hours()\n','	return float64(d) / float64(Hour)\n')])
ref('t-verb',['C30'],[(T,'"%dd%s", days, left.Std().String()','"%vd%v", days, left.Std().String()')])
ref('t-parse',['C30'],[(T,'''	d, err := time.ParseDuration(s)
	return Duration(d), err
''','''	d, err := time.ParseDuration(s)
	if err != nil {
		return 0, err
	}
	return Duration(d), nil
''')])
bad('t-le',['C30'],[(T,'if d < Day {','if d <= Day {')])
bad('t-pad',['C30'],[(T,'"%dd%s", days','"%dd%s", days%1000')])
bad('t-week',['C30'],[(T,'float64(Week)','float64(5*Day)')])
bad('t-weekc',['C30'],[(T,'Week = 7 * Day','Week = 7*Day + Hour')])
bad('t-mins',['C30'],[(T,'return d.Std().Minutes()','return d.Std().Round(time.Second).Minutes()')])
bad('t-left',['C30'],[(T,'left := d % Day','left := (d % Day).Std().Truncate(time.Second)'),(T,'left.Std().String()','left.String()')])
bad('t-left2',['C30'],[(T,'left := d % Day','left := d % Day / Second * Second')])
bad('t-parseerr',['C30'],[(T,'	return Duration(d), err\n','	_ = err\n	return Duration(d), nil\n')])
bad('t-since',['C30'],[(T,'Duration(time.Since(t))','Duration(time.Since(t)) / Microsecond * Microsecond')])
