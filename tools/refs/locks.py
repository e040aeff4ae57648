S='sync/spinlock.go'; R='sync/spinrwlock.go'
L='''	for i := 0; ; i++ {
		if i > spinLockMaxLoop {
			panic("[sync] maybe dead lock on SpinLock")
		}

		if atomic.CompareAndSwapInt32(&this.state, 0, spinLockLocked) {
			break
		}
	}
'''
B=['C18','C19']
ref('lock-cond',B,[(S,L,'''	i := 0
	for !atomic.CompareAndSwapInt32(&this.state, 0, spinLockLocked) {
		if i++; i > spinLockMaxLoop {
			panic("[sync] maybe dead lock on SpinLock")
		}
	}
''')])
ref('lock-ttas',B,[(S,L,'''	for i := 0; i <= spinLockMaxLoop; i++ {
		if atomic.LoadInt32(&this.state) == 0 && this.tryLock() {
			return
		}
	}
	panic("[sync] maybe dead lock on SpinLock")
'''),(S,'func (this *SpinLock) Unlock','''func (this *SpinLock) tryLock() bool {
	return atomic.CompareAndSwapInt32(&this.state, 0, spinLockLocked)
}

func (this *SpinLock) Unlock''')])
ref('lock-swap',B,[(S,L,'''	for i := 0; atomic.SwapInt32(&this.state, spinLockLocked) != 0; i++ {
		if i >= spinLockMaxLoop {
			panic("[sync] maybe dead lock on SpinLock")
		}
	}
''')])
ref('unlock-swap',B,[(S,'''	if !atomic.CompareAndSwapInt32(&this.state, spinLockLocked, 0) {
		panic(''','''	if atomic.SwapInt32(&this.state, 0) != spinLockLocked {
		panic(''')])
ref('lock-gosched',B,[(S,L,L.replace('			break\n		}\n','			return\n		}\n		if i%1024 == 1023 {\n			runtime.Gosched()\n		}\n')),(S,'import (\n','import (\n	"runtime"\n')])
ref('typed',B,[(S,'	state int32\n','	state atomic.Int32\n'),(S,'atomic.CompareAndSwapInt32(&this.state, 0, spinLockLocked)','this.state.CompareAndSwap(0, spinLockLocked)'),(S,'atomic.CompareAndSwapInt32(&this.state, spinLockLocked, 0)','this.state.CompareAndSwap(spinLockLocked, 0)')])
ref('rw-helper',['C19'],[(R,'''	for i := 0; ; i++ {
		if i > spinLockMaxLoop {
			this.w.Unlock()
			panic("[sync] maybe dead lock on RWSpinLock.Lock")
		}

		//wait for the last reader, and tell readers there is a writer
		if atomic.CompareAndSwapInt32(&this.readerCount, 0, -rwSpinLockMaxReaders) {
			break
		}
	}
''','''	ok := spin(func() bool {
		return atomic.CompareAndSwapInt32(&this.readerCount, 0, -rwSpinLockMaxReaders)
	})
	if !ok {
		this.w.Unlock()
		panic("[sync] maybe dead lock on RWSpinLock.Lock")
	}
'''),(R,'''	for i := 0; ; i++ {
		if i > spinLockMaxLoop {
			panic("[sync] maybe dead lock on RWSpinLock.RLock")
		}

		if r := atomic.LoadInt32(&this.readerCount); r >= 0 { // A writer is pending, wait for it.
			if atomic.CompareAndSwapInt32(&this.readerCount, r, r+1) {
				break
			}
		}
	}
''','''	ok := spin(func() bool {
		r := atomic.LoadInt32(&this.readerCount)
		return r >= 0 && atomic.CompareAndSwapInt32(&this.readerCount, r, r+1)
	})
	if !ok {
		panic("[sync] maybe dead lock on RWSpinLock.RLock")
	}
'''),(R,'func (this *RWSpinLock) Lock()','''func spin(try func() bool) bool {
	for i := 0; i <= spinLockMaxLoop; i++ {
		if try() {
			return true
		}
	}
	return false
}

func (this *RWSpinLock) Lock()''')])
ref('rw-defer',['C19'],[(R,'''	this.w.Lock() //get writer lock first
''','''	this.w.Lock() //get writer lock first
	got := false
	defer func() {
		if !got {
			this.w.Unlock()
		}
	}()
'''),(R,'			this.w.Unlock()\n			panic(','			panic('),(R,'		if atomic.CompareAndSwapInt32(&this.readerCount, 0, -rwSpinLockMaxReaders) {\n','		if atomic.CompareAndSwapInt32(&this.readerCount, 0, -rwSpinLockMaxReaders) {\n			got = true\n')])
ref('rw-const',['C19'],[(R,'rwSpinLockMaxReaders = 1 << 30','rwSpinLockMaxReaders = 1 << 29')])
ref('rw-runlock',['C19'],[(R,'''	for {
		r := atomic.LoadInt32(&this.readerCount)
		if r <= 0 {
			panic("sync: RUnlock of unlocked RWSpinLock")
		}
		// The last reader unblocks the writer.
		if atomic.CompareAndSwapInt32(&this.readerCount, r, r-1) {
			break
		}
	}
''','''	for r := atomic.LoadInt32(&this.readerCount); !atomic.CompareAndSwapInt32(&this.readerCount, r, r-1) || r < 1; r = atomic.LoadInt32(&this.readerCount) {
	}
''')] ) if False else None
ref('rw-runlock2',['C19'],[(R,'''	for {
		r := atomic.LoadInt32(&this.readerCount)
		if r <= 0 {
''','''	done := false
	for !done {
		r := atomic.LoadInt32(&this.readerCount)
		if r < 1 {
'''),(R,'''		if atomic.CompareAndSwapInt32(&this.readerCount, r, r-1) {
			break
		}
''','''		done = atomic.CompareAndSwapInt32(&this.readerCount, r, r-1)
''')])
ref('rw-uniform',['C19'],[(R,'''	if !atomic.CompareAndSwapInt32(&this.readerCount, -rwSpinLockMaxReaders, 0) {
		panic("[sync] Unlock on unlocked RWSpinLock")
	}
	this.w.Unlock()
''','''	if atomic.CompareAndSwapInt32(&this.readerCount, -rwSpinLockMaxReaders, 0) {
		this.w.Unlock()
		return
	}
	panic("[sync] Unlock on unlocked RWSpinLock")
''')])
bad('tas',B,[(S,L,'''	for i := 0; ; i++ {
		if i > spinLockMaxLoop {
			panic("[sync] maybe dead lock on SpinLock")
		}

		if atomic.LoadInt32(&this.state) == 0 {
			atomic.StoreInt32(&this.state, spinLockLocked)
			break
		}
	}
''')])
bad('giveup-return',B,[(S,'			panic("[sync] maybe dead lock on SpinLock")\n','			return\n')])
bad('giveup-steal',B,[(S,'			panic("[sync] maybe dead lock on SpinLock")\n','			atomic.StoreInt32(&this.state, 0)\n			panic("[sync] maybe dead lock on SpinLock")\n')])
bad('unlock-store',['C18'],[(S,'''	if !atomic.CompareAndSwapInt32(&this.state, spinLockLocked, 0) {
''','''	if atomic.LoadInt32(&this.state) != spinLockLocked {
'''),(S,'''SpinLock")
	}
}
''' if False else '		panic("[sync] Unlock on unlocked SpinLock")\n	}\n','		panic("[sync] Unlock on unlocked SpinLock")\n	}\n	atomic.StoreInt32(&this.state, 0)\n')])
bad('unlock-nopanic',['C18'],[(S,'		panic("[sync] Unlock on unlocked SpinLock")\n','		this.state = 0\n')])
bad('plain',['C18'],[(S,'		if atomic.CompareAndSwapInt32','		if this.state == 0 && atomic.CompareAndSwapInt32')])
bad('rw-leak',['C19'],[(R,'			this.w.Unlock()\n			panic(','			panic(')])
bad('rw-unlock-leak',['C19'],[(R,'	this.w.Unlock()\n}','}')])
bad('rw-readers',['C19'],[(R,'r >= 0 {','r >= -1 {')]) if False else None
bad('rw-pend',['C19'],[(R,'if r := atomic.LoadInt32(&this.readerCount); r >= 0 {','if r := atomic.LoadInt32(&this.readerCount); r != -rwSpinLockMaxReaders-1 {')])
bad('rw-add',['C19'],[(R,'			if atomic.CompareAndSwapInt32(&this.readerCount, r, r+1) {\n','			if atomic.AddInt32(&this.readerCount, 1) > 0 {\n')])
bad('rw-runlock-add',['C19'],[(R,'		if atomic.CompareAndSwapInt32(&this.readerCount, r, r-1) {\n','		if atomic.AddInt32(&this.readerCount, -1) >= 0 {\n')])
bad('rw-runlock0',['C19'],[(R,'if r <= 0 {','if r < 0 {')])
bad('rw-order',['C19'],[(R,'''	if !atomic.CompareAndSwapInt32(&this.readerCount, -rwSpinLockMaxReaders, 0) {
		panic("[sync] Unlock on unlocked RWSpinLock")
	}
	this.w.Unlock()
''','''	this.w.Unlock()
	if !atomic.CompareAndSwapInt32(&this.readerCount, -rwSpinLockMaxReaders, 0) {
		panic("[sync] Unlock on unlocked RWSpinLock")
	}
''')])
bad('rw-zero',['C19'],[(R,'&this.readerCount, 0, -rwSpinLockMaxReaders)','&this.readerCount, 1, -rwSpinLockMaxReaders)')])
