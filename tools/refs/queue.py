Q='stl/queue.gp_int.go'
C=['C02']
def r(name,*ch): ref(name,C,[(Q,)+c for c in ch])
def b(name,*ch): bad(name,C,[(Q,)+c for c in ch])
GROW='''			oldCap := this.Cap()
			d := this.d
			this.newBuf(oldCap * 2)
			h := copy(this.d, d[this.head:])
			t := copy(this.d[h:], d[:this.tail])
			this.head, this.tail = 0, h+t
'''
ADV='''		if this.tail++; this.tail >= this.Cap() {
			this.tail = 0
		}
'''
SIZE='''	if this.tail >= this.head {
		size = this.tail - this.head
	} else {
		size = this.Cap() - this.head + this.tail
	}
	return
'''
BACK='''		t := this.tail - 1
		if t < 0 {
			t = this.Cap() - 1
		}
		back = this.d[t]
'''
r('grow-helper',(GROW,'			this.realloc(this.Cap() * 2)\n'),('','''
func (this *IntQueue) realloc(n int) {
	old := this.d
	this.newBuf(n)
	h := copy(this.d, old[this.head:])
	t := copy(this.d[h:], old[:this.tail])
	this.head, this.tail = 0, h+t
}
'''))
r('grow-append',(GROW,'''			n := len(this.d)
			d := make([]int, 0, n*2)
			d = append(d, this.d[this.head:]...)
			d = append(d, this.d[:this.tail]...)
			this.d = d[:n*2]
			this.head, this.tail = 0, n
'''))
r('grow-loop',(GROW,'''			oldCap := this.Cap()
			nd := make([]int, oldCap*2)
			for i := 0; i < oldCap; i++ {
				nd[i] = this.d[(this.head+i)%oldCap]
			}
			this.d = nd
			this.head, this.tail = 0, oldCap
'''))
r('grow-loop2',(GROW,'''			oldCap := this.Cap()
			nd := make([]int, oldCap*2)
			j := this.head
			for i := 0; i < oldCap; i++ {
				nd[i] = this.d[j]
				if j++; j == oldCap {
					j = 0
				}
			}
			this.d = nd
			this.head, this.tail = 0, oldCap
'''))
r('grow-x3',('oldCap * 2','oldCap*3 + 1'))
r('adv-mod',(ADV,'		this.tail = (this.tail + 1) % this.Cap()\n'))
r('adv-mod2',(ADV,'		this.tail = (this.tail + 1) % len(this.d)\n'))
r('adv-loc',(ADV,'''		t := this.tail + 1
		if t == len(this.d) {
			t = 0
		}
		this.tail = t
'''))
r('size-mod',(SIZE,'''	if n := len(this.d); n > 0 {
		size = (this.tail - this.head + n) % n
		if this.head == n {
			size = 0
		}
	}
	return
'''))
r('size-adj',(SIZE,'''	size = this.tail - this.head
	if size < 0 {
		size += len(this.d)
	}
	return
'''))
r('size-inv',(SIZE,'''	if this.tail < this.head {
		return this.tail + this.Cap() - this.head
	}
	return this.tail - this.head
'''))
r('back-switch',(BACK,'''		if this.tail == 0 {
			back = this.d[len(this.d)-1]
		} else {
			back = this.d[this.tail-1]
		}
'''))
r('back-mod',(BACK,'''		n := this.Cap()
		back = this.d[(this.tail+n-1)%n]
'''))
r('empty-eq',('return this.Size() == 0','return this.head == this.tail'))
r('early',('''	if ok = this.head != this.tail; ok {
		front = this.d[this.head]
		if this.head++; this.head >= this.Cap() && this.head != this.tail {
			this.head = 0
		}
	}
	return
''','''	if this.Empty() {
		return 0, false
	}
	front = this.d[this.head]
	this.head++
	if this.head >= this.Cap() {
		if this.head != this.tail {
			this.head = 0
		}
	}
	return front, true
'''))
r('pop-next',('''		if this.head++; this.head >= this.Cap() && this.head != this.tail {
			this.head = 0
		}
''','''		this.head++
		if this.head == this.Cap() {
			this.head = 0
		}
'''))
r('front-pop',('''	if ok = this.head != this.tail; ok {
		front = this.d[this.head]
		if''','''	if front, ok = this.Front(); ok {
		if'''))
SHR='''		d := this.d
		this.newBuf(oldCap / 2)
		if this.tail >= this.head {
			copy(this.d, d[this.head:this.tail])
			this.tail -= this.head
			this.head = 0
		} else {
			h := copy(this.d, d[this.head:])
			t := copy(this.d[h:], d[:this.tail])
			this.head, this.tail = 0, h+t
		}
'''
r('shrink-early',('	if ok = oldCap > 8 && oldCap >= 3*oldSize; ok { //leave at least 8 elem space\n'+SHR+'	}\n	return\n','''	if oldCap <= 8 || oldCap < 3*oldSize {
		return false
	}
	d, h, t := this.d, this.head, this.tail
	this.newBuf(oldCap / 2)
	n := 0
	if t < h {
		n = copy(this.d, d[h:])
		h = 0
	}
	n += copy(this.d[n:], d[h:t])
	this.head, this.tail = 0, n
	return true
'''))
r('shrink-loop',(SHR,'''		nd := make([]int, oldCap/2)
		for i := range nd[:oldSize] {
			j := this.head + i
			if j >= oldCap {
				j -= oldCap
			}
			nd[i] = this.d[j]
		}
		this.d, this.head, this.tail = nd, 0, oldSize
'''))
r('shrink-pop',(SHR,'''		nd := make([]int, oldCap/2)
		n := 0
		for !this.Empty() {
			v, _ := this.Pop()
			nd[n] = v
			n++
		}
		this.d, this.head, this.tail = nd, 0, n
'''))
r('init-split',('''	if nil == this.d {
		if bufSize <= 0 {
			bufSize = 8 //default buffer size
		}
		this.newBuf(bufSize)
	}
	this.Clear()
	return
''','''	defer this.Clear()
	if this.d != nil {
		return
	}
	switch {
	case bufSize > 0:
		this.newBuf(bufSize)
	default:
		this.newBuf(8)
	}
'''))
r('push-check-first',('''		this.d[this.tail] = v
'''+ADV+'''		if this.tail == this.head { //tail catch up head, buffer full
'''+GROW+'		}\n','''		d := this.d
		d[this.tail] = v
		this.tail++
		if this.tail >= len(d) {
			this.tail = 0
		}
		if this.tail != this.head {
			return
		}
'''+GROW.replace('d := this.d\n','')))
r('zero-popped',('		front = this.d[this.head]\n		if this','		front = this.d[this.head]\n		this.d[this.head] = 0\n		if this'))
r('shrink-ge',('oldCap > 8 &&','oldCap >= 9 &&'))
b('back-off',('t = this.Cap() - 1','t = this.Cap() - 2'))
b('size-off',('size = this.Cap() - this.head + this.tail','size = this.Cap() - this.head + this.tail - 1'))
b('grow-order',('h := copy(this.d, d[this.head:])\n			t := copy(this.d[h:], d[:this.tail])\n			this.head, this.tail = 0, h+t\n		}\n	}\n	return\n}\n\n//pop','h := copy(this.d, d[:this.tail])\n			t := copy(this.d[h:], d[this.head:])\n			this.head, this.tail = 0, h+t\n		}\n	}\n	return\n}\n\n//pop')) if False else None
b('shrink-tight',('oldCap >= 3*oldSize','oldCap > 2*oldSize-2'))
b('shrink-eq',('oldCap >= 3*oldSize','oldCap >= 2*oldSize'))
b('shrink-ret',('this.newBuf(oldCap / 2)\n		if this.tail >= this.head','ok = oldSize > 0\n		this.newBuf(oldCap / 2)\n		if this.tail >= this.head'))
b('zero-wrong',('		if this.head++; this.head >= this.Cap() && this.head != this.tail {\n			this.head = 0\n		}\n','		if this.head++; this.head >= this.Cap() && this.head != this.tail {\n			this.head = 0\n		}\n		if this.head == this.tail {\n			this.head = 2\n			this.tail = 2\n		}\n'))
b('clear-half',('this.head, this.tail = 0, 0','this.head = this.tail'))if False else None
b('size-eq',('if this.tail >= this.head {\n		size','if this.tail > this.head {\n		size'))
b('front-back',('''		front = this.d[this.head]
	}
''','''		if front = this.d[this.head]; this.head+1 == this.Cap() {
			front = this.d[0]
		}
	}
'''))
b('pop-stale',('ok = this.head != this.tail; ok {\n		front = this.d[this.head]\n		if','ok = this.head != this.tail; this.d != nil {\n		front = this.d[this.head%len(this.d)]\n		if'))
