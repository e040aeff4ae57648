Q='stl/deque.gp_int.go'
C=['C01']
def r(name,*ch): ref(name,C,[(Q,)+c for c in ch])
def b(name,*ch): bad(name,C,[(Q,)+c for c in ch])
FG='''		if this.head == this.tail { //head reaches tail, buffer full
			oldCap := this.Cap()
			d := this.d
			this.newBuf(oldCap * 2)
			h := copy(this.d, d[this.head:])
			t := copy(this.d[h:], d[:this.tail])
			this.head, this.tail = 0, h+t
		}
'''
BG='''		if this.tail == this.head { //tail catches up head, buffer full
			oldCap := this.Cap()
			d := this.d
			this.newBuf(oldCap * 2)
			h := copy(this.d, d[this.head:])
			t := copy(this.d[h:], d[:this.tail])
			this.head, this.tail = 0, h+t
		}
'''
r('helper',(FG,'		this.growIfFull()\n'),(BG,'		this.growIfFull()\n'),('','''
func (this *IntDeque) growIfFull() {
	if this.head != this.tail {
		return
	}
	old := this.d
	this.newBuf(2 * len(old))
	n := copy(this.d, old[this.head:])
	n += copy(this.d[n:], old[:this.tail])
	this.head, this.tail = 0, n
}
'''))
r('grow-tail',(FG,'''		if this.head == this.tail {
			old := this.d
			n := len(old)
			this.newBuf(n * 2)
			copy(this.d[n:], old[this.head:])
			copy(this.d[2*n-this.head:], old[:this.tail])
			this.head, this.tail = n, 0
		}
'''))
r('next-mod',('''	if r = idx + 1; r >= this.Cap() {
		r = 0
	}
	return
''','	return (idx + 1) % this.Cap()\n'))
r('prev-mod',('''	if r = idx - 1; r < 0 {
		r = this.Cap() - 1
	}
	return
''','	n := this.Cap()\n	return (idx + n - 1) % n\n'))
r('prev-if',('''	if r = idx - 1; r < 0 {
		r = this.Cap() - 1
	}
	return
''','''	if idx == 0 {
		return this.Cap() - 1
	}
	return idx - 1
'''))
r('inline-back',('''		t := this.prev(this.tail)
		back = this.d[t]
''','''		i := this.tail
		if i == 0 {
			i = this.Cap()
		}
		back = this.d[i-1]
'''))
r('popback-order',('''		this.tail = this.prev(this.tail)
		back = this.d[this.tail]
''','''		back, ok = this.Back()
		this.tail = this.prev(this.tail)
'''))
r('popfront-local',('''		front = this.d[this.head]
		this.head = this.next(this.head)
''','''		h := this.head
		this.head = this.next(h)
		front = this.d[h]
'''))
r('empty',('return this.Size() == 0','return this.head == this.tail'))
r('recv-rename',('''func (this *IntDeque) PopFront() (front int, ok bool) {
	if ok = this.head != this.tail; ok {
		front = this.d[this.head]
		this.head = this.next(this.head)
	}
	return
''','''func (q *IntDeque) PopFront() (int, bool) {
	if q.head == q.tail {
		return 0, false
	}
	v := q.d[q.head]
	q.d[q.head] = 0
	q.head = q.next(q.head)
	return v, true
'''))
SHR='''		d := this.d
		this.newBuf(oldCap / 2)
		if this.tail >= this.head {
			copy(this.d, d[this.head:this.tail])
			this.tail -= this.head
			this.head = 0
		} else {
			h := copy(this.d, d[this.head:])
			t := copy(this.d[h:], d[:this.tail])
			this.head, this.tail = 0, h+t
		}
'''
r('shrink-loop',(SHR,'''		nd := make([]int, oldCap/2)
		for i, j := 0, this.head; i < oldSize; i, j = i+1, this.next(j) {
			nd[i] = this.d[j]
		}
		this.d, this.head, this.tail = nd, 0, oldSize
'''))
r('shrink-while',(SHR,'''		nd := make([]int, oldCap/2)
		i := 0
		for j := this.head; j != this.tail; j = this.next(j) {
			nd[i] = this.d[j]
			i++
		}
		this.d, this.head, this.tail = nd, 0, i
'''))
r('size',('''	if this.tail >= this.head {
		size = this.tail - this.head
	} else {
		size = this.Cap() - (this.head - this.tail)
	}
	return
''','''	if size = this.tail - this.head; size < 0 {
		size += this.Cap()
	}
	return
'''))
r('size-count',('''	if this.tail >= this.head {
		size = this.tail - this.head
	} else {
		size = this.Cap() - (this.head - this.tail)
	}
	return
''','''	for i := this.head; i != this.tail; i = this.next(i) {
		size++
	}
	return
'''))
b('frontgrow',(FG,FG.replace('d[this.head:]','d[this.head+1:]')))
b('frontgrow2',(FG,FG.replace('0, h+t','0, h+t-t/8')))
b('next-off',('r >= this.Cap()','r > this.Cap()'))
b('prev-off',('r = this.Cap() - 1','r = this.Cap() - 2'))
b('back',('''		t := this.prev(this.tail)
		back = this.d[t]
''','''		t := this.tail - 1
		if t < 0 {
			t = 0
		}
		back = this.d[t]
'''))
b('shrink-third',('this.newBuf(oldCap / 2)','this.newBuf(oldCap / 3)'))
b('shrink-2',('oldCap >= 3*oldSize','oldCap >= 2*oldSize'))
b('grow-cap',(BG,BG.replace('if this.tail == this.head {','if this.tail == this.head && oldHead < 1<<20 {')),('		this.d[this.tail] = v\n','		oldHead := this.head\n		this.d[this.tail] = v\n'))
b('clear',('''func (this *IntDeque) Clear() {
	this.head, this.tail = 0, 0
''','''func (this *IntDeque) Clear() {
	this.tail = this.prev(this.head)
'''))
b('empty-true',('''	if ok = this.head != this.tail; ok {
		t := this.prev''','''	if ok = this.Cap() > 0; ok {
		t := this.prev'''))
