D='stl/deque.gp_int.go'; Q='stl/queue.gp_int.go'; K='stl/stack.gp_int.go'; S='stl/sort_slice.gp_int.go'
GROW='''			oldCap := this.Cap()
			d := this.d
			this.newBuf(oldCap * 2)
			h := copy(this.d, d[this.head:])
			t := copy(this.d[h:], d[:this.tail])
			this.head, this.tail = 0, h+t
		}
	}
	return
}

//push to back'''
GROW2=GROW.replace('push to back','pop front')
NEWGROW='''			this.grow()
		}
	}
	return
}
'''
ref('d-grow-append',['C01'],[(D,GROW,NEWGROW+'''
func (this *IntDeque) grow() {
	n := this.Cap()
	buf := make([]int, 0, n*2)
	buf = append(buf, this.d[this.head:]...)
	buf = append(buf, this.d[:this.tail]...)
	this.d = buf[:cap(buf)]
	this.head, this.tail = 0, n
}

//push to back'''),(D,GROW2,NEWGROW+'\n//pop front')])
ref('d-grow-loop',['C01'],[(D,GROW,NEWGROW+'''
func (this *IntDeque) grow() {
	n := len(this.d)
	buf := make([]int, 2*n)
	for i := 0; i < n; i++ {
		buf[i] = this.d[(this.head+i)%n]
	}
	this.d, this.head, this.tail = buf, 0, n
}

//push to back'''),(D,GROW2,NEWGROW+'\n//pop front')])
ref('d-grow-range',['C01'],[(D,GROW,NEWGROW+'''
func (this *IntDeque) grow() {
	n := len(this.d)
	buf := make([]int, 2*n)
	j := this.head
	for i := range n {
		buf[i] = this.d[j]
		j = this.next(j)
	}
	this.d, this.head, this.tail = buf, 0, n
}

//push to back'''),(D,GROW2,NEWGROW+'\n//pop front')])
ref('d-max',['C01'],[(D,'''		if bufSize <= 0 {
			bufSize = 8 //default buffer size
		}
		this.newBuf(bufSize)
''','''		switch {
		case bufSize <= 0:
			this.newBuf(8)
		default:
			this.newBuf(bufSize)
		}
''')])
ref('d-size',['C01'],[(D,'''	if this.tail >= this.head {
		size = this.tail - this.head
	} else {
		size = this.Cap() - (this.head - this.tail)
	}
	return
}

//if''','''	size = this.tail - this.head
	if size < 0 {
		size += len(this.d)
	}
	return size
}

//if''')])
ref('d-next-mod',['C01'],[(D,'''	if r = idx + 1; r >= this.Cap() {
		r = 0
	}
	return
''','''	return (idx + 1) % this.Cap()
'''),(D,'''	if r = idx - 1; r < 0 {
		r = this.Cap() - 1
	}
	return
''','''	n := this.Cap()
	return (idx + n - 1) % n
''')])
ref('d-pop-early',['C01'],[(D,'''	if ok = this.head != this.tail; ok {
		front = this.d[this.head]
		this.head = this.next(this.head)
	}
	return
''','''	if this.Empty() {
		return 0, false
	}
	defer func() { this.head = this.next(this.head) }()
	return this.d[this.head], true
''')])
ref('d-shrink',['C01'],[(D,'''		if this.tail >= this.head {
			copy(this.d, d[this.head:this.tail])
			this.tail -= this.head
			this.head = 0
		} else {
			h := copy(this.d, d[this.head:])
			t := copy(this.d[h:], d[:this.tail])
			this.head, this.tail = 0, h+t
		}
''','''		parts := [2][]int{d[this.head:], d[:this.tail]}
		if this.tail >= this.head {
			parts = [2][]int{d[this.head:this.tail], nil}
		}
		n := 0
		for _, p := range parts {
			n += copy(this.d[n:], p)
		}
		this.head, this.tail = 0, n
''')])
ref('d-new',['C01'],[(D,'''	r := &IntDeque{}
	r.Init(bufSize)
	return r
''','''	var r IntDeque
	(&r).Init(bufSize)
	return &r
''')])
bad('d-new-noinit',['C01'],[(D,'''		t := this.prev(this.tail)
		back = this.d[t]
''','''		t := max(this.tail-1, 0)
		back = this.d[t]
''')])
ref('d-backmax',['C01'],[(D,'''		t := this.prev(this.tail)
		back = this.d[t]
''','''		n := len(this.d)
		t := (this.tail - 1 + n) % n
		back = this.d[t]
''')])
ref('q-goto',['C02'],[(Q,'''	if ok = this.head != this.tail; ok {
		front = this.d[this.head]
		if this.head++; this.head >= this.Cap() && this.head != this.tail {
			this.head = 0
		}
	}
	return
''','''	if this.head == this.tail {
		goto done
	}
	front, ok = this.d[this.head], true
	this.head++
	if this.head == len(this.d) {
		this.head = 0
	}
done:
	return
''')])
ref('q-size',['C02'],[(Q,'''		size = this.Cap() - this.head + this.tail
	}
	return
''','''		size = len(this.d[this.head:]) + len(this.d[:this.tail])
	}
	return
''')])
ref('q-empty',['C02'],[(Q,'''	return this.Size() == 0
''','''	return this.head == this.tail
''')])
ref('q-push',['C02'],[(Q,'''		this.d[this.tail] = v
		if this.tail++; this.tail >= this.Cap() {
			this.tail = 0
		}
''','''		n := this.Cap()
		this.d[this.tail] = v
		this.tail = (this.tail + 1) % n
''')])
ref('q-grow2',['C02'],[(Q,'''			oldCap := this.Cap()
			d := this.d
			this.newBuf(oldCap * 2)
			h := copy(this.d, d[this.head:])
			t := copy(this.d[h:], d[:this.tail])
			this.head, this.tail = 0, h+t
''','''			old := this.d
			this.d = append(append(make([]int, 0, 2*len(old)), old[this.head:]...), old[:this.tail]...)
			this.d = this.d[:cap(this.d)]
			this.head, this.tail = 0, len(old)
''')])
bad('q-growbad',['C02'],[(Q,'''			oldCap := this.Cap()
			d := this.d
			this.newBuf(oldCap * 2)
			h := copy(this.d, d[this.head:])
			t := copy(this.d[h:], d[:this.tail])
			this.head, this.tail = 0, h+t
''','''			old := this.d
			this.d = append(append([]int{}, old[this.head:]...), old[:this.tail]...)
			this.d = this.d[:cap(this.d)]
			this.head, this.tail = 0, len(old)
''')])
ref('k-slices',['C03'],[(K,'''	d := this.Size()
	if d > 0 {
		top = this.d[d-1]
		ok = true
	}
	return

''','''	for i := len(this.d) - 1; i >= 0; {
		return this.d[i], true
	}
	return 0, false
''')])
ref('k-pop',['C03'],[(K,'''	if top, ok = this.Top(); ok {
		this.d = this.d[:this.Size()-1]
	}
	return
''','''	n := len(this.d)
	if n == 0 {
		return
	}
	top, ok, this.d = this.d[n-1], true, this.d[:n-1]
	return
''')])
ref('k-pop-zero',['C03'],[(K,'''		this.d = this.d[:this.Size()-1]
''','''		n := this.Size() - 1
		clear(this.d[n:])
		this.d = this.d[:n]
''')])
ref('k-push',['C03'],[(K,'''	if ok = true; ok {
		this.d = append(this.d, v)
	}
	return
''','''	n := len(this.d)
	if n < cap(this.d) {
		this.d = this.d[:n+1]
		this.d[n] = v
	} else {
		this.d = append(this.d, v)
	}
	return true
''')])
bad('k-pushbad',['C03'],[(K,'''	if ok = true; ok {
		this.d = append(this.d, v)
	}
	return
''','''	n := len(this.d)
	if n < cap(this.d) {
		this.d = this.d[:cap(this.d)]
		this.d[n] = v
	} else {
		this.d = append(this.d, v)
	}
	return true
''')])
ref('s-insert-slices',['C04'],[(S,'import "sort"','import (\n\t"slices"\n\t"sort"\n)'),(S,'''		this.d = append(this.d, v)
		copy(this.d[idx+1:], this.d[idx:])
		this.d[idx] = v
''','''		this.d = slices.Insert(this.d, idx, v)
''')])
ref('s-remove-slices',['C04'],[(S,'import "sort"','import (\n\t"slices"\n\t"sort"\n)'),(S,'''		right := this.d[idx+1:]
		this.d = append(this.d[:idx], right...)
''','''		this.d = slices.Delete(this.d, idx, idx+1)
''')])
bad('s-remove-slicesbad',['C04'],[(S,'import "sort"','import (\n\t"slices"\n\t"sort"\n)'),(S,'''		right := this.d[idx+1:]
		this.d = append(this.d[:idx], right...)
''','''		this.d = slices.Delete(this.d, idx, min(idx+2, len(this.d)))
''')])
ref('s-insert-loop',['C04'],[(S,'''		this.d = append(this.d, v)
		copy(this.d[idx+1:], this.d[idx:])
		this.d[idx] = v
''','''		this.d = append(this.d, v)
		for i := len(this.d) - 1; i > idx; i-- {
			this.d[i] = this.d[i-1]
		}
		this.d[idx] = v
''')])
ref('s-remove-loop',['C04'],[(S,'''		right := this.d[idx+1:]
		this.d = append(this.d[:idx], right...)
''','''		last := len(this.d) - 1
		for i := idx; i < last; i++ {
			this.d[i] = this.d[i+1]
		}
		this.d = this.d[:last]
''')])
ref('s-insert-pushswap',['C04'],[(S,'''		this.d = append(this.d, v)
		copy(this.d[idx+1:], this.d[idx:])
		this.d[idx] = v
''','''		n := this.Push(v)
		for i := n - 1; i > idx; i-- {
			this.Swap(i, i-1)
		}
''')])
ref('s-sort',['C26'],[(S,'	sort.Sort(this)\n','''	sort.Slice(this.d, this.Less)
''')])
ref('s-sort2',['C26'],[(S,'	sort.Sort(this)\n','''	sort.Stable(this)
''')])
ref('s-sort3',['C26'],[(S,'import "sort"','import "slices"'),(S,'	sort.Sort(this)\n','''	slices.SortFunc(this.d, func(a, b int) int {
		if gIntSortSliceGbl.cmp.F(a, b) {
			return -1
		}
		if gIntSortSliceGbl.cmp.F(b, a) {
			return 1
		}
		return 0
	})
''')])
ref('s-swap',['C04','C26'],[(S,'	(this.d)[i], (this.d)[j] = (this.d)[j], (this.d)[i]\n','''	p, q := &this.d[i], &this.d[j]
	*p, *q = *q, *p
''')])
ref('s-generic',['C04'],[(S,'	if ok = idx >= 0 && idx < this.Len(); ok {\n','	if ok = within(idx, 0, this.Len()); ok {\n'),(S,'''//must get
''','''func within[T int | int64](v, lo, hi T) bool {
	return lo <= v && v < hi
}

//must get
''')])
ref('s-mustget',['C04'],[(S,'''	ok := false
	if r, ok = this.Get(idx); !ok {
		panic(idx)
	}
	return
''','''	if v, ok := this.Get(idx); ok {
		return v
	}
	panic(idx)
''')])
R64='math/range_uint64.go'
BI=('import (\n','import (\n\t"math/bits"\n')
ref('r64-mul',['C10'],[(R64,)+BI,(R64,'''	if other > 0 && math.MaxUint64/other < me.val {
		return me.min,''','''	hi, v := bits.Mul64(me.val, other)
	if hi != 0 {
		return me.min,'''),(R64,'''	v := me.val * other
	r, err = v, me.verify(v)
	return
''','''	return v, me.verify(v)
''')])
ref('r64-add',['C10'],[(R64,)+BI,(R64,'''	if math.MaxUint64-other < me.val {
		return me.min,''','''	v, carry := bits.Add64(me.val, other, 0)
	if carry != 0 {
		return me.min,'''),(R64,'''	v := me.val + other
	r, err = v, me.verify(v)
	return
''','''	return v, me.verify(v)
''')])
bad('r64-mulbad',['C10'],[(R64,)+BI,(R64,'''	if other > 0 && math.MaxUint64/other < me.val {
		return me.min,''','''	hi, v := bits.Mul64(me.val, other)
	if hi > 1 {
		return me.min,'''),(R64,'''	v := me.val * other
	r, err = v, me.verify(v)
	return
''','''	return v, me.verify(v)
''')])
