Q='stl/sort_slice.gp_int.go'
C=['C04']
def r(name,*ch): ref(name,C,[(Q,)+c for c in ch])
def b(name,*ch): bad(name,C,[(Q,)+c for c in ch])
INS='''	if idx >= 0 && idx < this.Len() {
		this.d = append(this.d, v)
		copy(this.d[idx+1:], this.d[idx:])
		this.d[idx] = v
	} else {
		this.d = append(this.d, v)
	}
	return this.Len()
'''
REM='''	if r, ok = this.Get(idx); ok {
		right := this.d[idx+1:]
		this.d = append(this.d[:idx], right...)
	}
	return
'''
r('ins-append-first',(INS,'''	n := this.Push(v)
	if idx >= 0 && idx < n-1 {
		copy(this.d[idx+1:], this.d[idx:])
		this.d[idx] = v
	}
	return n
'''))
r('ins-loop',(INS,'''	n := this.Push(v)
	if idx < 0 {
		return n
	}
	for i := n - 1; i > idx; i-- {
		this.d[i], this.d[i-1] = this.d[i-1], this.d[i]
	}
	return n
'''))
r('ins-loop2',(INS,'''	this.d = append(this.d, v)
	if idx >= 0 && idx < len(this.d) {
		for i := len(this.d) - 1; i > idx; i-- {
			this.d[i] = this.d[i-1]
		}
		this.d[idx] = v
	}
	return this.Len()
'''))
r('ins-fresh',(INS,'''	if idx < 0 || idx >= this.Len() {
		return this.Push(v)
	}
	d := make([]int, 0, len(this.d)+1)
	d = append(d, this.d[:idx]...)
	d = append(d, v)
	d = append(d, this.d[idx:]...)
	this.d = d
	return len(d)
'''))
r('ins-nested',(INS,'''	if idx < 0 || idx >= this.Len() {
		return this.Push(v)
	}
	this.d = append(this.d[:idx], append([]int{v}, this.d[idx:]...)...)
	return this.Len()
'''))
r('rem-copy',(REM,'''	if r, ok = this.Get(idx); !ok {
		return
	}
	copy(this.d[idx:], this.d[idx+1:])
	this.d = this.d[:len(this.d)-1]
	return
'''))
r('rem-loop',(REM,'''	if r, ok = this.Get(idx); ok {
		n := this.Len() - 1
		for i := idx; i < n; i++ {
			this.d[i] = this.d[i+1]
		}
		this.d[n] = 0
		this.d = this.d[:n]
	}
	return
'''))
r('rem-swap',(REM,'''	if r, ok = this.Get(idx); ok {
		for i := idx + 1; i < this.Len(); i++ {
			this.Swap(i-1, i)
		}
		this.Pop()
	}
	return
'''))
r('pop-get',('''	if ok = len(this.d) > 0; ok {
		r = (this.d)[len(this.d)-1]
		this.d = (this.d)[:len(this.d)-1]
	}
	return
''','''	n := len(this.d) - 1
	if r, ok = this.Get(n); ok {
		this.d = this.d[:n]
	}
	return
'''))
r('pop-rem',('''	if ok = len(this.d) > 0; ok {
		r = (this.d)[len(this.d)-1]
		this.d = (this.d)[:len(this.d)-1]
	}
	return
''','	return this.Remove(len(this.d) - 1)\n'))
r('get-uint',('''	if ok = idx >= 0 && idx < this.Len(); ok {
		r = this.d[idx]
	}
	return
''','''	if uint(idx) < uint(len(this.d)) {
		return this.d[idx], true
	}
	return 0, false
'''))
r('must',('''	ok := false
	if r, ok = this.Get(idx); !ok {
		panic(idx)
	}
	return
''','	return this.d[idx]\n'))
b('ins-at',(INS,INS.replace('idx < this.Len() {','idx < this.Len()-1 {')))
b('ins-neg',(INS,INS.replace('if idx >= 0 &&','if idx < 0 {\n		idx = 0\n	}\n	if')))
b('ins-shift',(INS,INS.replace('this.d[idx+1:], this.d[idx:]','this.d[idx+1:], this.d[idx+1:]')))
b('ins-nested',(INS,'''	if idx < 0 || idx >= this.Len() {
		return this.Push(v)
	}
	l := append(this.d[:idx], v)
	this.d = append(l, this.d[idx:]...)
	return this.Len()
'''))
b('rem-swap',(REM,'''	if r, ok = this.Get(idx); ok {
		n := this.Len() - 1
		this.d[idx] = this.d[n]
		this.d = this.d[:n]
	}
	return
'''))
b('rem-loop',(REM,'''	if r, ok = this.Get(idx); ok {
		n := this.Len() - 1
		for i := n; i > idx; i-- {
			this.d[i-1] = this.d[i]
		}
		this.d = this.d[:n]
	}
	return
'''))
b('get-le',('idx < this.Len(); ok','idx <= this.Len() && idx < cap(this.d); ok'))
b('buffer',('	return this.d\n','	return this.d[:cap(this.d)]\n'))
