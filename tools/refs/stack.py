Q='stl/stack.gp_int.go'
C=['C03']
def r(name,*ch): ref(name,C,[(Q,)+c for c in ch])
def b(name,*ch): bad(name,C,[(Q,)+c for c in ch])
TOP='''	d := this.Size()
	if d > 0 {
		top = this.d[d-1]
		ok = true
	}
	return

'''
POP='''	if top, ok = this.Top(); ok {
		this.d = this.d[:this.Size()-1]
	}
	return
'''
r('top-early',(TOP,'''	if this.Empty() {
		return
	}
	return this.d[this.Size()-1], true
'''))
r('pop-inline',(POP,'''	n := len(this.d)
	if n == 0 {
		return 0, false
	}
	top = this.d[n-1]
	this.d[n-1] = 0
	this.d = this.d[:n-1]
	return top, true
'''))
r('pop-order',(POP,'''	n := len(this.d) - 1
	if n < 0 {
		return
	}
	rest, last := this.d[:n], this.d[n:]
	this.d = rest
	return last[0], true
'''))
r('push-grow',('		this.d = append(this.d, v)\n','''		if len(this.d) == cap(this.d) {
			d := make([]int, len(this.d), 2*cap(this.d)+1)
			copy(d, this.d)
			this.d = d
		}
		n := len(this.d)
		this.d = this.d[:n+1]
		this.d[n] = v
'''))
r('clear',('	this.Init(-1)\n','	this.d = this.d[:0]\n'))
r('clear-nil',('	this.Init(-1)\n','	this.d = nil\n'))
r('init',('''	if nil == this.d {
		if -1 == bufSize {
			bufSize = 10
		}
		if bufSize > 0 {
			this.d = make([]int, 0, bufSize)
		}
	}
	this.d = this.d[:0]
	return
''','''	if this.d != nil {
		this.d = this.d[:0]
		return
	}
	if bufSize < 0 {
		bufSize = 10
	}
	this.d = make([]int, 0, bufSize)
'''))
r('loop-clear',('	this.Init(-1)\n','''	for !this.Empty() {
		this.Pop()
	}
'''))
r('zero-clear',('	this.Init(-1)\n','''	for i := range this.d {
		this.d[i] = 0
	}
	this.d = this.d[:0]
'''))
b('init-cap',('this.d = make([]int, 0, bufSize)','this.d = make([]int, bufSize)'),('	this.d = this.d[:0]\n',''))
b('init-neg',('bufSize > 0 {','bufSize != 0 {'))
b('pop-zero',(POP,'''	if top, ok = this.Top(); ok {
		this.d = append(this.d[:0], this.d[1:]...)
	}
	return
'''))
b('top-cap',(TOP,TOP.replace('if d > 0','if d > 1')))
b('push-lim',('		this.d = append(this.d, v)\n','		if len(this.d) < 1<<30 {\n			this.d = append(this.d, v)\n		}\n'))
b('push-grow-bad',('		this.d = append(this.d, v)\n','''		if len(this.d) == cap(this.d) {
			d := make([]int, len(this.d), 2*cap(this.d))
			copy(d, this.d)
			this.d = d
		}
		n := len(this.d)
		this.d = this.d[:n+1]
		this.d[n] = v
'''))
b('push-grow-bad2',('		this.d = append(this.d, v)\n','''		if n := len(this.d); n > 0 && n == cap(this.d) {
			d := make([]int, n, n+n/2+1)
			copy(d[1:], this.d[1:])
			this.d = d
		}
		this.d = append(this.d, v)
'''))
