Q='stl/heap.gp_int.go'
C=['C07']
def r(name,*ch): ref(name,C,[(Q,)+c for c in ch])
def b(name,*ch): bad(name,C,[(Q,)+c for c in ch])
DOWN='''	size := len(b)

	//try to improve STL's adjust down algorithm
	//adjust heap to select a proper hole to set v
	for l := this.lchild(hole); l < size; l = this.lchild(hole) {
		c := l                                              //index that need compare with hole
		if r := l + 1; r < size && !this.cmpV(b[r], b[l]) { //let the most proper child to compare with v
			c = r
		}
		if this.cmpV(b[c], v) { //v is the most proper root, finish adjust
			break
		} else { //c is the most proper root, swap with hole, and continue adjust
			b[hole], hole = b[c], c
		}
	}
	b[hole] = v //put v to last hole

'''
UP='''	for hole > 0 {
		if parent := this.parent(hole); !this.cmpV(v, b[parent]) {
			b[hole], hole = b[parent], parent
		} else {
			break
		}
	}
	b[hole] = v //put v to last hole
'''
POP='''	l := len(b)
	if ok = l > 0; ok {
		top = b[0]
		if l > 1 {
			b[0], b[l-1] = b[l-1], b[0]
			this.adjustDown(b[:l-1], 0, b[0])
		}
		h = b[:l-1]
	}
	return
'''
MAKE='''	if l := len(b); l > 1 {
		for i := l / 2; i >= 0; i-- {
			this.adjustDown(b, i, b[i])
		}
	}
'''
CHK='''	for i := len(b) - 1; i > 0; i-- {
		p := this.parent(i)
		if !this.cmpV(b[i], b[p]) {
			return false
		}
	}
	return true
'''
PUSH='''	if this.limitN > 0 && this.Size() >= this.limitN {
		if top, ok := this.Top(); ok && this.cmpV(v, top) {
			this.Pop()
		} else {
			return
		}
	}
	this.b = this.PushHeap(this.b, v)
'''
r('down-early',(DOWN,'''	size := len(b)
	for {
		c := 2*hole + 1
		if c >= size {
			break
		}
		if c+1 < size && !this.cmpV(b[c+1], b[c]) {
			c++
		}
		if this.cmpV(b[c], v) {
			break
		}
		b[hole] = b[c]
		hole = c
	}
	b[hole] = v
'''))
r('down-right-first',(DOWN,'''	size := len(b)
	for l := this.lchild(hole); l < size; l = this.lchild(hole) {
		c := l + 1
		if c == size || this.cmpV(b[c], b[l]) {
			c = l
		}
		if this.cmpV(b[c], v) {
			b[hole] = v
			return
		}
		b[hole], hole = b[c], c
	}
	b[hole] = v
'''))
r('down-swap',(DOWN,'''	b[hole] = v
	for l := this.lchild(hole); l < len(b); l = this.lchild(hole) {
		c := l
		if r := l + 1; r < len(b) && !this.cmpV(b[r], b[l]) {
			c = r
		}
		if this.cmpV(b[c], b[hole]) {
			break
		}
		b[hole], b[c] = b[c], b[hole]
		hole = c
	}
'''))
r('down-best',(DOWN,'''	size := len(b)
	b[hole] = v
	for {
		best, l, r := hole, 2*hole+1, 2*hole+2
		if l < size && !this.cmpV(b[l], b[best]) {
			best = l
		}
		if r < size && !this.cmpV(b[r], b[best]) {
			best = r
		}
		if best == hole {
			return
		}
		b[hole], b[best] = b[best], b[hole]
		hole = best
	}
'''))
r('down-helper',(DOWN,'''	for l := this.lchild(hole); l < len(b); l = this.lchild(hole) {
		c := this.better(b, l)
		if this.cmpV(b[c], v) {
			break
		}
		b[hole] = b[c]
		hole = c
	}
	b[hole] = v
'''),('//adjust heap to select a proper hole to set v\nfunc (this *IntHeap) adjustUp','''func (this *IntHeap) better(b []int, l int) int {
	if r := l + 1; r < len(b) && !this.cmpV(b[r], b[l]) {
		return r
	}
	return l
}

func (this *IntHeap) adjustUp'''))
r('down-equal-stops',('if r := l + 1; r < size && !this.cmpV(b[r], b[l])','if r := l + 1; r < size && this.cmpV(b[l], b[r])'))
r('down-parentloop',(DOWN,'''	size := len(b)
	for hole < size/2 {
		c := this.lchild(hole)
		if r := c + 1; r < size && !this.cmpV(b[r], b[c]) {
			c = r
		}
		if this.cmpV(b[c], v) {
			break
		}
		b[hole] = b[c]
		hole = c
	}
	b[hole] = v
'''))
r('up-swap',(UP,'''	b[hole] = v
	for hole > 0 {
		p := this.parent(hole)
		if this.cmpV(b[hole], b[p]) {
			return
		}
		b[hole], b[p] = b[p], b[hole]
		hole = p
	}
'''))
r('up-for',(UP,'''	for p := this.parent(hole); hole > 0 && !this.cmpV(v, b[p]); p = this.parent(hole) {
		b[hole] = b[p]
		hole = p
	}
	b[hole] = v
'''))
r('up-early',(UP,'''	for hole > 0 {
		p := (hole - 1) >> 1
		if this.cmpV(v, b[p]) {
			break
		}
		b[hole] = b[p]
		hole = p
	}
	b[hole] = v
'''))
r('up-recursive-free',(UP,'''	for ; hole > 0; hole = this.parent(hole) {
		p := this.parent(hole)
		if this.cmpV(v, b[p]) {
			break
		}
		b[hole] = b[p]
	}
	b[hole] = v
'''))
r('pop-direct',(POP,'''	n := len(b)
	if n == 0 {
		return
	}
	top, ok = b[0], true
	last := b[n-1]
	h = b[:n-1]
	if n > 1 {
		b[n-1] = top
		this.adjustDown(h, 0, last)
	}
	return
'''))
r('pop-early',(POP,'''	l := len(b)
	if l == 0 {
		return nil, 0, false
	}
	top = b[0]
	if l == 1 {
		return b[:0], top, true
	}
	b[0], b[l-1] = b[l-1], b[0]
	h = b[:l-1]
	this.adjustDown(h, 0, h[0])
	return h, top, true
'''))
r('pop-swapalways',(POP,'''	last := len(b) - 1
	if last < 0 {
		return
	}
	b[0], b[last] = b[last], b[0]
	h, top, ok = b[:last], b[last], true
	if last > 0 {
		this.adjustDown(h, 0, h[0])
	}
	return
'''))
r('make-from-last-parent',(MAKE,'''	for i := len(b)/2 - 1; i >= 0; i-- {
		this.adjustDown(b, i, b[i])
	}
'''))
r('make-parent',(MAKE,'''	n := len(b)
	if n < 2 {
		return
	}
	for i := this.parent(n - 1); i >= 0; i-- {
		v := b[i]
		this.adjustDown(b, i, v)
	}
'''))
r('make-up',(MAKE,'''	for i := 1; i < len(b); i++ {
		this.adjustUp(b, i, b[i])
	}
'''))
r('make-push',(MAKE,'''	h := b[:0]
	for _, v := range b {
		h = this.PushHeap(h, v)
	}
'''))
r('make-countdown',(MAKE,'''	for i := len(b); i > 0; {
		i--
		this.adjustDown(b, i, b[i])
	}
'''))
r('check-up',(CHK,'''	for i := 1; i < len(b); i++ {
		if !this.cmpV(b[i], b[this.parent(i)]) {
			return false
		}
	}
	return true
'''))
r('check-flag',(CHK,'''	ok := true
	for i := 1; ok && i < len(b); i++ {
		ok = this.cmpV(b[i], b[(i-1)/2])
	}
	return ok
'''))
r('check-parents',(CHK,'''	n := len(b)
	for p := 0; this.lchild(p) < n; p++ {
		l := this.lchild(p)
		if !this.cmpV(b[l], b[p]) {
			return false
		}
		if r := l + 1; r < n && !this.cmpV(b[r], b[p]) {
			return false
		}
	}
	return true
'''))
r('check-range',(CHK,'''	for i, v := range b {
		if i > 0 && !this.cmpV(v, b[this.parent(i)]) {
			return false
		}
	}
	return true
'''))
r('push-early',(PUSH,'''	if this.limitN > 0 && len(this.b) >= this.limitN {
		top, ok := this.Top()
		if !ok || !this.cmpV(v, top) {
			return
		}
		this.Pop()
	}
	this.b = this.PushHeap(this.b, v)
'''))
r('push-inplace',(PUSH,'''	if this.limitN > 0 && len(this.b) >= this.limitN {
		if len(this.b) > 0 && this.cmpV(v, this.b[0]) {
			this.adjustDown(this.b, 0, v)
		}
		return
	}
	this.b = this.PushHeap(this.b, v)
'''))
r('push-helper',(PUSH,'''	if this.full() && !this.makeRoom(v) {
		return
	}
	this.b = this.PushHeap(this.b, v)
'''),('//pop\nfunc','''func (this *IntHeap) full() bool {
	return this.limitN > 0 && this.Size() >= this.limitN
}

func (this *IntHeap) makeRoom(v int) bool {
	top, ok := this.Top()
	if ok = ok && this.cmpV(v, top); ok {
		this.Pop()
	}
	return ok
}

//pop
func'''))
r('pushheap-inline',('	b = append(b, v)\n	this.adjustUp(b, len(b)-1, v)\n	return b\n','''	hole := len(b)
	b = append(b, v)
	for hole > 0 {
		p := this.parent(hole)
		if this.cmpV(v, b[p]) {
			break
		}
		b[hole] = b[p]
		hole = p
	}
	b[hole] = v
	return b
'''))
r('top-early',('''	if ok = !this.Empty(); ok {
		top = this.b[0]
	}
	return
''','''	if len(this.b) == 0 {
		return 0, false
	}
	return this.b[0], true
'''))
r('cmpv',('	ok = !this.cmp.F(p, c)\n	return\n','	return !this.cmp.F(p, c)\n'))
r('reverse-two',('''	l := len(b) - 1
	for i := l / 2; i >= 0 && l > 0; i-- {
		b[i], b[l-i] = b[l-i], b[i]
	}
''','''	for i, j := 0, len(b)-1; i < j; i, j = i+1, j-1 {
		b[i], b[j] = b[j], b[i]
	}
'''))
r('reverse-half',('''	l := len(b) - 1
	for i := l / 2; i >= 0 && l > 0; i-- {
		b[i], b[l-i] = b[l-i], b[i]
	}
''','''	n := len(b)
	for i := 0; i < n/2; i++ {
		b[i], b[n-1-i] = b[n-1-i], b[i]
	}
'''))
r('parent-shift',('	return (idx - 1) / 2\n','	return (idx+1)/2 - 1\n'))
r('child-shift',('	return 2*idx + 1\n','	return idx<<1 + 1\n'))
r('pop-method',('	this.b, top, ok = this.PopHeap(this.b)\n	return\n','''	h, top, ok := this.PopHeap(this.b)
	this.b = h
	return top, ok
'''))
b('down-size',('r < size &&','r < size-1 &&'))
b('down-wrongchild',('r < size && !this.cmpV(b[r], b[l])','r < size && this.cmpV(b[r], b[l])'))
b('down-noright',('''		if r := l + 1; r < size && !this.cmpV(b[r], b[l]) { //let the most proper child to compare with v
			c = r
		}
''',''))
b('down-forget',('b[hole], hole = b[c], c','hole = c'))
b('up-root',('	for hole > 0 {\n','	for hole > 1 {\n'))
b('up-parent',('	return (idx - 1) / 2\n','	return idx / 2\n'))
b('pop-size',('this.adjustDown(b[:l-1], 0, b[0])','this.adjustDown(b, 0, b[0])'))
b('pop-two',('		if l > 1 {\n','		if l > 2 {\n'))
b('make-short',('i := l / 2; i >= 0; i--','i := l / 2; i > 0; i--'))
b('make-low',('i := l / 2; i >= 0; i--','i := l/2 - 2; i >= 0; i--'))
b('check-one',('	for i := len(b) - 1; i > 0; i--','	for i := len(b) - 1; i > 1; i--'))
b('check-last',('	for i := len(b) - 1; i > 0; i--','	for i := len(b) - 2; i > 0; i--'))
b('check-strict',('		if !this.cmpV(b[i], b[p]) {\n			return false','		if !this.cmpV(b[i], b[p]) || i > 6 && b[i] == b[p] {\n			return false'))
b('push-limit',('this.Size() >= this.limitN','this.Size() > this.limitN'))
b('push-order',('ok && this.cmpV(v, top)','ok && !this.cmpV(v, top)'))
b('cmp-strict',('	ok = !this.cmp.F(p, c)\n','	ok = this.cmp.F(c, p)\n'))
b('init-keeps',('	this.b = this.b[:0]\n',''))
b('init-dir',('CreateByBool(!maxTop)','CreateByBool(maxTop)'))
b('reverse-odd',('i := l / 2; i >= 0 && l > 0','i := l/2 - 1; i >= 0 && l > 0'))
b('reverse-twice',('i := l / 2; i >= 0 && l > 0','i := l/2 + 1; i >= 0 && l > 1'))
