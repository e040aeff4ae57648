Q='stl/queue.gp_int.go'; D='stl/deque.gp_int.go'; L='stl/list.gp_int.go'; SL='stl/slist.gp_int.go'; T='stl/tree.gp_int.go'; SS='stl/sort_slice.gp_int.go'; ST='stl/stack.gp_int.go'
GROW='''			oldCap := this.Cap()
			d := this.d
			this.newBuf(oldCap * 2)
			h := copy(this.d, d[this.head:])
			t := copy(this.d[h:], d[:this.tail])
			this.head, this.tail = 0, h+t
'''
SHR='''		d := this.d
		this.newBuf(oldCap / 2)
		if this.tail >= this.head {
			copy(this.d, d[this.head:this.tail])
			this.tail -= this.head
			this.head = 0
		} else {
			h := copy(this.d, d[this.head:])
			t := copy(this.d[h:], d[:this.tail])
			this.head, this.tail = 0, h+t
		}
'''
# queue
ref('q-relocate',['C02'],[(Q,GROW,'			this.relocate(2 * this.Cap())\n'),(Q,SHR,'		this.relocate(oldCap / 2)\n'),(Q,'','''
//move the elements to a new buffer
func (this *IntQueue) relocate(bufSize int) {
	old, head, tail := this.d, this.head, this.tail
	full := head == tail
	this.newBuf(bufSize)
	n := 0
	if head < tail {
		n = copy(this.d, old[head:tail])
	} else if head > tail || full && bufSize > len(old) {
		n = copy(this.d, old[head:])
		n += copy(this.d[n:], old[:tail])
	}
	this.head, this.tail = 0, n
}
''')])
ref('q-append',['C02'],[(Q,GROW,'''			d := append(append(make([]int, 0, 2*this.Cap()), this.d[this.head:]...), this.d[:this.tail]...)
			this.head, this.tail = 0, len(d)
			this.d = d[:cap(d)]
''')])
ref('q-append-t',['C02'],[(Q,GROW,'''			rest := this.Cap() - this.head
			d := make([]int, this.Cap()<<1)
			copy(d[:rest], this.d[this.head:])
			copy(d[rest:], this.d[:this.tail])
			this.head, this.tail, this.d = 0, rest+this.tail, d
''')])
ref('q-loopcopy',['C02'],[(Q,SHR,'''		d := make([]int, oldCap/2)
		for i := 0; i < oldSize; i++ {
			d[i] = this.d[(this.head+i)%oldCap]
		}
		this.d, this.head, this.tail = d, 0, oldSize
''')])
ref('q-size-mod',['C02'],[(Q,'''	if this.tail >= this.head {
		size = this.tail - this.head
	} else {
		size = this.Cap() - this.head + this.tail
	}
	return
''','''	if size = this.tail - this.head; size < 0 {
		size += len(this.d)
	}
	return
''')])
ref('q-front-early',['C02'],[(Q,'''	if ok = this.head != this.tail; ok {
		front = this.d[this.head]
	}
	return
''','''	if this.head == this.tail {
		return 0, false
	}
	return this.d[this.head], true
''')])
# deque
ref('d-grow-helper',['C01'],[(D,'''		this.d[this.head] = v
		if this.head == this.tail { //head reaches tail, buffer full
'''+GROW+'		}\n','''		this.d[this.head] = v
		this.growIfFull()
'''),(D,'''		this.tail = this.next(this.tail)
		if this.tail == this.head { //tail catches up head, buffer full
'''+GROW+'		}\n','''		this.tail = this.next(this.tail)
		this.growIfFull()
'''),(D,'','''
func (this *IntDeque) growIfFull() {
	if this.tail != this.head {
		return
	}
	old := this.d
	this.newBuf(2 * len(old))
	n := copy(this.d, old[this.head:])
	n += copy(this.d[n:], old[:this.tail])
	this.head, this.tail = 0, n
}
''')])
ref('d-mod',['C01'],[(D,'''	if r = idx + 1; r >= this.Cap() {
		r = 0
	}
	return
''','	return (idx + 1) % len(this.d)\n'),(D,'''	if r = idx - 1; r < 0 {
		r = this.Cap() - 1
	}
	return
''','	return (idx + len(this.d) - 1) % len(this.d)\n')])
ref('d-shrink-neg',['C01'],[(D,'''	if ok = oldCap > 8 && oldCap >= 3*oldSize; ok { //leave at least 8 elem space
'''+SHR+'''	}
	return
''','''	if oldCap <= 8 || oldCap < 3*oldSize {
		return false
	}
	old := this.d
	this.newBuf(oldCap / 2)
	if this.tail < this.head {
		n := copy(this.d, old[this.head:])
		n += copy(this.d[n:], old[:this.tail])
		this.tail = n
	} else {
		this.tail = copy(this.d, old[this.head:this.tail])
	}
	this.head = 0
	return true
''')])
ref('d-back',['C01'],[(D,'''		t := this.prev(this.tail)
		back = this.d[t]
''','		back = this.d[this.prev(this.tail)]\n'),(D,'''		this.tail = this.prev(this.tail)
		back = this.d[this.tail]
''','''		t := this.prev(this.tail)
		back, this.tail = this.d[t], t
''')])
# list
ref('l-link',['C05'],[(L,'''			n.next = this.head
			n.prev = this.head.prev
			this.head.prev.next = n
			this.head.prev = n
''','''			link(this.head.prev, n)
			link(n, this.head)
'''),(L,'''			myback.next = other.head
			oback.next = this.head
			other.head.prev = myback
			this.head.prev = oback
''','''			link(myback, other.head)
			link(oback, this.head)
'''),(L,'','\nfunc link(a, b *IntListNode) {\n	a.next, b.prev = b, a\n}\n')])
ref('l-insert-shared',['C05'],[(L,'''		n.next = mark
		n.prev = mark.prev
		mark.prev.next = n
		mark.prev = n
		if this.head == mark {
			this.RotateBackward()
		}
''','''		n.insertBetween(mark.prev, mark)
		if this.head == mark {
			this.head = n
		}
'''),(L,'''		n.next = mark.next
		n.prev = mark
		mark.next.prev = n
		mark.next = n
	}
	return
}

func (this *IntList) RemoveFront''','''		n.insertBetween(mark, mark.next)
	}
	return
}

func (n *IntListNode) insertBetween(a, b *IntListNode) {
	n.prev, n.next = a, b
	a.next, b.prev = n, n
}

func (this *IntList) RemoveFront''')])
ref('l-remove-early',['C05'],[(L,'''	if node != nil && node.next != nil && node.prev != nil {
		n = node
		if node.next == node {
			this.head = nil
		} else if node == this.head {
			this.head = node.next
		}
		node.next.prev = node.prev
		node.prev.next = node.next
		node.next, node.prev = nil, nil
	}
	return
''','''	if node == nil || node.next == nil || node.prev == nil {
		return nil
	}
	prev, next := node.prev, node.next
	switch {
	case next == node:
		this.head = nil
	case this.head == node:
		this.head = next
	}
	prev.next, next.prev = next, prev
	node.prev, node.next = nil, nil
	return node
''')])
ref('l-reverse-swap',['C05'],[(L,'''	old := *this
	this.Clear()
	for n := old.RemoveFront(); n != nil; n = old.RemoveFront() {
		this.InsertFront(n)
	}
''','''	if this.head == nil {
		return
	}
	for p := this.head; ; {
		next := p.next
		p.next, p.prev = p.prev, p.next
		if next == this.head {
			break
		}
		p = next
	}
	this.head = this.head.next
''')])
ref('l-reverse-loop',['C05'],[(L,'''	old := *this
	this.Clear()
	for n := old.RemoveFront(); n != nil; n = old.RemoveFront() {
		this.InsertFront(n)
	}
''','''	var r IntList
	for !this.Empty() {
		r.InsertFront(this.RemoveFront())
	}
	*this = r
''')])
ref('l-reach',['C05'],[(L,'''	if ok = (node == dest) && node != nil; !ok && node != nil && dest != nil {
		for p := node.next; p != nil && p != node; p = p.next {
			if ok = (p == dest); ok {
				break
			}
		}
	}
	return
''','''	if node == nil || dest == nil {
		return false
	}
	if node == dest {
		return true
	}
	for p := node.next; p != nil && p != node; p = p.next {
		if p == dest {
			return true
		}
	}
	return false
''')])
ref('l-moveafter',['C05'],[(L,'''		if r = this.Remove(node); r != nil {
			node.next = mark.next
			node.prev = mark
			mark.next.prev = node
			mark.next = node
		}
''','''		if r = this.Remove(node); r != nil {
			this.InsertAfter(r, mark)
		}
''')])
ref('l-visit',['C05'],[(L,'''	if this.node == nil {
		if ok = this.head != nil; ok {
			this.node = this.head
		}
	} else {
		this.node = this.node.next
		ok = this.node != this.head
	}
	return
''','''	if this.node != nil {
		this.node = this.node.next
		return this.node != this.head
	}
	this.node = this.head
	return this.node != nil
''')])
# slist
ref('s-remove-find',['C06'],[(SL,'''	if node != nil {
		for b := &this.head; b.next != nil; b = b.next {
			if b.next == node {
				b.next = node.next
				node.next = nil
				r = node
				break
			}
		}
	}
	return
''','''	if b := this.before(node); b != nil {
		b.next, node.next = node.next, nil
		r = node
	}
	return
'''),(SL,'','''
//node before the given one
func (this *IntSList) before(node *IntSListNode) *IntSListNode {
	if node == nil {
		return nil
	}
	for b := &this.head; b.next != nil; b = b.next {
		if b.next == node {
			return b
		}
	}
	return nil
}
''')])
ref('s-removefront',['C06'],[(SL,'''	n = this.Remove(this.head.next)
	return
''','''	if n = this.head.next; n != nil {
		this.head.next = n.next
		n.next = nil
	}
	return
''')])
ref('s-reverse3',['C06'],[(SL,'''	p := this.head.next
	this.Clear()

	for p != nil {
		q := p.next
		this.InsertFront(p)
		p = q
	}
''','''	var prev *IntSListNode
	for cur := this.head.next; cur != nil; {
		next := cur.next
		cur.next = prev
		prev, cur = cur, next
	}
	this.head.next = prev
''')])
ref('s-reverse-tuple',['C06'],[(SL,'''	p := this.head.next
	this.Clear()

	for p != nil {
		q := p.next
		this.InsertFront(p)
		p = q
	}
''','''	var done *IntSListNode
	for todo := this.head.next; todo != nil; {
		todo, todo.next, done = todo.next, done, todo
	}
	this.head.next = done
''')])
ref('s-tail',['C06'],[(SL,'''	if this != nil {
		for r, size = this, 1; r != nil && r.next != nil; r, size = r.next, size+1 { //do nothing body
		}
	}
	return
''','''	if this == nil {
		return nil, 0
	}
	r = this
	size = 1
	for r.next != nil {
		r = r.next
		size++
	}
	return r, size
''')])
ref('s-tail2',['C06'],[(SL,'''	if this != nil {
		for r, size = this, 1; r != nil && r.next != nil; r, size = r.next, size+1 { //do nothing body
		}
	}
	return
''','''	for p := this; p != nil; p = p.next {
		r = p
		size++
	}
	return
''')])
ref('s-len',['C06'],[(SL,'''	for v := this.Visitor(); v.Next(); n++ {
	}
	return
''','''	for p := this.head.next; p != nil; p = p.next {
		n++
	}
	return n
'''),])
ref('s-len-tail',['C06'],[(SL,'''	for v := this.Visitor(); v.Next(); n++ {
	}
	return
''','''	_, n = this.head.next.Tail()
	return
'''),])
ref('s-cycle',['C06'],[(SL,'''	for slow, fast := head, head; fast != nil && fast.next != nil; {
		fast, slow = fast.next.next, slow.next
		if ok = fast == slow; ok {
			break
		}
	}
	return
''','''	slow, fast := head, head
	for fast != nil && fast.next != nil {
		slow = slow.next
		fast = fast.next.next
		if slow == fast {
			return true
		}
	}
	return false
''')])
ref('s-moveafter',['C06'],[(SL,'''	if node != nil && mark != nil && node != mark {
		for b := &this.head; b != nil; b = b.next { //bug:tail?
			if b.next == node {
				if b != mark {
					b.next = node.next
					node.next = mark.next
					mark.next = node
					r = node

				}
				break
			}
		}
	}
	return
''','''	if node == nil || mark == nil || node == mark {
		return nil
	}
	b := &this.head
	for b != nil && b.next != node {
		b = b.next
	}
	if b == nil || b == mark {
		return nil
	}
	b.next = node.next
	node.next, mark.next = mark.next, node
	return node
''')])
ref('s-pushfront',['C06'],[(SL,'''	n := &IntSListNode{val: v, next: this.head.next}
	this.head.next = n

	return n
''','	return this.InsertFront(&IntSListNode{val: v})\n')])
ref('s-pfl',['C06'],[(SL,'''	var t *IntSListNode

	t, _ = other.head.next.Tail()

	if t != nil {
		t.next = this.head.next
		this.head.next = other.head.next

		other.Clear()
	}
''','''	if other.Empty() {
		return
	}
	last := other.head.next
	for last.next != nil {
		last = last.next
	}
	first := other.Front()
	other.Clear()
	last.next, this.head.next = this.head.next, first
''')])
# tree
ref('t-all-rec',['C09'],[(T,'''	list = append(list, this.val)
	for _, v := range this.children.Buffer() {
		list = append(list, v.All()...)
	}
	return
''','''	return this.appendAll(nil)
}

func (this *IntTreeNode) appendAll(list []int) []int {
	list = append(list, this.val)
	for _, c := range this.children.d {
		list = c.appendAll(list)
	}
	return list
''')])
ref('t-all-idx',['C09'],[(T,'''	for _, v := range this.children.Buffer() {
		list = append(list, v.All()...)
	}
	return
''','''	for i, n := 0, this.NumChildren(); i < n; i++ {
		c, _ := this.GetChild(i)
		list = append(list, c.All()...)
	}
	return list
''')])
ref('t-topright',['C09'],[(T,'''	if n != nil {
		l := n.children.Len()
		for l > 0 {
			this.push(n, l-1)
			n = n.children.MustGet(l - 1)
			l = n.children.Len()
		}
		p = n
	}
	return
''','''	if n == nil {
		return nil
	}
	for last := n.NumChildren() - 1; last >= 0; last = n.NumChildren() - 1 {
		this.push(n, last)
		n = n.children.MustGet(last)
	}
	return n
''')])
ref('t-next-switch',['C09'],[(T,'''		p, bIdx := this.tail()
		if bIdx < 0 { //ref parent
			this.node = p
			this.pop()
		} else if bIdx < p.children.Len()-1 { //next brother
			bIdx++
			this.node = p.children.MustGet(bIdx)
			this.update_tail(bIdx)
		} else { //no more brothers
			this.pop()
		}
''','''		switch p, bIdx := this.tail(); {
		case bIdx < 0: //ref parent
			this.node, _ = this.pop()
		case bIdx+1 < p.NumChildren(): //next brother
			this.update_tail(bIdx + 1)
			this.node = p.children.MustGet(bIdx + 1)
		default: //no more brothers
			this.pop()
		}
''')])
ref('t-prev-else',['C09'],[(T,'''	if this.node == nil && this.depth() > 0 { //check if has any brothers or uncles
		p, _ := this.pop()
		this.node = this.top_right(p)
		if ok = this.node != nil; ok {
			//do nothing
		}
		return
	}

	if this.node != nil { //check if has any children
''','''	if this.node == nil {
		if this.depth() > 0 { //check if has any brothers or uncles
			p, _ := this.pop()
			this.node = this.top_right(p)
		}
	} else { //check if has any children
''')])
# sort slice
ref('ss-get',['C04','C26'],[(SS,'''	if ok = idx >= 0 && idx < this.Len(); ok {
		r = this.d[idx]
	}
	return
''','''	if uint(idx) < uint(len(this.d)) {
		return this.d[idx], true
	}
	return 0, false
''')])
ref('ss-mustget',['C04'],[(SS,'''	ok := false
	if r, ok = this.Get(idx); !ok {
		panic(idx)
	}
	return
''','''	v, ok := this.Get(idx)
	if !ok {
		panic(idx)
	}
	return v
''')])
ref('st-top',['C03'],[(ST,'''	d := this.Size()
	if d > 0 {
		top = this.d[d-1]
		ok = true
	}
	return
''','''	if this.Empty() {
		return
	}
	return this.d[len(this.d)-1], true
'''),(ST,'''	if top, ok = this.Top(); ok {
		this.d = this.d[:this.Size()-1]
	}
	return
''','''	n := len(this.d) - 1
	if n < 0 {
		return 0, false
	}
	top, this.d = this.d[n], this.d[:n]
	return top, true
''')])
