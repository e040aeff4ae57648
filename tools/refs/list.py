Q='stl/list.gp_int.go'
C=['C05']
def r(name,*ch): ref(name,C,[(Q,)+c for c in ch])
def b(name,*ch): bad(name,C,[(Q,)+c for c in ch])
IB='''			n.next = this.head
			n.prev = this.head.prev
			this.head.prev.next = n
			this.head.prev = n
'''
REM='''		n = node
		if node.next == node {
			this.head = nil
		} else if node == this.head {
			this.head = node.next
		}
		node.next.prev = node.prev
		node.prev.next = node.next
		node.next, node.prev = nil, nil
'''
REV='''	old := *this
	this.Clear()
	for n := old.RemoveFront(); n != nil; n = old.RemoveFront() {
		this.InsertFront(n)
	}
'''
SPL='''			myback, oback := this.Back(), other.Back()
			myback.next = other.head
			oback.next = this.head
			other.head.prev = myback
			this.head.prev = oback
'''
MA='''			node.next = mark.next
			node.prev = mark
			mark.next.prev = node
			mark.next = node
'''
BEF='''		n.next = mark
		n.prev = mark.prev
		mark.prev.next = n
		mark.prev = n
		if this.head == mark {
			this.RotateBackward()
		}
'''
AFT='''		n.next = mark.next
		n.prev = mark
		mark.next.prev = n
		mark.next = n
'''
r('ib-tail',(IB,'''			tail := this.head.prev
			n.prev, n.next = tail, this.head
			tail.next, this.head.prev = n, n
'''))
r('ib-link',(IB,'			link(this.head.prev, n, this.head)\n'),(BEF,'''		first := this.head == mark
		link(mark.prev, n, mark)
		if first {
			this.head = n
		}
'''),(AFT,'		link(mark, n, mark.next)\n'),('','''
func link(a, n, b *IntListNode) {
	a.next, n.prev = n, a
	b.prev, n.next = n, b
}
'''))
r('rem-local',(REM,'''		n = node
		p, q := node.prev, node.next
		p.next, q.prev = q, p
		if this.head == node {
			if this.head = q; q == node {
				this.head = nil
			}
		} else if q == node {
			this.head = nil
		}
		node.next = nil
		node.prev = nil
'''))
r('rem-single',(REM,'''		if node.next != node {
			node.next.prev = node.prev
			node.prev.next = node.next
			if node == this.head {
				this.head = node.next
			}
		} else {
			this.head = nil
		}
		node.prev = nil
		node.next = nil
		n = node
'''))
r('rev-swap',(REV,'''	if this.head == nil {
		return
	}
	n := this.head
	for {
		next := n.next
		n.next, n.prev = n.prev, n.next
		if n = next; n == this.head {
			break
		}
	}
	this.head = this.head.next
'''))
r('rev-back',(REV,'''	var t IntList
	for !this.Empty() {
		t.InsertBack(this.RemoveBack())
	}
	this.head = t.head
'''))
r('rev-while',(REV,'''	old := IntList{head: this.head}
	this.head = nil
	for !old.Empty() {
		n := old.RemoveFront()
		this.InsertFront(n)
	}
'''))
r('spl-order',(SPL,'''			h, oh := this.head, other.head
			t, ot := h.prev, oh.prev
			t.next, oh.prev = oh, t
			ot.next, h.prev = h, ot
'''))
r('spl-each',(SPL,'''			for n := other.RemoveFront(); n != nil; n = other.RemoveFront() {
				this.InsertBack(n)
			}
'''))
r('ma-call',(MA,'			this.InsertAfter(node, mark)\n'))
r('front-direct',('''	if n = this.InsertBack(node); n != nil {
		this.RotateBackward()
	}
	return
''','''	if node == nil {
		return nil
	}
	this.InsertBack(node)
	this.head = node
	return node
'''))
r('pop-direct',('''	if n := this.Remove(this.Back()); n != nil {
		v, ok = n.Get(), true
	}
	return
''','''	n := this.RemoveBack()
	if ok = n != nil; ok {
		v = n.val
	}
	return v, ok
'''))
r('before-ret',('''	if n = node; node != nil && mark != nil && node != mark {
'''+BEF+'''	}
	return
''','''	n = node
	if node == nil || mark == nil || node == mark {
		return
	}
	p := mark.prev
	n.prev, n.next = p, mark
	p.next = n
	mark.prev = n
	if mark == this.head {
		this.head = n
	}
	return
'''))
r('visit',('''	if this.node == nil {
		if ok = this.head != nil; ok {
			this.node = this.head
		}
	} else {
		this.node = this.node.next
		ok = this.node != this.head
	}
	return
''','''	if this.node == nil {
		this.node = this.head
		return this.node != nil
	}
	this.node = this.node.next
	return this.node != this.head
'''))
r('reach-loop',('''	if ok = (node == dest) && node != nil; !ok && node != nil && dest != nil {
		for p := node.next; p != nil && p != node; p = p.next {
			if ok = (p == dest); ok {
				break
			}
		}
	}
	return
''','''	if node == nil || dest == nil {
		return false
	}
	if node == dest {
		return true
	}
	p := node.next
	for p != nil && p != node {
		if p == dest {
			return true
		}
		p = p.next
	}
	return false
'''))
r('isvalid-visit',('	return this.Reachable(this.head, node)\n','''	if node == nil {
		return false
	}
	for v := this.Visitor(); v.Next(); {
		if v.Get() == node {
			return true
		}
	}
	return false
'''))
b('ib-prev',(IB,IB.replace('n.prev = this.head.prev','n.prev = this.head')))
b('ib-ord',(IB,'''			n.next = this.head
			this.head.prev = n
			n.prev = this.head.prev
			n.prev.next = n
'''))
b('rem-keep',(REM,REM.replace('node.next, node.prev = nil, nil','node.next = nil')))
b('rem-head',(REM,REM.replace('this.head = node.next','this.head = node.prev')))
b('spl-half',(SPL,SPL.replace('			this.head.prev = oback\n','			this.head.prev = oback.prev.next.prev.next\n			other.head.prev = this.head.next.prev\n')))
b('bef-head',(BEF,BEF.replace('this.head == mark','this.head == mark && n.prev != mark')))
b('mb-next',('(node.next != mark || mark == this.head)','node.next != mark'))
b('ma-next',('(mark.next != node || node == this.head)','mark.next != node'))
b('mback',('node.next != node { //bug','node.next != this.head { //bug'))
b('rev-half',(REV,REV.replace('this.InsertFront(n)','this.InsertFront(n)\n		if old.head != nil && old.head.next == old.head && this.head.next.next == this.head {\n			old.Clear()\n		}')))
b('aft-same',('''func (this *IntList) InsertAfter(node, mark *IntListNode) (n *IntListNode) {
	if n = node; node != nil && mark != nil && node != mark {''','''func (this *IntList) InsertAfter(node, mark *IntListNode) (n *IntListNode) {
	if n = node; node != nil && mark != nil && node != mark && mark.next != nil {
		if mark.next == this.head {
			this.head = n
		}'''))
