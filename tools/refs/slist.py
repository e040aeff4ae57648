Q='stl/slist.gp_int.go'
C=['C06']
def r(name,*ch): ref(name,C,[(Q,)+c for c in ch])
def b(name,*ch): bad(name,C,[(Q,)+c for c in ch])
REM='''		for b := &this.head; b.next != nil; b = b.next {
			if b.next == node {
				b.next = node.next
				node.next = nil
				r = node
				break
			}
		}
'''
MF='''		for b := this.head.next; b != nil; b = b.next {
			if b.next == node {
				b.next = node.next
				node.next = this.head.next
				this.head.next = node
				r = node

				break
			}
		}
'''
MA='''		for b := &this.head; b != nil; b = b.next { //bug:tail?
			if b.next == node {
				if b != mark {
					b.next = node.next
					node.next = mark.next
					mark.next = node
					r = node

				}
				break
			}
		}
'''
REV='''	p := this.head.next
	this.Clear()

	for p != nil {
		q := p.next
		this.InsertFront(p)
		p = q
	}
'''
TAIL='''		for r, size = this, 1; r != nil && r.next != nil; r, size = r.next, size+1 { //do nothing body
		}
'''
r('rem-while',(REM,'''		b := &this.head
		for b.next != nil && b.next != node {
			b = b.next
		}
		if b.next == node {
			b.next, node.next = node.next, nil
			r = node
		}
'''))
r('rem-pp',(REM,'''		for pp := &this.head.next; *pp != nil; pp = &(*pp).next {
			if *pp == node {
				*pp = node.next
				node.next = nil
				return node
			}
		}
'''))
r('rem-find',(REM,'''		if b := this.before(node); b != nil {
			b.next = node.next
			node.next = nil
			r = node
		}
'''),('','''
func (this *IntSList) before(node *IntSListNode) *IntSListNode {
	for b := &this.head; b.next != nil; b = b.next {
		if b.next == node {
			return b
		}
	}
	return nil
}
'''))
r('mf-remove',(MF,'''		if node != this.head.next {
			if r = this.Remove(node); r != nil {
				this.InsertFront(r)
			}
		}
'''))
r('ma-while',(MA,'''		b := &this.head
		for b != nil && b.next != node {
			b = b.next
		}
		if b != nil && b != mark {
			b.next = node.next
			node.next, mark.next = mark.next, node
			r = node
		}
'''))
r('rev-3',(REV,'''	var prev *IntSListNode
	for p := this.head.next; p != nil; {
		next := p.next
		p.next = prev
		prev, p = p, next
	}
	this.head.next = prev
'''))
r('rev-for',(REV,'''	for p, q := this.head.next, (*IntSListNode)(nil); ; p = q {
		if p == nil {
			break
		}
		if q == nil {
			this.Clear()
		}
		q = p.next
		this.InsertFront(p)
	}
'''))
r('tail-while',(TAIL,'''		r, size = this, 1
		for r.next != nil {
			r = r.next
			size++
		}
'''))
r('tail-rec',(TAIL,'''		size = 1
		for r = this; r.next != nil; size++ {
			r = r.next
		}
'''))
r('len-walk',('''	for v := this.Visitor(); v.Next(); n++ {
	}
	return
''','''	for p := this.head.next; p != nil; p = p.next {
		n++
	}
	return
'''))
r('len-tail',('''	for v := this.Visitor(); v.Next(); n++ {
	}
	return
''','''	_, n = this.head.next.Tail()
	return
'''))
r('pushfront-ins',('''	n := &IntSListNode{val: v, next: this.head.next}
	this.head.next = n

	return n
''','''	return this.InsertFront(&IntSListNode{val: v})
'''))
r('popfront-dir',('''	if n := this.Remove(this.Front()); n != nil {
		v, ok = n.Get(), true
	}
	return
''','''	n := this.head.next
	if n == nil {
		return
	}
	this.head.next = n.next
	n.next = nil
	return n.val, true
'''))
r('pfl',('''	var t *IntSListNode

	t, _ = other.head.next.Tail()

	if t != nil {
		t.next = this.head.next
		this.head.next = other.head.next

		other.Clear()
	}
''','''	if other.Empty() {
		return
	}
	t := other.head.next
	for t.next != nil {
		t = t.next
	}
	t.next, this.head.next, other.head.next = this.head.next, other.head.next, nil
'''))
r('pfl-loop',('''	var t *IntSListNode

	t, _ = other.head.next.Tail()

	if t != nil {
		t.next = this.head.next
		this.head.next = other.head.next

		other.Clear()
	}
''','''	mark := &this.head
	for n := other.RemoveFront(); n != nil; n = other.RemoveFront() {
		mark = this.InsertAfter(n, mark)
	}
'''))
r('cycle',('''	for slow, fast := head, head; fast != nil && fast.next != nil; {
		fast, slow = fast.next.next, slow.next
		if ok = fast == slow; ok {
			break
		}
	}
	return
''','''	slow, fast := head, head
	for fast != nil && fast.next != nil {
		slow = slow.next
		fast = fast.next.next
		if slow == fast {
			return true
		}
	}
	return false
'''))if False else None
b('rem-nil',(REM,REM.replace('node.next = nil\n','')))
b('rem-front',(REM,REM.replace('b := &this.head; b.next != nil','b := this.head.next; b != nil && b.next != nil')))
b('rem-last',(REM,REM.replace('b.next != nil;','b.next != nil && b.next.next != nil;')))
b('mf-last',(MF,MF.replace('b.next = node.next','b.next = node.next.Next()')))
b('rev-two',(REV,REV.replace('for p != nil {','for p != nil && (p.next == nil || p != p.next.next) {').replace('q := p.next\n','q := p.next\n		if q != nil && q.next == nil && this.head.next == nil {\n			this.InsertFront(p)\n			return\n		}\n')))
b('cycle',('fast != nil && fast.next != nil; {','fast != nil; {'),('		fast, slow = fast.next.next, slow.next','fast, slow = fast.next.Next(), slow.next'))
b('tail-size',('r, size = r.next, size+1 {','r = r.next {'))
b('pfl',('		this.head.next = other.head.next\n\n		other.Clear()\n','		this.head.next = other.head.next\n		if t == other.head.next {\n			other.Clear()\n		}\n'))
