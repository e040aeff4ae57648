T='stl/tree.gp_int.go'
C=['C09']
def r(name,*ch): ref(name,C,[(T,)+c for c in ch])
def b(name,*ch): bad(name,C,[(T,)+c for c in ch])
ALL='''	list = append(list, this.val)
	for _, v := range this.children.Buffer() {
		list = append(list, v.All()...)
	}
	return
'''
NEXT0='''	if this.node != nil { //check if has any children
		if this.node.children.Len() > 0 {
			this.push(this.node, 0)
			this.node = this.node.children.MustGet(0)
		} else {
			this.node = nil
		}
	}
'''
LOOP='''	for this.node == nil && this.depth() > 0 { //check if has any brothers or uncles
		p, bIdx := this.tail()
		if bIdx < 0 { //ref parent
			this.node = p
			this.pop()
		} else if bIdx < p.children.Len()-1 { //next brother
			bIdx++
			this.node = p.children.MustGet(bIdx)
			this.update_tail(bIdx)
		} else { //no more brothers
			this.pop()
		}
	}
	if ok = this.node != nil; ok {
		//do nothing
	}
	return
}

//visit previous'''
TR='''	if n != nil {
		l := n.children.Len()
		for l > 0 {
			this.push(n, l-1)
			n = n.children.MustGet(l - 1)
			l = n.children.Len()
		}
		p = n
	}
	return
'''
PREV='''	if this.node != nil { //check if has any children
		p, bIdx := this.tail()
		if bIdx > 0 {
			bIdx--
			this.update_tail(bIdx)
			this.node = this.top_right(p.children.MustGet(bIdx))
		} else {
			this.node = p
			this.pop()
		}
	}
'''
GET='''	if nil != this.node {
		data = this.node.val
	}
	return
}
'''
ADD='''	this.children.Insert(node, idx)
	return node
'''
r('all-index',(ALL,'''	list = []int{this.val}
	for i := 0; i < this.NumChildren(); i++ {
		c, _ := this.GetChild(i)
		list = append(list, c.All()...)
	}
	return list
'''))
r('all-helper',(ALL,'''	return this.collect(nil)
}

func (this *IntTreeNode) collect(list []int) []int {
	list = append(list, this.val)
	for _, c := range this.Children() {
		list = c.collect(list)
	}
	return list
'''))
r('all-ptr',(ALL,'''	collectTree(this, &list)
	return
}

func collectTree(n *IntTreeNode, out *[]int) {
	*out = append(*out, n.val)
	for _, c := range n.children.Buffer() {
		collectTree(c, out)
	}
'''))
r('all-cap',(ALL,'''	kids := this.children.Buffer()
	list = make([]int, 1, 1+len(kids))
	list[0] = this.val
	for i := range kids {
		sub := kids[i].All()
		list = append(list, sub...)
	}
	return
'''))
b('all-post',(ALL,'''	for _, v := range this.children.Buffer() {
		list = append(list, v.All()...)
	}
	list = append(list, this.val)
	return
'''))
b('all-skip',(ALL,'''	list = append(list, this.val)
	for i := 1; i < this.children.Len(); i++ {
		list = append(list, this.children.MustGet(i).All()...)
	}
	return
'''))
b('all-shallow',(ALL,'''	list = append(list, this.val)
	for _, v := range this.children.Buffer() {
		list = append(list, v.val)
	}
	return
'''))
b('all-helper-drop',(ALL,'''	return this.collect(nil)
}

func (this *IntTreeNode) collect(list []int) []int {
	list = append(list, this.val)
	for _, c := range this.Children() {
		c.collect(list)
	}
	return list
'''))
b('all-nested',(ALL,'''	list = append(list, this.val)
	for _, v := range this.children.Buffer() {
		if v.NumChildren() == 0 {
			continue
		}
		list = append(list, v.All()...)
	}
	return
'''))
r('next-early',(NEXT0+LOOP,'''	if n := this.node; n != nil {
		if kids := n.Children(); len(kids) > 0 {
			this.push(n, 0)
			this.node = kids[0]
			return true
		}
		this.node = nil
	}
	for this.node == nil && this.depth() > 0 {
		p, i := this.tail()
		switch {
		case i < 0:
			this.pop()
			this.node = p
		case i+1 < p.NumChildren():
			this.update_tail(i + 1)
			this.node, _ = p.GetChild(i + 1)
		default:
			this.pop()
		}
	}
	return this.node != nil
}

//visit previous'''))
r('next-loop-return',(LOOP,'''	if this.node != nil {
		return true
	}
	for len(this.parents) > 0 {
		p, bIdx := this.tail()
		if bIdx < 0 {
			this.pop()
			this.node = p
			return true
		}
		bIdx++
		if bIdx >= p.children.Len() {
			this.pop()
			continue
		}
		this.update_tail(bIdx)
		this.node = p.children.MustGet(bIdx)
		return true
	}
	return false
}

//visit previous'''))
r('next-helper',(LOOP,'''	for this.node == nil && this.depth() > 0 {
		this.climb()
	}
	return this.node != nil
}

func (this *IntTreeNodeVisitor) climb() {
	p, bIdx := this.tail()
	if bIdx < 0 {
		this.node = p
		this.pop()
		return
	}
	if last := p.children.Len() - 1; bIdx == last {
		this.pop()
		return
	}
	this.node = p.children.MustGet(bIdx + 1)
	this.update_tail(bIdx + 1)
}

//visit previous'''))
r('next-direct',(LOOP,'''	for this.node == nil && len(this.parents) != 0 {
		top := len(this.parents) - 1
		p := this.parents[top]
		i := &this.brotherIdxes[top]
		if *i < 0 {
			this.node = p
			this.parents = this.parents[:top]
			this.brotherIdxes = this.brotherIdxes[:top]
		} else if *i < p.children.Len()-1 {
			*i++
			this.node = p.children.MustGet(*i)
		} else {
			this.parents = this.parents[:top]
			this.brotherIdxes = this.brotherIdxes[:top]
		}
	}
	return this.node != nil
}

//visit previous'''))
b('next-norun',(LOOP,LOOP.replace('this.update_tail(bIdx)\n','')))
b('next-skip',(LOOP,LOOP.replace('p.children.Len()-1','p.children.Len()-2')))
b('next-over',(LOOP,LOOP.replace('p.children.Len()-1','p.children.Len()')))
b('next-once',(LOOP,LOOP.replace('for this.node == nil && this.depth() > 0','if this.node == nil && this.depth() > 0')))
b('next-nopop',(LOOP,LOOP.replace('''			this.node = p
			this.pop()
''','''			this.node = p
			this.update_tail(0)
''')))
b('next-second',(NEXT0,NEXT0.replace('this.push(this.node, 0)','this.push(this.node, 1)')))
b('next-depth',(LOOP,LOOP.replace('this.depth() > 0','this.depth() > 1')))
b('next-single-child',(NEXT0,NEXT0.replace('children.Len() > 0','children.Len() > 1')))
r('tr-loop',(TR,'''	for p = n; p != nil && p.NumChildren() > 0; {
		last := p.NumChildren() - 1
		this.push(p, last)
		p = p.children.MustGet(last)
	}
	return
'''))
r('tr-brk',(TR,'''	if n == nil {
		return nil
	}
	for {
		kids := n.Children()
		if len(kids) == 0 {
			return n
		}
		this.push(n, len(kids)-1)
		n = kids[len(kids)-1]
	}
'''))
b('tr-first',(TR,TR.replace('this.push(n, l-1)','this.push(n, 0)')))
b('tr-one',(TR,TR.replace('for l > 0','if l > 0')))
b('tr-stale',(TR,TR.replace('			l = n.children.Len()\n','			if l > n.children.Len() {\n				l = n.children.Len()\n			}\n')))
r('prev-switch',(PREV,'''	if this.node != nil {
		p, bIdx := this.tail()
		if bIdx <= 0 {
			this.pop()
			this.node = p
		} else {
			this.update_tail(bIdx - 1)
			this.node = this.top_right(p.children.MustGet(bIdx - 1))
		}
	}
'''))
b('prev-first',(PREV,PREV.replace('if bIdx > 0','if bIdx > 1')))
b('prev-noupd',(PREV,PREV.replace('			this.update_tail(bIdx)\n','')))
b('prev-shallow',(PREV,PREV.replace('this.top_right(p.children.MustGet(bIdx))','p.children.MustGet(bIdx)')))
b('prev-nopop',(PREV,PREV.replace('			this.pop()\n','')))
r('get-early',(GET,'''	if this.node == nil {
		return 0
	}
	return this.node.val
}
'''))
b('get-minus',(GET,GET.replace('this.node.val','-1')))
b('add-append',(ADD,'''	if idx == 0 {
		idx = -1
	}
	this.children.Insert(node, idx)
	return node
'''))
b('add-share',('	n := &IntTreeNode{val: v}\n','	n := &IntTreeNode{val: v, children: this.children}\n'))
b('visitor-0',('	v.push(this, -1)\n','	v.push(this, 0)\n'))
b('pop-idx',('		this.brotherIdxes = this.brotherIdxes[:l-1]\n','		this.brotherIdxes = this.brotherIdxes[:len(this.brotherIdxes)]\n'))
r('pop-early',('''	l := len(this.parents)
	if l > 0 {
		n, bIdx = this.tail()
		this.parents = this.parents[:l-1]
		this.brotherIdxes = this.brotherIdxes[:l-1]
	}
	return
''','''	last := this.depth() - 1
	if last < 0 {
		return nil, 0
	}
	n, bIdx = this.parents[last], this.brotherIdxes[last]
	this.parents[last] = nil
	this.parents, this.brotherIdxes = this.parents[:last], this.brotherIdxes[:last]
	return n, bIdx
'''))
r('visitor-lit',('''	v = &IntTreeNodeVisitor{}
	v.push(this, -1)
	return
''','''	return &IntTreeNodeVisitor{parents: []*IntTreeNode{this}, brotherIdxes: []int{-1}}
'''))
r('add-child-one',('''	n := &IntTreeNode{val: v}
	return this.AddChildNode(n, idx)
''','''	child = new(IntTreeNode)
	child.val = v
	this.children.Insert(child, idx)
	return
'''))
r('all-closure',(ALL,'''	var walk func(n *IntTreeNode)
	walk = func(n *IntTreeNode) {
		list = append(list, n.val)
		for _, c := range n.Children() {
			walk(c)
		}
	}
	walk(this)
	return list
'''))
b('all-closure-skip',(ALL,'''	var walk func(n *IntTreeNode)
	walk = func(n *IntTreeNode) {
		for _, c := range n.Children() {
			if len(c.Children()) > 3 {
				list = append(list, c.val)
			} else {
				walk(c)
			}
		}
		list = append(list, n.val)
	}
	walk(this)
	return list
'''))
