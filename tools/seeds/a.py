seed('b02-queue-back','C02',[('stl/queue.gp_int.go','''		if t < 0 {
			t = this.Cap() - 1
		}
		back''','''		if t < 0 {
			t = this.Size() - 1
		}
		back''')],r'''
package main
import ("fmt";"os";"github.com/vipally/gx/stl")
func main(){
	for rot:=0;rot<20;rot++{
		d:=stl.NewGOGPQueueNamePrefixQueue(8)
		for i:=0;i<rot;i++{ d.Push(0); d.Pop() }
		for i:=1;i<6;i++{ d.Push(i); if v,ok:=d.Back(); !ok||v!=i { fmt.Println("back",v,i); os.Exit(1) } }
	}
}
''','the last pushed element sits in the last buffer slot and the queue is not as long as the buffer','Back returns a stale slot')
seed('b03-list-remove','C05',[('stl/list.gp_int.go','''		if node.next == node {
			this.head = nil
		} else if node == this.head {
			this.head = node.next
		}
		node.next.prev = node.prev''','''		if node.next == node {
			this.head = nil
		} else if node == this.head {
			this.head = node.prev
		}
		node.next.prev = node.prev''')],r'''
package main
import ("fmt";"os";"github.com/vipally/gx/stl")
func main(){
	l:=stl.NewIntList()
	for i:=0;i<4;i++{ l.PushBack(i) }
	for i:=0;i<4;i++{ v,ok:=l.PopFront(); if !ok||v!=i { fmt.Println("got",v,"want",i); os.Exit(1) } }
}
''','the removed node is the head of a list with at least three nodes','the list is rotated by the removal, the order changes')
seed('b04-list-splice','C05',[('stl/list.gp_int.go','''			oback.next = this.head
			other.head.prev = myback
			this.head.prev = oback''','''			oback.next = this.head
			this.head.prev = oback
			oback.prev = myback''')],r'''
package main
import ("fmt";"os";"github.com/vipally/gx/stl")
func main(){
	for n:=1;n<4;n++{
	a,b:=stl.NewIntList(),stl.NewIntList()
	for i:=0;i<3;i++{ a.PushBack(i) }
	for i:=3;i<3+n;i++{ b.PushBack(i) }
	a.InsertBackList(b)
	w:=2+n
	for v:=a.Visitor(); v.Prev(); w-- { if v.Get().Get()!=w { fmt.Println("backward",n,v.Get().Get(),w); os.Exit(1) } }
	if w!= -1 { fmt.Println("short"); os.Exit(1) }
	}
}
''','the spliced list has at least two nodes and is then walked backwards','backward links of the spliced part')
seed('b05-slist-moveafter','C06',[('stl/slist.gp_int.go','''				if b != mark {
					b.next = node.next
					node.next = mark.next
					mark.next = node''','''				if b != mark {
					b.next, node.next = node.next, mark.next
					mark.next = b.next''')],r'''
package main
import ("fmt";"os";"github.com/vipally/gx/stl")
func main(){
	l:=stl.NewIntSList()
	var n [5]*stl.IntSListNode
	for i:=4;i>=0;i--{ n[i]=l.PushFront(i) }
	l.MoveAfter(n[1],n[3])
	w:=[]int{0,2,3,1,4}; i:=0
	for p:=l.Front();p!=nil&&i<9;p=p.Next(){ if i>=5||p.Get()!=w[i] { fmt.Println("order"); os.Exit(1) }; i++ }
	if i!=5 { fmt.Println("length",i); os.Exit(1) }
}
''','MoveAfter with a mark that is not the node before','the moved node is lost or a cycle appears')
seed('b06-sortslice-remove','C04',[('stl/sort_slice.gp_int.go','''		right := this.d[idx+1:]
		this.d = append(this.d[:idx], right...)''','''		l := this.Len() - 1
		this.d[idx] = this.d[l]
		this.d = this.d[:l]''')],r'''
package main
import ("fmt";"os";"github.com/vipally/gx/stl")
func main(){
	var s stl.IntSortSlice
	for i:=0;i<5;i++{ s.Push(i) }
	s.Remove(1)
	w:=[]int{0,2,3,4}
	for i,v:=range s.Buffer(){ if v!=w[i] { fmt.Println("order",s.Buffer()); os.Exit(1) } }
}
''','a removed position that is neither the last nor the one before it','the elements after the removed one change order')
seed('b07-range-mul','C10',[('math/range_uint32.go','math.MaxUint32/other < me.val','math.MaxUint32/other+1 < me.val')],r'''
package main
import ("fmt";"os";"math"; m "github.com/vipally/gx/math")
func main(){
	r,_:=m.NewRangeUint32(math.MaxUint32/3+1,0,math.MaxUint32)
	if v,err:=r.Mul(3); err==nil { fmt.Println("wrapped",v); os.Exit(1) }
}
''','a product just above 2^32 (the value is one more than the largest allowed factor)','Mul returns a wrapped product without an error')
seed('b08-cmp-tree','C08',[('stl/functorcmp.gp_#inttreenodeb60b.go','''	ok = right.Less(left)
''','''	ok = left != right && !left.Less(right)
''')],r'''
package main
import ("fmt";"os";"github.com/vipally/gx/stl")
func main(){
	a,b:=&stl.IntTreeNode{},&stl.IntTreeNode{}
	if stl.CreateCmpIntTreeNode("Greater").F(a,b) { fmt.Println("greater than an equal one"); os.Exit(1) }
}
''','two different nodes with equal values','the comparator is not strict')
