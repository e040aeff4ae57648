H='package main\nimport ("fmt";"os";%s)\nfunc no(x ...interface{}){ fmt.Println(x...); os.Exit(1) }\nvar _ = fmt.Sprint\n'
def s(id,prop,edits,imports,body,needs,breaks): seed(id,prop,edits,H%imports+body,needs,breaks)
STL='"github.com/vipally/gx/stl"'
s('c01-deque-shrink-order','C01',[('stl/deque.gp_int.go','''			this.tail -= this.head
			this.head = 0
''','''			this.head = 0
			this.tail -= this.head
''')],STL,'''func main(){
	for rot:=0;rot<30;rot++{
		d:=stl.NewGOGPDequeNamePrefixDeque(30)
		for i:=0;i<rot;i++{ d.PushBack(0); d.PopFront() }
		for i:=0;i<4;i++{ d.PushBack(i+1) }
		d.Shrink()
		if d.Size()!=4 { no("size",d.Size()) }
		for i:=0;i<4;i++{ if v,ok:=d.PopFront(); !ok||v!=i+1 { no("lost",rot) } }
	}
}
''','a shrink of a deque whose elements do not start at the front of the buffer and do not wrap','Shrink keeps the old tail: zero elements appear behind the real ones')
s('c07-heap-last-right','C07',[('stl/heap.gp_int.go','if r := l + 1; r < size && !this.cmpV(b[r], b[l]) {','if r := l + 1; r < size-1 && !this.cmpV(b[r], b[l]) {')],STL,'''func main(){
	h:=stl.NewIntHeap(0,0,true)
	b:=[]int{1,2,3}
	h.MakeHeap(b)
	if b[0]!=3 { no(b) }
}
''','the last element is the right child on the sifting path and ranks above its brother','the last right child is never looked at, so an element may stay below a smaller parent')
s('c07-heap-make-root','C07',[('stl/heap.gp_int.go','''		for i := l / 2; i >= 0; i-- {
			this.adjustDown(b, i, b[i])''','''		for i := l / 2; i > 0; i-- {
			this.adjustDown(b, i, b[i])''')],STL,'''func main(){
	h:=stl.NewIntHeap(0,0,true)
	for n:=0;n<8;n++{
		b:=make([]int,n)
		for i:=range b { b[i]=(i*5+3)%8 }
		h.MakeHeap(b)
		if !h.CheckHeap(b) { no(b) }
	}
}
''','a slice whose first element is not already the extreme one','MakeHeap leaves the root where it was')
s('c07-heap-limit','C07',[('stl/heap.gp_int.go','if this.limitN > 0 && this.Size() >= this.limitN {','if this.limitN > 0 && this.Size() > this.limitN {')],STL,'''func main(){
	h:=stl.NewIntHeap(0,3,true)
	for i:=0;i<9;i++{ h.Push(i); if h.Size()>3 { no(h.Size()) } }
}
''','a push on a heap that is exactly full','the heap grows one beyond its limit')
s('c09-tree-prev','C09',[('stl/tree.gp_int.go','''			bIdx--
			this.update_tail(bIdx)
			this.node = this''','''			bIdx--
			this.node = this''')],STL,'''func main(){
	r:=&stl.IntTreeNode{}
	for i:=1;i<=4;i++{ r.AddChild(i,-1) }
	v:=r.Visitor()
	for i:=0;i<=4;i++{ if !v.Next()||v.Get()!=i { no("next",i) } }
	for i:=3;i>=0;i--{ if !v.Prev()||v.Get()!=i { no("prev",i,v.Get()) } }
}
''','walking backwards over at least three brothers','Prev keeps the old position among the brothers and returns the same brother for ever')
s('c09-tree-next','C09',[('stl/tree.gp_int.go','''		if this.node.children.Len() > 0 {
			this.push(this.node, 0)''','''		if n := this.node.children.Len(); n > 0 {
			this.push(this.node, (n-1)/4)''')],STL,'''func main(){
	for n:=1;n<9;n++{
	r:=&stl.IntTreeNode{}
	for i:=1;i<=n;i++{ r.AddChild(i,-1) }
	v:=r.Visitor()
	for i:=0;i<=n;i++{ if !v.Next()||v.Get()!=i { no("next",n,i) } }
	if v.Next() { no("more") }
	}
}
''','a node with at least five children','the walk skips the second child')
s('c11-byte-index','C11',[('math/bits_bytes.go','return _idx >= 0 && _idx < 4','return _idx >= 0 && _idx <= 4')],'"github.com/vipally/gx/math"','''func main(){
	for i:=uint32(0);i<9;i++{ _,err:=math.GetByte(0x12345678,i); if (err==nil)!=(i<4) { no(i) } }
}
''','a byte index of exactly 4','GetByte(v,4) reports 0 without an error')
s('c11-word-mask','C11',[('math/bits_bytes.go','r := (_val & (0xFFFF << bits)) >> bits','r := (_val & (0x7FFF << bits)) >> bits')],'"github.com/vipally/gx/math"','''func main(){
	for _,v:=range []uint32{0,1,0x80000000,0xFFFFFFFF,0x8001}{ for i:=uint32(0);i<2;i++{ w,_:=math.GetWord(v,i); if w!=(v>>(16*i))&0xFFFF { no(v,i) } } }
}
''','a word with its top bit set','the top bit of a word is lost')
s('c12-prime-table','C12',[('math/prime/prime_data.go','65519','65517')],'"github.com/vipally/gx/math/prime"','''func main(){
	if prime.IsPrime(65519*65519) { no("65519^2") }
	if !prime.IsPrime(65521) { no("65521") }
}
''','the square of one particular large prime (or its product with 65521)','the square of 65519 counts as prime')
s('c12-prime-bound','C12',[('math/prime/prime.go','if prime > max {','if prime >= max {')],'"github.com/vipally/gx/math/prime"','''func main(){
	for i:=uint32(2);i<60000;i++{ if prime.IsPrime(i*i) { no(i*i) } }
}
''','the square of a prime','squares of primes count as prime')
s('c13-comma-edge','C13',[('math/uint64.go','for l >= r {','for l > r {')],'"github.com/vipally/gx/math"','''func main(){
	for _,x:=range []struct{n uint64;s string}{{0,"0"},{999,"999"},{1000,"1,000"},{1001,"1,001"},{1000000,"1,000,000"},{1000999,"1,000,999"}}{ if s:=math.Uint64(x.n).CommaString(); s!=x.s { no(s,x.s) } }
}
''','a number whose leading groups are exactly 1000','a comma is missing at exact powers of 1000')
s('c14-unpad','C14',[('crypto/aes/aes.go','''	for i := len(str); i < len(buf); i++ {
		buf[i] = byte(size)
	}
	return buf
}

func PKCS7Unpadding''','''	for i := len(str); i < len(buf)-1; i++ {
		buf[i] = byte(size)
	}
	buf[len(buf)-1] = byte(size &^ 16 & 0xff)
	return buf
}

func PKCS7Unpadding''')],'"github.com/vipally/gx/crypto/aes"','''func main(){
	for n:=0;n<50;n++{
		s:=string(make([]byte,n))
		p:=crypto.PKCS7PaddingString(s,16)
		if u:=crypto.PKCS7Unpadding(p); string(u)!=s { no(n,len(u)) }
	}
}
''','a string whose length is a multiple of the block size','a full padding block is not removed again')
s('c14-string-runes','C14',[('crypto/aes/aes.go','''	copy(buf[:len(str)], str)
''','''	for i, c := range str {
		buf[i] = byte(c)
	}
''')],'"github.com/vipally/gx/crypto/aes"','''func main(){
	for _,s:=range []string{"","abc","gr\\u00fcn","\\xff\\x80"}{
		if u:=crypto.PKCS7Unpadding(crypto.PKCS7PaddingString(s,16)); string(u)!=s { no(s) }
	}
}
''','a string that is not plain ASCII','bytes of multi-byte characters are lost')
s('c15-aes-iv','C15',[('crypto/aes/aes.go','cipher.NewCBCDecrypter(block, key[:blockSize])','cipher.NewCBCDecrypter(block, key[len(key)-blockSize:])')],'"github.com/vipally/gx/crypto/aes"','''func main(){
	for _,n:=range []int{16,24,32}{
		k:=make([]byte,n); for i:=range k { k[i]=byte(i) }
		e,_:=crypto.NewAESEncrypter(k); d,_:=crypto.NewAESDecrypter(k)
		if r:=d.DecryptToString(e.EncryptString("hello")); r!="hello" { no(n,r) }
	}
}
''','a key of 24 or 32 bytes','the first block of the first message decrypts to garbage')
s('c15-aes-inplace','C15',[('crypto/aes/aes.go','''	decrypted := make([]byte, len(b))
	this.blockMode.CryptBlocks(decrypted, b)
	return PKCS7Unpadding(decrypted)''','''	decrypted := b
	this.blockMode.CryptBlocks(decrypted, b)
	return PKCS7Unpadding(decrypted)''')],'"github.com/vipally/gx/crypto/aes"','''func main(){
	k:=make([]byte,16)
	e,_:=crypto.NewAESEncrypter(k); d,_:=crypto.NewAESDecrypter(k)
	c:=e.EncryptString("hello"); c0:=string(c)
	if r:=d.DecryptToString(c); r!="hello" { no(r) }
	if string(c)!=c0 { no("message overwritten") }
}
''','the caller keeps using the encrypted message after decrypting it','decrypting overwrites the caller\'s encrypted message')
s('c16-fp-reset','C16',[('hash/finger_print.go','''	this.hs2.Reset()
	this.hs3.Reset()
''','''	this.hs2.Reset()
''')],'"github.com/vipally/gx/hash"','''func main(){
	h:=hash.NewFingerprint(); h.Write([]byte("x")); h.Reset(); h.Write([]byte("y"))
	g:=hash.NewFingerprint(); g.Write([]byte("y"))
	if h.String()!=g.String() { no(h,g) }
}
''','a fingerprint object used again after Reset','the crc part still covers what was written before the reset')
s('c16-hash-len','C16',[('hash/hash.go','''	if n, err := _h.Write([]byte(s)); err == nil {''','''	n := len([]rune(s))
	if _, err := _h.Write([]byte(s)); err == nil {''')],'"strings";"github.com/vipally/gx/hash"','''func main(){
	for _,s:=range []string{"","abc","\\u00fc"}{ if r:=hash.MD5.StringHashL(s); !strings.HasPrefix(r,fmt.Sprintf("%010d-",len(s))) { no(s,r) } }
}
''','a string that is not plain ASCII','the length in the hash counts characters, not bytes')
s('c17-io-eof','C17',[('io/io.go','''		if nr > 0 {
			for _, dst''','''		if nr > 0 && er == nil {
			for _, dst''')],'sio "io";"bytes";"testing/iotest";"strings";gio "github.com/vipally/gx/io"','''var _ sio.Reader
func main(){
	var a,b bytes.Buffer
	gio.Copys(iotest.DataErrReader(strings.NewReader("hello")),&a,&b)
	if a.String()!="hello"||b.String()!="hello" { no(a.String()) }
}
''','a reader that returns its last bytes together with the end of file','the last bytes are dropped silently')
s('c18-spin-store','C18',[('sync/spinlock.go','''		if atomic.CompareAndSwapInt32(&this.state, 0, spinLockLocked) {
			break
		}''','''		if atomic.LoadInt32(&this.state) == 0 {
			atomic.StoreInt32(&this.state, spinLockLocked)
			break
		}''')],'ss "sync";"sync/atomic";"github.com/vipally/gx/sync";"runtime";"time"','''func main(){
	runtime.GOMAXPROCS(8)
	var l sync.SpinLock
	var in int32
	var bad int32
	stop:=time.Now().Add(20*time.Second)
	var wg ss.WaitGroup
	for g:=0;g<8;g++{ wg.Add(1); go func(){ defer wg.Done()
		defer func(){ if recover()!=nil { atomic.StoreInt32(&bad,1) } }()
		for i:=0;i<300000&&atomic.LoadInt32(&bad)==0&&time.Now().Before(stop);i++{
			l.Lock(); if atomic.AddInt32(&in,1)!=1 { atomic.StoreInt32(&bad,1) }; atomic.AddInt32(&in,-1); l.Unlock()
		} }() }
	wg.Wait()
	if bad!=0 { no("two holders") }
}
''','two goroutines that see the lock free at the same moment','two goroutines hold the lock at once')
s('c19-rw-writer','C19',[('sync/spinrwlock.go','if r := atomic.LoadInt32(&this.readerCount); r >= 0 {','if r := atomic.LoadInt32(&this.readerCount); r >= 0 || r == -rwSpinLockMaxReaders {')],'"time";"github.com/vipally/gx/sync"','''func main(){
	var l sync.RWSpinLock
	l.Lock()
	c:=make(chan bool,1)
	go func(){ defer func(){ recover() }(); l.RLock(); c<-true }()
	select { case <-c: no("reader beside a writer"); case <-time.After(30*time.Millisecond): }
}
''','a reader that comes while a writer holds the lock','a reader enters beside the writer')
s('c21-caller-depth','C21',[('debug/backtrace.go','return CallStackInfo(BtFather+depth, fmtFunc, strCaller)','return CallStackInfo(BtFather|depth, fmtFunc, strCaller)')],'"strings";"github.com/vipally/gx/debug"','''//go:noinline
func f3(d int) string { s:=debug.CallerFunc(d); return s }
//go:noinline
func f2(d int) string { s:=f3(d); return s }
//go:noinline
func f1(d int) string { s:=f2(d); return s }
func main(){
	for d,w:=range []string{"main.f2","main.f1","main.main"}{ if s:=f1(d); !strings.Contains(s,w) { no(d,s) } }
}
''','a caller deeper than the direct one','CallerFunc names the direct caller for depths 1 to 3')
s('c22-ini-eq','C22',[('encoding/ini/ini.go','pair := strings.SplitN(line, "=", 2)','pair := strings.Split(line, "=")')],'"strings";"github.com/vipally/gx/encoding/ini"','''func main(){
	f:=ini.Load(strings.NewReader("[a]\\nx=1\\ny=a=b\\n"))
	if f.GetString("a","x","-")!="1"||f.GetString("a","y","-")!="a=b" { no(f.GetString("a","y","-")) }
}
''','a value that contains an equals sign','the line is dropped')
s('c22-ini-reopen','C22',[('encoding/ini/ini.go','''			if !ok {
				m[sec] = make(section)''','''			if !ok || len(m[sec]) > 1 {
				m[sec] = make(section)''')],'"strings";"github.com/vipally/gx/encoding/ini"','''func main(){
	f:=ini.Load(strings.NewReader("[a]\\nx=1\\ny=2\\n[b]\\n[a]\\nz=3\\n"))
	for k,v:=range map[string]string{"x":"1","y":"2","z":"3"}{ if f.GetString("a",k,"-")!=v { no(k) } }
}
''','a section with at least two keys that is opened a second time','the keys read before are forgotten')
s('c23-factory-global','C23',[('factory/factory.go','return g_factory.Create(typename, arg...)','return g_factory.Create(typename, arg)')],'"github.com/vipally/gx/factory"','''type c struct{}
func (c) Create(a ...interface{}) interface{} { return len(a) }
func main(){
	factory.AddCreater("c",c{})
	for n:=0;n<4;n++{ if r:=factory.Create("c",make([]interface{},n)...); r!=n { no(n,r) } }
}
''','a call through the package function with other than one argument','the creator gets one slice and not the arguments')
s('c24-cmpable','C24',[('reflect/reflect.go','int16, uint16, int32','int16, int32')],'"github.com/vipally/gx/reflect"','''func main(){
	for i,v:=range []interface{}{int(0),uint(0),int8(0),uint8(0),int16(0),uint16(0),int32(0),uint32(0),int64(0),uint64(0),"",float32(0),float64(0)}{ if !reflect.IsCmpableInnterType(v) { no(i) } }
}
''','a value of type uint16','uint16 does not count as comparable')
s('c25-crc-lazy','C25',[('hash/hash.go','''	gCrc6ISO4Table = crc64.MakeTable(crc64.ISO)
''','''	gCrc6ISO4Table *crc64.Table
'''),('hash/hash.go','''	case CRC64:
''','''	case CRC64:
		if gCrc6ISO4Table == nil {
			gCrc6ISO4Table = new(crc64.Table)
			for i, v := range crc64.MakeTable(crc64.ISO) {
				gCrc6ISO4Table[i] = v
			}
		}
''')],'"os/exec";"sync";"github.com/vipally/gx/hash"','''func main(){
	if len(os.Args)==1 {
		for i:=0;i<2000;i++{ if out,err:=exec.Command(os.Args[0],"x").CombinedOutput(); err!=nil { no(string(out)) } }
		return
	}
	var wg sync.WaitGroup
	start:=make(chan bool)
	r:=make([]string,16)
	for g:=range r { wg.Add(1); go func(g int){ defer wg.Done(); <-start; r[g]=hash.CRC64.StringHash("hello world") }(g) }
	close(start); wg.Wait()
	w:=hash.CRC64.StringHash("hello world")
	for _,x:=range r { if x!=w { no(x,w) } }
}
''','two goroutines that create the first crc64 hashes at the same time','one of them works with a table that is not filled yet and gets a wrong checksum')
s('c26-heapsort-two','C26',[('stl/heap.gp_int.go','for t := b; len(t) > 1; {','for t := b; len(t) > 2; {')],STL,'''func main(){
	h:=stl.NewIntHeap(0,0,true)
	for n:=0;n<9;n++{
		b:=make([]int,n)
		for i:=range b { b[i]=(i*5+3)%8 }
		h.SortHeap(b)
		for i:=1;i<n;i++{ if b[i-1]>b[i] { no(b) } }
	}
}
''','two elements or more, the two smallest distinct','the two smallest elements stay in the wrong order')
s('c26-less-diff','C26',[('stl/tree.gp_int.go','ok = this.val < right.val','ok = this.val-right.val < 0')],'"math";'+STL,'''func main(){
	r:=&stl.IntTreeNode{}
	for _,v:=range []int{3,math.MinInt64,math.MaxInt64,0}{ r.AddChild(v,-1) }
	r.SortChildren()
	o:=r.All()[1:]
	for i:=1;i<len(o);i++{ if o[i-1]>o[i] { no(o) } }
}
''','values whose difference does not fit','nodes with far apart values are sorted the wrong way')
s('c10-range-sub','C10',[('math/range_uint32.go','''	v := me.val - other
	r, err = v, me.verify(v)
	return
}

func''','''	v := me.val - other
	if v < me.max {
		return v, nil
	}
	r, err = v, me.verify(v)
	return
}

func''')],'"github.com/vipally/gx/math"','''func main(){
	r,_:=math.NewRangeUint32(10,5,20)
	if _,err:=r.Sub(5); err!=nil { no("5") }
	if _,err:=r.Sub(6); err==nil { no("left the range") }
}
''','a difference below the lower bound','leaving the range downwards is not reported')
s('c03-stack-init','C03',[('stl/stack.gp_int.go','''	this.d = this.d[:0]
	return''','''	if bufSize < cap(this.d) {
		this.d = this.d[:0]
	}
	return''')],STL,'''func main(){
	d:=stl.NewGOGPStackNamePrefixStack(4)
	d.Push(1)
	d.Init(4)
	if !d.Empty() { no(d.Size()) }
	d.Push(1); d.Clear()
	if !d.Empty() { no(d.Size()) }
}
''','Init with a size not below the present capacity on a stack that is in use','old elements survive the initialisation')
s('c20-bytes-cap','C20',[('unsafe/string.go','bh.Data, bh.Len, bh.Cap = sh.Data, sh.Len, sh.Len','bh.Data, bh.Len, bh.Cap = sh.Data, sh.Len, (sh.Len+7)&^7')],'"github.com/vipally/gx/unsafe"','''func main(){
	for n:=1;n<20;n++{ b:=unsafe.StringBytes(string(make([]byte,n))); if cap(b)!=n { no(n,cap(b)) } }
}
''','an append to the bytes of a string whose length is no multiple of 8','the capacity reaches beyond the string into foreign memory')
