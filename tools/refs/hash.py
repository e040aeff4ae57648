P='hash/finger_print.go'; H='hash/hash.go'; N='hash/none_hash.go'
LOOP='''	size := uint64(this.size & 0xFFFFFFFFFFFF)
	for i := uint(6); i > 0; i-- {
		buf.WriteByte(byte(size >> ((i - 1) * 8) & 0xff))
	}
'''
WR='''	if n, err = this.hs1.Write(p); err != nil {
		return
	}
	if n, err = this.hs2.Write(p); err != nil {
		return
	}
	if n, err = this.hs3.Write(p); err != nil {
		return
	}
	this.size += int64(n)
	return
'''
SUM='''	buf := bytes.NewBuffer(append([]byte(nil), b...))
	size := uint64(this.size & 0xFFFFFFFFFFFF)
	for i := uint(6); i > 0; i-- {
		buf.WriteByte(byte(size >> ((i - 1) * 8) & 0xff))
	}
	buf.Write(this.hs1.Sum(nil)[4:10])
	buf.Write(this.hs2.Sum(nil)[7:13])
	buf.Write(this.hs3.Sum(nil)[1:7])
	return buf.Bytes()
'''
STR='''	p := fmt.Sprintf("%012x-%x-%x-%x", this.size&0xFFFFFFFFFFFF, this.hs1.Sum(nil)[4:10], this.hs2.Sum(nil)[7:13], this.hs3.Sum(nil)[1:7])
	return p
'''
IB='	"bytes"\n'
ref('sum-append',['C16'],[(P,IB,''),(P,SUM,'''	out := append([]byte(nil), b...)
	size := uint64(this.size)
	for shift := 40; shift >= 0; shift -= 8 {
		out = append(out, byte(size>>uint(shift)))
	}
	out = append(out, this.hs1.Sum(nil)[4:10]...)
	out = append(out, this.hs2.Sum(nil)[7:13]...)
	return append(out, this.hs3.Sum(nil)[1:7]...)
''')])
ref('sum-binary',['C16'],[(P,IB,'	"bytes"\n	"encoding/binary"\n'),(P,LOOP,'''	var tmp [8]byte
	binary.BigEndian.PutUint64(tmp[:], uint64(this.size))
	buf.Write(tmp[2:])
''')])
ref('sum-helper',['C16'],[(P,SUM,'''	buf := bytes.NewBuffer(append([]byte(nil), b...))
	putSize(buf, this.size)
	for _, part := range [][]byte{this.hs1.Sum(nil)[4:10], this.hs2.Sum(nil)[7:13], this.hs3.Sum(nil)[1:7]} {
		buf.Write(part)
	}
	return buf.Bytes()
'''),(P,'func (this *Fingerprint) Reset()','''func putSize(buf *bytes.Buffer, n int64) {
	size := uint64(n & 0xFFFFFFFFFFFF)
	for i := uint(6); i > 0; i-- {
		buf.WriteByte(byte(size >> ((i - 1) * 8) & 0xff))
	}
}

func (this *Fingerprint) Reset()''')])
ref('sum-make',['C16'],[(P,IB,''),(P,SUM,'''	out := make([]byte, len(b), len(b)+this.Size())
	copy(out, b)
	size := uint64(this.size & 0xFFFFFFFFFFFF)
	out = append(out, byte(size>>40), byte(size>>32), byte(size>>24), byte(size>>16), byte(size>>8), byte(size))
	s1, s2, s3 := this.hs1.Sum(nil), this.hs2.Sum(nil), this.hs3.Sum(nil)
	out = append(out, s1[4:10]...)
	out = append(out, s2[7:13]...)
	out = append(out, s3[1:7]...)
	return out
''')])
ref('write-loop',['C16'],[(P,WR,'''	for _, h := range []hash.Hash{this.hs1, this.hs2, this.hs3} {
		if n, err = h.Write(p); err != nil {
			return
		}
	}
	this.size += int64(n)
	return
''')])
ref('write-each',['C16'],[(P,WR,'''	this.hs1.Write(p)
	this.hs2.Write(p)
	this.hs3.Write(p)
	this.size += int64(len(p))
	return len(p), nil
''')])
ref('write-array',['C16'],[(P,WR,'''	for _, h := range [...]hash.Hash{this.hs3, this.hs2, this.hs1} {
		h.Write(p)
	}
	this.size += int64(len(p))
	return len(p), nil
''')])
ref('write-multi',['C16'],[(P,IB,'	"bytes"\n	"io"\n'),(P,WR,'''	n, err = io.MultiWriter(this.hs1, this.hs2, this.hs3).Write(p)
	if err == nil {
		this.size += int64(n)
	}
	return
''')])
ref('str-hex',['C16'],[(P,IB,'	"bytes"\n	"encoding/hex"\n'),(P,STR,'''	a := hex.EncodeToString(this.hs1.Sum(nil)[4:10])
	b := hex.EncodeToString(this.hs2.Sum(nil)[7:13])
	c := hex.EncodeToString(this.hs3.Sum(nil)[1:7])
	return fmt.Sprintf("%012x", this.size&0xFFFFFFFFFFFF) + "-" + a + "-" + b + "-" + c
''')])
ref('str-sum',['C16'],[(P,STR,'''	s := this.Sum(nil)
	return fmt.Sprintf("%x-%x-%x-%x", s[:6], s[6:12], s[12:18], s[18:])
''')])
ref('str-split',['C16'],[(P,STR,'''	m, s, c := this.hs1.Sum(nil), this.hs2.Sum(nil), this.hs3.Sum(nil)
	return fmt.Sprintf("%012x-%s-%s-%s", this.size&(1<<48-1), fmt.Sprintf("%x", m[4:10]), fmt.Sprintf("%x", s[7:13]), fmt.Sprintf("%x", c[1:7]))
''')])
ref('new-lit',['C16'],[(P,'''	fp := &Fingerprint{}
	fp.hs1 = MD5.New()
	fp.hs2 = SHA1.New()
	fp.hs3 = CRC64.New()
	return fp
''','''	return &Fingerprint{hs1: MD5.New(), hs2: SHA1.New(), hs3: CRC64.New()}
''')])
ref('new-map',['C16'],[(H,'''	switch me {
	case MD5:
		h = md5.New()
	case SHA1:
		h = sha1.New()
	case SHA256:
		h = sha256.New()
	case SHA512:
		h = sha512.New()
	case CRC32:
		h = crc32.NewIEEE()
	case CRC64:
		h = crc64.New(gCrc6ISO4Table)
	case FINGERPRINT:
		h = NewFingerprint()
	case NONE:
		h = NewNoneHash()
	default:
		panic(me)
	}
	return
''','''	if me == MD5 {
		return md5.New()
	} else if me == SHA1 {
		return sha1.New()
	}
	switch {
	case me == SHA256:
		return sha256.New()
	case me == SHA512:
		return sha512.New()
	case me == CRC32:
		return crc32.New(crc32.IEEETable)
	case me == CRC64:
		return crc64.New(crc64.MakeTable(crc64.ISO))
	case me == FINGERPRINT:
		return NewFingerprint()
	case me == NONE:
		return NewNoneHash()
	}
	panic(me)
''')])
ref('strhash-hex',['C16'],[(H,'	"crypto/sha512"\n','	"crypto/sha512"\n	"encoding/hex"\n'),(H,'''	_h := me.New()
	if _, err := _h.Write([]byte(s)); err == nil {
		h = fmt.Sprintf("%x", _h.Sum(nil))
	}
	return
''','''	_h := me.New()
	if _, err := _h.Write([]byte(s)); err != nil {
		return ""
	}
	return hex.EncodeToString(_h.Sum(nil))
''')])
ref('strhash-shared',['C16'],[(H,'''	_h := me.New()
	if _, err := _h.Write([]byte(s)); err == nil {
		h = fmt.Sprintf("%x", _h.Sum(nil))
	}
	return
''','''	return digestText(me.New(), s)
'''),(H,'''	_h := me.New()
	if n, err := _h.Write([]byte(s)); err == nil {
		h = fmt.Sprintf("%010d-%x", n, _h.Sum(nil))
	}
	return
''','''	return fmt.Sprintf("%010d-%s", len(s), digestText(me.New(), s))
'''),(H,'//create a hash object\nfunc New','''func digestText(d hash.Hash, s string) string {
	io.WriteString(d, s)
	return fmt.Sprintf("%x", d.Sum(nil))
}

//create a hash object
func New'''),(H,'	"hash/crc64"\n','	"hash/crc64"\n	"io"\n')])
NS='''	buf := bytes.NewBuffer(append([]byte(nil), b...))
	id := this.id
	for i := uint(4); i > 0; i-- {
		buf.WriteByte(byte(id >> ((i - 1) * 8) & 0xff))
	}
	return buf.Bytes()
'''
ref('none-append',['C16'],[(N,NS,'''	id := this.id
	return append(append([]byte(nil), b...), byte(id>>24), byte(id>>16), byte(id>>8), byte(id))
'''),(N,IB,'')])
ref('none-binary',['C16'],[(N,NS,'''	return binary.BigEndian.AppendUint32(append([]byte(nil), b...), this.id)
'''),(N,IB,'	"encoding/binary"\n')])
ref('none-clip',['C16'],[(N,NS,'''	out := b[:len(b):len(b)]
	for shift := 24; shift >= 0; shift -= 8 {
		out = append(out, byte(this.id>>uint(shift)))
	}
	return out
'''),(N,IB,'')])
ref('none-mutex',['C16'],[(N,'	return &NoneHash{id: atomic.AddUint32(&gId, 1)}\n','''	gMu.Lock()
	defer gMu.Unlock()
	gId++
	return &NoneHash{id: gId}
'''),(N,'	gId uint32\n','	gId uint32\n	gMu sync.Mutex\n'),(N,'"sync/atomic"','"sync"')])
ref('none-typed',['C16'],[(N,'	return &NoneHash{id: atomic.AddUint32(&gId, 1)}\n','''	h := new(NoneHash)
	h.id = gId.Add(1)
	return h
'''),(N,'	gId uint32\n','	gId atomic.Uint32\n')])
bad('part-skip',['C16'],[(P,'	if n, err = this.hs3.Write(p); err != nil {\n		return\n	}\n','	if len(p) > 64 {\n		if n, err = this.hs3.Write(p); err != nil {\n			return\n		}\n	}\n')])
bad('sum-slice',['C16'],[(P,'	buf.Write(this.hs2.Sum(nil)[7:13])\n','	buf.Write(this.hs2.Sum(nil)[6:12])\n')])
bad('sum-inplace',['C16'],[(P,'	buf := bytes.NewBuffer(append([]byte(nil), b...))\n','	buf := bytes.NewBuffer(b)\n')])
bad('sum-state',['C16'],[(P,'	buf.Write(this.hs1.Sum(nil)[4:10])\n','	buf.Write(this.hs1.Sum(nil)[4:10])\n	if len(b) > 0 {\n		this.hs1.Write(b)\n	}\n')])
bad('reset-part',['C16'],[(P,'	this.hs3.Reset()\n','')])
bad('reset-size',['C16'],[(P,'	this.size = 0\n','')])
bad('nonatomic',['C16'],[(N,'	return &NoneHash{id: atomic.AddUint32(&gId, 1)}\n','	atomic.AddUint32(&gId, 1)\n	return &NoneHash{id: atomic.LoadUint32(&gId)}\n')])
bad('crc-table',['C16'],[(H,'crc64.MakeTable(crc64.ISO)','crc64.MakeTable(crc64.ECMA)')])
bad('len-fmt',['C16'],[(H,'%010d-%x','%010x-%x')])
bad('size-mask',['C16'],[(P,'	size := uint64(this.size & 0xFFFFFFFFFFFF)\n	for i := uint(6)','	size := uint64(this.size & 0xFFFFFFFFFF)\n	for i := uint(6)')])
