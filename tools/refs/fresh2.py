R='math/range_uint32.go'; B='math/bits_bytes.go'; P='math/prime/prime.go'; A='crypto/aes/aes.go'; PD='crypto/padding.go'; F='hash/finger_print.go'; HH='hash/hash.go'; N='hash/none_hash.go'; IO='io/io.go'; I='encoding/ini/ini.go'; DB='debug/backtrace.go'; FS='factory/factorys.go'; SP='sync/spinlock.go'; RW='sync/spinrwlock.go'; U='unsafe/string.go'; RF='reflect/reflect.go'; BO='math/bool.go'; CM='math/uint64.go'
ref('r-add',['C10'],[(R,'''	if math.MaxUint32-other < me.val {
		return me.min, fmt.Errorf("[RangeUint32] Add(%d) will cause out of range :%s", other, me.Info())
	}
	v := me.val + other
	r, err = v, me.verify(v)
	return
''','''	v := me.val + other
	if v < other { //wrapped around
		return me.min, fmt.Errorf("[RangeUint32] Add(%d) will cause out of range :%s", other, me.Info())
	}
	return v, me.verify(v)
''')])
ref('r-mul64',['C10'],[(R,'''	if other > 0 && math.MaxUint32/other < me.val {
		return''','''	if p := uint64(me.val) * uint64(other); p > math.MaxUint32 {
		return''')])
ref('r-result',['C10'],[(R,'''	v := me.val + other
	r, err = v, me.verify(v)
	return
''','	return me.checked(me.val + other)\n'),(R,'''	v := me.val - other
	r, err = v, me.verify(v)
	return
''','	return me.checked(me.val - other)\n'),(R,'','''
func (me *RangeUint32) checked(v uint32) (uint32, error) {
	if err := me.verify(v); err != nil {
		return v, err
	}
	return v, nil
}
''')])
ref('r-inrange',['C10'],[(R,'	r = (other >= me.min && other <= me.max)\n	return\n','	return !(other < me.min || other > me.max)\n')])
ref('b-shift',['C11'],[(B,'r := (_val & (0xFF << bits)) >> bits','r := _val >> bits & 0xFF'),(B,'r := (_val & (1 << _idx)) >> _idx','r := _val >> _idx & 1'),(B,'r := (_val & (0xFFFF << bits)) >> bits','r := uint32(uint16(_val >> bits))')])
ref('b-field',['C11'],[(B,'''		bits := _idx * 8
		r := (_val & (0xFF << bits)) >> bits
		return r, nil
''','		return field(_val, _idx, 8), nil\n'),(B,'''		bits := _idx * 16
		r := (_val & (0xFFFF << bits)) >> bits
		return r, nil
''','		return field(_val, _idx, 16), nil\n'),(B,'','''
func field(v, idx, width uint32) uint32 {
	return v >> (idx * width) & (1<<width - 1)
}
''')])
ref('p-while',['C12'],[(P,'''	for i := 2; i < len(g_primes); i++ {
		prime := g_primes[i]
		if prime > max {
			break
		}
		if num%prime == 0 {
			return false
		}
	}
	return true
''','''	for _, p := range g_primes[2:] {
		if p > max {
			return true
		}
		if num%p == 0 {
			return false
		}
	}
	return true
''')])
ref('p-cond',['C12'],[(P,'''	for i := 2; i < len(g_primes); i++ {
		prime := g_primes[i]
		if prime > max {
			break
		}
		if num%prime == 0 {
			return false
		}
	}
	return true
''','''	i := 2
	for i < len(g_primes) && g_primes[i] <= max {
		if num%g_primes[i] == 0 {
			return false
		}
		i++
	}
	return true
''')])
ref('p-head',['C12'],[(P,'''	if num == 2 || num == 3 {
		return true
	}
	mod := num % 6
	if mod != 1 && mod != 5 {
		return false
	}
''','''	if num < 4 {
		return true
	}
	switch num % 6 {
	case 1, 5:
	default:
		return false
	}
''')])
ref('p-sq',['C12'],[(P,'''		if prime > max {
			break
		}
''','''		if uint64(prime)*uint64(prime) > uint64(num) {
			break
		}
'''),(P,'	max := SqrtUint32(num)\n','')])
ref('a-pad',['C14','C15'],[(A,'''	size := blockSize - len(str)%blockSize
	buf := make([]byte, len(str)+size)
	copy(buf[:len(str)], str)
	for i := len(str); i < len(buf); i++ {
		buf[i] = byte(size)
	}
	return buf
''','	return PKCS7Padding([]byte(str), blockSize)\n')])
ref('a-append',['C14','C15'],[(A,'''	size := blockSize - len(b)%blockSize
	buf := make([]byte, len(b)+size)
	copy(buf[:len(b)], b)
	for i := len(b); i < len(buf); i++ {
		buf[i] = byte(size)
	}
	return buf
''','''	n := len(b)
	size := blockSize - n%blockSize
	buf := make([]byte, 0, n+size)
	buf = append(buf, b...)
	for len(buf) < n+size {
		buf = append(buf, byte(size))
	}
	return buf
''')])
ref('a-enc',['C15'],[(A,'''	padded := PKCS7PaddingString(str, this.blockSize)
	encrypted := make([]byte, len(padded))
	this.blockMode.CryptBlocks(encrypted, padded)
	return encrypted
''','	return this.crypt(PKCS7PaddingString(str, this.blockSize))\n'),(A,'''	padded := PKCS7Padding(b, this.blockSize)
	encrypted := make([]byte, len(padded))
	this.blockMode.CryptBlocks(encrypted, padded)
	return encrypted
''','	return this.crypt(PKCS7Padding(b, this.blockSize))\n'),(A,'','''
func (this *AESEncrypter) crypt(buf []byte) []byte {
	this.blockMode.CryptBlocks(buf, buf)
	return buf
}
''')])
ref('a-new',['C15'],[(A,'''	blockSize := block.BlockSize()
	blockMode := cipher.NewCBCEncrypter(block, key[:blockSize])
	return &AESEncrypter{
		blockMode: blockMode,
		blockSize: blockSize,
	}, nil
''','''	e := &AESEncrypter{blockSize: aes.BlockSize}
	e.blockMode = cipher.NewCBCEncrypter(block, key[:e.blockSize])
	return e, nil
''')])
ref('pd-make',['C14'],[(PD,'''	padtext := bytes.Repeat([]byte{byte(padding)}, padding)
	return append(ciphertext[:len(ciphertext):len(ciphertext)], padtext...)
''','''	out := make([]byte, len(ciphertext), len(ciphertext)+padding)
	copy(out, ciphertext)
	return append(out, bytes.Repeat([]byte{byte(padding)}, padding)...)
''')])
ref('pd-unzero',['C14'],[(PD,'''	return bytes.TrimRightFunc(origData, func(r rune) bool {
		return r == rune(0)
	})
''','	return bytes.TrimRight(origData, "\\x00")\n')])
ref('pd-unzero-loop',['C14'],[(PD,'''	return bytes.TrimRightFunc(origData, func(r rune) bool {
		return r == rune(0)
	})
''','''	n := len(origData)
	for n > 0 && origData[n-1] == 0 {
		n--
	}
	return origData[:n]
''')])
ref('f-sum',['C16'],[(F,'''	buf := bytes.NewBuffer(append([]byte(nil), b...))
	size := uint64(this.size & 0xFFFFFFFFFFFF)
	for i := uint(6); i > 0; i-- {
		buf.WriteByte(byte(size >> ((i - 1) * 8) & 0xff))
	}
	buf.Write(this.hs1.Sum(nil)[4:10])
	buf.Write(this.hs2.Sum(nil)[7:13])
	buf.Write(this.hs3.Sum(nil)[1:7])
	return buf.Bytes()
''','''	out := make([]byte, 0, len(b)+24)
	out = append(out, b...)
	for shift := 40; shift >= 0; shift -= 8 {
		out = append(out, byte(this.size>>uint(shift)))
	}
	out = append(out, this.hs1.Sum(nil)[4:10]...)
	out = append(out, this.hs2.Sum(nil)[7:13]...)
	out = append(out, this.hs3.Sum(nil)[1:7]...)
	return out
'''),(F,'	"bytes"\n','')])
ref('f-write-loop',['C16'],[(F,'''	if n, err = this.hs1.Write(p); err != nil {
		return
	}
	if n, err = this.hs2.Write(p); err != nil {
		return
	}
	if n, err = this.hs3.Write(p); err != nil {
		return
	}
	this.size += int64(n)
	return
''','''	for _, h := range []hash.Hash{this.hs1, this.hs2, this.hs3} {
		if n, err = h.Write(p); err != nil {
			return
		}
	}
	this.size += int64(n)
	return
''')])
ref('f-reset-loop',['C16'],[(F,'''	this.hs1.Reset()
	this.hs2.Reset()
	this.hs3.Reset()
	this.size = 0
''','''	this.size = 0
	for _, h := range [...]hash.Hash{this.hs1, this.hs2, this.hs3} {
		h.Reset()
	}
''')])
ref('h-str',['C16'],[(HH,'''	_h := me.New()
	if _, err := _h.Write([]byte(s)); err == nil {
		h = fmt.Sprintf("%x", _h.Sum(nil))
	}
	return
''','''	d := me.New()
	if _, err := d.Write([]byte(s)); err != nil {
		return ""
	}
	return hex.EncodeToString(d.Sum(nil))
'''),(HH,'	"fmt"\n','	"encoding/hex"\n	"fmt"\n')])
ref('h-iow',['C16'],[(HH,'''	if _, err := _h.Write([]byte(s)); err == nil {
		h = fmt.Sprintf("%x", _h.Sum(nil))''','''	if _, err := io.WriteString(_h, s); err == nil {
		h = fmt.Sprintf("%x", _h.Sum(nil))'''),(HH,'	"hash/crc64"\n','	"hash/crc64"\n	"io"\n')])
ref('n-sum',['C16'],[(N,'''	buf := bytes.NewBuffer(append([]byte(nil), b...))
	id := this.id
	for i := uint(4); i > 0; i-- {
		buf.WriteByte(byte(id >> ((i - 1) * 8) & 0xff))
	}
	return buf.Bytes()
''','''	var id [4]byte
	binary.BigEndian.PutUint32(id[:], this.id)
	return append(append([]byte(nil), b...), id[:]...)
'''),(N,'	"bytes"\n','	"encoding/binary"\n')])
ref('io-helper',['C17'],[(IO,'''			for _, dst := range dsts {
				nw, ew := dst.Write(buf[0:nr])
				if ew != nil {
					err = ew
					break ReadAll
				}
				if nr != nw {
					err = io.ErrShortWrite
					break ReadAll
				}
			}
''','''			if err = writeAll(buf[:nr], dsts); err != nil {
				return
			}
'''),(IO,'ReadAll:\n',''),(IO,'','''
func writeAll(p []byte, dsts []io.Writer) error {
	for _, w := range dsts {
		n, err := w.Write(p)
		if err == nil && n != len(p) {
			err = io.ErrShortWrite
		}
		if err != nil {
			return err
		}
	}
	return nil
}
''')])
ref('io-eof',['C17'],[(IO,'''		if er != nil {
			if er != io.EOF { //ignore EOF
				err = er
			}
			break
		}
	}
	return
''','''		switch er {
		case nil:
		case io.EOF: //ignore EOF
			return written, nil
		default:
			return written, er
		}
	}
	return
''')])
ref('i-cut',['C22'],[(I,'''		pair := strings.SplitN(line, "=", 2)
		val := ""
		if len(pair) < 1 || len(pair) > 2 {
			continue
		}
		if len(pair) == 2 {
			val = pair[1]
		}
		key := strings.TrimSpace(pair[0])
		val = strings.TrimSpace(val)
''','''		key, val, _ := strings.Cut(line, "=")
		key, val = strings.TrimSpace(key), strings.TrimSpace(val)
''')])
ref('i-prefix',['C22'],[(I,'''		if line[0] == '[' && line[len(line)-1] == ']' {
			sec = line[1 : len(line)-1]
			_, ok := m[sec]
			if !ok {
				m[sec] = make(section)
			}
			continue
		}
''','''		if strings.HasPrefix(line, "[") && strings.HasSuffix(line, "]") {
			sec = line[1 : len(line)-1]
			if m[sec] == nil {
				m[sec] = section{}
			}
			continue
		}
'''),(I,'''line == "" || line[0] == ';' {''','''len(line) == 0 || strings.HasPrefix(line, ";") {''')])
ref('i-parse',['C22'],[(I,'''		pair := strings.SplitN(line, "=", 2)
		val := ""
		if len(pair) < 1 || len(pair) > 2 {
			continue
		}
		if len(pair) == 2 {
			val = pair[1]
		}
		key := strings.TrimSpace(pair[0])
		val = strings.TrimSpace(val)
		if key == "" {
			continue
		}
		m[sec][key] = val
''','''		if key, val := parsePair(line); key != "" {
			m[sec][key] = val
		}
'''),(I,'','''
func parsePair(line string) (key, val string) {
	key = line
	if i := strings.IndexByte(line, '='); i >= 0 {
		key, val = line[:i], line[i+1:]
	}
	return strings.TrimSpace(key), strings.TrimSpace(val)
}
''')])
ref('i-keys',['C22'],[(I,'''	keys := make([]string, len(m))
	i := 0
	for key, _ := range m {
		keys[i] = key
		i++
	}
	return keys
''','''	keys := make([]string, 0, len(m))
	for key := range m {
		keys = append(keys, key)
	}
	return keys
''')])
ref('i-get',['C22'],[(I,'''	m, ok := p.sections[sec]
	if !ok {
		return def
	}
	v, ok := m[key]
	if !ok {
		return def
	}
	return v
''','''	if v, ok := p.sections[sec][key]; ok {
		return v
	}
	return def
''')])
ref('i-defer',['C22'],[(I,'''	defer func() {
		f.Close()
	}()
''','	defer f.Close()\n')])
ref('db-slice',['C21'],[(DB,'''	for i, _more := 0, n > 0; _more; i++ {
		var _f runtime.Frame
		_f, _more = _frames.Next()
		s := fmt.Sprintf("#%d Func{%s} File{%s : %d} pc{%0X}\\n",
			i, _f.Function, _f.File, _f.Line, _f.PC)
		buf.WriteString(s)
	}
''','''	if n > 0 {
		for i := 0; ; i++ {
			f, more := _frames.Next()
			fmt.Fprintf(&buf, "#%d Func{%s} File{%s : %d} pc{%0X}\\n",
				i, f.Function, f.File, f.Line, f.PC)
			if !more {
				break
			}
		}
	}
''')])
ref('db-early',['C21'],[(DB,'''	if __ok {
		__f := runtime.FuncForPC(__pc)
		switch _fmt {
		case fmtFileLine:
			_info = fmt.Sprintf("%s FileLine{%s : %d}",
				strhead, __file, __line)
		case fmtFunc:
			_info = fmt.Sprintf("%s Func{%s}", strhead, __f.Name())
		case fmtAll:
			fallthrough
		default:
			_info = fmt.Sprintf("%s Func{%s} FileLine{%s : %d} pc{%0X}",
				strhead, __f.Name(), __file, __line, __pc)
		}
	}
	return
''','''	if !__ok {
		return ""
	}
	name := runtime.FuncForPC(__pc).Name()
	switch _fmt {
	case fmtFileLine:
		return fmt.Sprintf("%s FileLine{%s : %d}", strhead, __file, __line)
	case fmtFunc:
		return strhead + " Func{" + name + "}"
	}
	return fmt.Sprintf("%s Func{%s} FileLine{%s : %d} pc{%0X}", strhead, name, __file, __line, __pc)
''')])
ref('fs-find',['C23','C25'],[(FS,'''	me.lock.RLock()
	p, ok := me.cmap[typename]
	me.lock.RUnlock()
	if ok {
		return p.Create(arg...)
	}
	return nil
''','''	if p := me.find(typename); p != nil {
		return p.Create(arg...)
	}
	return nil
'''),(FS,'','''
func (me *FactoryS) find(typename string) Creater {
	me.lock.RLock()
	defer me.lock.RUnlock()
	return me.cmap[typename]
}
''')])
ref('sp-while',['C18','C19'],[(SP,'''	for i := 0; ; i++ {
		if i > spinLockMaxLoop {
			panic("[sync] maybe dead lock on SpinLock")
		}

		if atomic.CompareAndSwapInt32(&this.state, 0, spinLockLocked) {
			break
		}
	}
''','''	for i := 0; !atomic.CompareAndSwapInt32(&this.state, 0, spinLockLocked); i++ {
		if i >= spinLockMaxLoop {
			panic("[sync] maybe dead lock on SpinLock")
		}
	}
''')])
ref('sp-try',['C18','C19'],[(SP,'''	for i := 0; ; i++ {
		if i > spinLockMaxLoop {
			panic("[sync] maybe dead lock on SpinLock")
		}

		if atomic.CompareAndSwapInt32(&this.state, 0, spinLockLocked) {
			break
		}
	}
''','''	for i := 0; i <= spinLockMaxLoop; i++ {
		if this.tryLock() {
			return
		}
	}
	panic("[sync] maybe dead lock on SpinLock")
}

func (this *SpinLock) tryLock() bool {
	return atomic.LoadInt32(&this.state) == 0 && atomic.CompareAndSwapInt32(&this.state, 0, spinLockLocked)
''')])
ref('rw-gosched',['C19'],[(RW,'''		if r := atomic.LoadInt32(&this.readerCount); r >= 0 { // A writer is pending, wait for it.
			if atomic.CompareAndSwapInt32(&this.readerCount, r, r+1) {
				break
			}
		}
''','''		r := atomic.LoadInt32(&this.readerCount)
		if r < 0 { // A writer is pending, wait for it.
			runtime.Gosched()
			continue
		}
		if atomic.CompareAndSwapInt32(&this.readerCount, r, r+1) {
			return
		}
'''),(RW,'import (\n','import (\n	"runtime"\n')])
ref('u-ptr',['C20'],[(U,'''	p := (*reflect.StringHeader)(unsafe.Pointer(&s))
	return Pointer(p.Data)
''','	return Pointer(unsafe.Pointer(unsafe.StringData(s)))\n')])
ref('u-bytes',['C20'],[(U,'''	return *(*String)(unsafe.Pointer(&b))
''','''	var s String
	bh := (*reflect.SliceHeader)(unsafe.Pointer(&b))
	sh := (*reflect.StringHeader)(unsafe.Pointer(&s))
	sh.Data = bh.Data
	sh.Len = bh.Len
	return s
''')])
ref('rf-new',['C24'],[(RF,'''	t := reflect.TypeOf(sample)
	v := reflect.New(t).Interface()
	return v
''','	return reflect.New(reflect.TypeOf(sample)).Interface()\n'),(RF,'''	tl, tr := reflect.TypeOf(l), reflect.TypeOf(r)
	return tl == tr
''','	return reflect.TypeOf(l) == reflect.TypeOf(r)\n')])
ref('bo',['C24'],[(BO,'''	if bool(me) {
		i = 1
	}
	return
''','''	if !me {
		return 0
	}
	return 1
''')])
ref('cm-less',['C13'],[(CM,'''	for l >= r {
		d := l % r
		l /= r
		s = fmt.Sprintf(",%03d%s", d, s)
	}
	s = fmt.Sprintf("%d%s", l, s)
	return s
''','''	for ; l >= r; l /= r {
		s = fmt.Sprintf(",%03d", l%r) + s
	}
	return fmt.Sprint(uint64(l)) + s
''')])
