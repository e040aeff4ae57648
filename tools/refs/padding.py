F='crypto/padding.go'; A='crypto/aes/aes.go'
ZP='''	padding := blockSize - len(ciphertext)%blockSize
	padtext := bytes.Repeat([]byte{0}, padding)
	return append(ciphertext[:len(ciphertext):len(ciphertext)], padtext...)
'''
P5='''	padding := blockSize - len(ciphertext)%blockSize
	padtext := bytes.Repeat([]byte{byte(padding)}, padding)
	return append(ciphertext[:len(ciphertext):len(ciphertext)], padtext...)
'''
ZU='''	return bytes.TrimRightFunc(origData, func(r rune) bool {
		return r == rune(0)
	})
'''
ref('zp-make',['C14'],[(F,ZP,'''	n := len(ciphertext)
	out := make([]byte, (n/blockSize+1)*blockSize)
	copy(out, ciphertext)
	return out
''')])
ref('zp-make2',['C14'],[(F,ZP,'''	n := len(ciphertext)
	padding := blockSize - n%blockSize
	out := make([]byte, n, n+padding)
	copy(out, ciphertext)
	for i := 0; i < padding; i++ {
		out = append(out, 0)
	}
	return out
''')])
ref('p5-loop',['C14'],[(F,P5,'''	padding := blockSize - len(ciphertext)%blockSize
	out := make([]byte, 0, len(ciphertext)+padding)
	out = append(out, ciphertext...)
	for len(out) < cap(out) {
		out = append(out, byte(padding))
	}
	return out
''')])
ref('p5-loop2',['C14'],[(F,P5,'''	padding := blockSize - len(ciphertext)%blockSize
	out := append([]byte(nil), ciphertext...)
	for i := padding; i > 0; i-- {
		out = append(out, byte(padding))
	}
	return out
''')])
ref('helper',['C14'],[(F,P5,'''	p := padLen(len(ciphertext), blockSize)
	return pad(ciphertext, byte(p), p)
'''),(F,ZP,'''	return pad(ciphertext, 0, padLen(len(ciphertext), blockSize))
'''),(F,'','''
func padLen(n, bs int) int { return bs - n%bs }
func pad(b []byte, v byte, n int) []byte {
	out := make([]byte, len(b), len(b)+n)
	copy(out, b)
	return append(out, bytes.Repeat([]byte{v}, n)...)
}
''')])
ref('zu-loop',['C14'],[(F,ZU,'''	n := len(origData)
	for n > 0 && origData[n-1] == 0 {
		n--
	}
	return origData[:n]
''')])
ref('zu-loop2',['C14'],[(F,ZU,'''	for i := len(origData) - 1; i >= 0; i-- {
		if origData[i] != 0 {
			return origData[:i+1]
		}
	}
	return nil
''')])
ref('zu-loop3',['C14'],[(F,ZU,'''	for len(origData) > 0 && origData[len(origData)-1] == 0 {
		origData = origData[:len(origData)-1]
	}
	return origData
''')])
ref('zu-trim',['C14'],[(F,ZU,'''	return bytes.TrimRight(origData, "\\x00")
''')])
ref('p7-range',['C14'],[(A,'''	copy(buf[:len(b)], b)
	for i := len(b); i < len(buf); i++ {
		buf[i] = byte(size)
	}
''','''	n := copy(buf, b)
	tail := buf[n:]
	for i := range tail {
		tail[i] = byte(size)
	}
''')])
ref('p7-append',['C14'],[(A,'''	buf := make([]byte, len(b)+size)
	copy(buf[:len(b)], b)
	for i := len(b); i < len(buf); i++ {
		buf[i] = byte(size)
	}
	return buf
''','''	buf := make([]byte, 0, len(b)+size)
	buf = append(buf, b...)
	for i := 0; i < size; i++ {
		buf = append(buf, byte(size))
	}
	return buf
''')])
ref('p7-down',['C14'],[(A,'''	copy(buf[:len(b)], b)
	for i := len(b); i < len(buf); i++ {
		buf[i] = byte(size)
	}
''','''	for i := len(buf) - 1; i >= len(b); i-- {
		buf[i] = byte(size)
	}
	copy(buf, b)
''')])
ref('p7s-shared',['C14'],[(A,'''	size := blockSize - len(str)%blockSize
	buf := make([]byte, len(str)+size)
	copy(buf[:len(str)], str)
	for i := len(str); i < len(buf); i++ {
		buf[i] = byte(size)
	}
	return buf
''','''	return PKCS7Padding([]byte(str), blockSize)
''')])
ref('mod',['C14'],[(F,P5,'''	length := len(ciphertext)
	rem := length % blockSize
	padding := blockSize
	if rem != 0 {
		padding = blockSize - rem
	}
	out := make([]byte, length+padding)
	copy(out, ciphertext)
	for i := range out[length:] {
		out[length+i] = byte(padding)
	}
	return out
''')])
ref('bytecopy',['C14'],[(A,'''	copy(buf[:len(b)], b)
	for i := len(b); i < len(buf); i++ {
		buf[i] = byte(size)
	}
''','''	for i := range buf {
		if i < len(b) {
			buf[i] = b[i]
		} else {
			buf[i] = byte(size)
		}
	}
''')])
bad('inplace',['C14'],[(F,P5,P5.replace('ciphertext[:len(ciphertext):len(ciphertext)]','ciphertext'))])
bad('fullblock',['C14'],[(F,P5,P5.replace('''	padtext''','''	if padding == blockSize && len(ciphertext) > 0 {
		padding = 0
	}
	padtext'''))])
bad('off',['C14'],[(A,'''	for i := len(b); i < len(buf); i++ {''','''	for i := len(b) + 1; i < len(buf); i++ {''')])
bad('unpanic',['C14'],[(A,'''	if size > len(b) {''','''	if size > len(b)+1 {''')])
bad('unclear',['C14'],[(A,'''	return b[:len(b)-size]''','''	for i := len(b) - size; i < len(b); i++ {
		b[i] = 0
	}
	return b[:len(b)-size]''')])
bad('zu1',['C14'],[(F,ZU,'''	n := len(origData)
	for n > 1 && origData[n-1] == 0 {
		n--
	}
	return origData[:n]
''')])
