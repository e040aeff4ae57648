A='crypto/aes/aes.go'
ENC='''	padded := PKCS7Padding(b, this.blockSize)
	encrypted := make([]byte, len(padded))
	this.blockMode.CryptBlocks(encrypted, padded)
	return encrypted
'''
DEC='''	decrypted := make([]byte, len(b))
	this.blockMode.CryptBlocks(decrypted, b)
	return PKCS7Unpadding(decrypted)
'''
ref('inplace-own',['C15'],[(A,ENC,'''	padded := PKCS7Padding(b, this.blockSize)
	this.blockMode.CryptBlocks(padded, padded)
	return padded
''')])
ref('helper',['C15'],[(A,ENC,'''	return this.crypt(PKCS7Padding(b, this.blockSize))
'''),(A,'','''
func (this *AESEncrypter) crypt(p []byte) []byte {
	out := make([]byte, len(p))
	this.blockMode.CryptBlocks(out, p)
	return out
}
''')])
ref('strviabytes',['C15'],[(A,'''	padded := PKCS7PaddingString(str, this.blockSize)
	encrypted := make([]byte, len(padded))
	this.blockMode.CryptBlocks(encrypted, padded)
	return encrypted
''','''	return this.Encrypt([]byte(str))
''')])
ref('bs',['C15'],[(A,'''	if len(b)%this.blockSize != 0 {
		return nil
	}
''','''	if rem := len(b) % this.blockMode.BlockSize(); rem > 0 {
		return nil
	}
''')])
ref('loopblocks',['C15'],[(A,DEC,'''	decrypted := append([]byte(nil), b...)
	this.blockMode.CryptBlocks(decrypted, decrypted)
	return PKCS7Unpadding(decrypted)
''')])
ref('ivcopy',['C15'],[(A,'''	blockMode := cipher.NewCBCEncrypter(block, key[:blockSize])
''','''	iv := make([]byte, blockSize)
	copy(iv, key)
	blockMode := cipher.NewCBCEncrypter(block, iv)
''')])
bad('iv',['C15'],[(A,'''	blockMode := cipher.NewCBCDecrypter(block, key[:blockSize])
''','''	blockMode := cipher.NewCBCDecrypter(block, key[len(key)-blockSize:])
''')])
bad('inplace',['C15'],[(A,DEC,'''	this.blockMode.CryptBlocks(b, b)
	return PKCS7Unpadding(append([]byte(nil), b...))
''')])
bad('nocheck',['C15'],[(A,'''	if len(b)%this.blockSize != 0 {
		return nil
	}
''','')])
bad('twice',['C15'],[(A,ENC,'''	padded := PKCS7Padding(b, this.blockSize)
	encrypted := make([]byte, len(padded))
	if len(padded) > 4096 {
		this.blockMode.CryptBlocks(encrypted, padded[:len(padded)-16])
		this.blockMode.CryptBlocks(encrypted, padded)
	} else {
		this.blockMode.CryptBlocks(encrypted, padded)
	}
	return encrypted
''')])
bad('errobj',['C15'],[(A,'''	block, err := aes.NewCipher(key)
	if err != nil {
		return nil, err
	}
	blockSize := block.BlockSize()
	blockMode := cipher.NewCBCDecrypter''','''	block, err := aes.NewCipher(key)
	if err != nil {
		return &AESDecrypter{}, err
	}
	blockSize := block.BlockSize()
	blockMode := cipher.NewCBCDecrypter''')])
bad('drop',['C15'],[(A,'''	if len(b)%this.blockSize != 0 {
		return nil
	}
''','''	if len(b)%this.blockSize != 0 || len(b) > 65536 {
		return nil
	}
''')])
