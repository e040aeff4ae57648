H='package main\nimport ("fmt";"os";%s)\nfunc no(x ...interface{}){ fmt.Println(x...); os.Exit(1) }\nvar _ = fmt.Sprint\n'
def s(id,prop,edits,imports,body,needs,breaks): seed(id,prop,edits,H%imports+body,needs,breaks)
EC='"github.com/vipally/gx/crypto/ecb"'
F='crypto/ecb/ecb.go'
P='crypto/rsa/'
REF='''func ref(m,key []byte) []byte {
	k:=make([]byte,24); copy(k,key)
	c,err:=des.NewTripleDESCipher(k)
	if err!=nil { no(err) }
	p:=append(append([]byte{},m...),make([]byte,8-len(m)%8)...)
	out:=make([]byte,len(p))
	for i:=0;i<len(p);i+=8 { c.Encrypt(out[i:],p[i:i+8]) }
	return out
}
'''
s('c31-two-key','C31',[(F,'''	k3 := tkey[16:]

''','''	k3 := tkey[16:]
	if len(key) <= 16 {
		k3 = k1
	}

'''),(F,'''	k3 := tkey[16:]
	buf1, err := decrypt(crypted, k3)
''','''	k3 := tkey[16:]
	if len(key) <= 16 {
		k3 = k1
	}
	buf1, err := decrypt(crypted, k3)
''')],EC+';"crypto/des";"bytes"',REF+'''func main(){
	for n:=0;n<40;n++ { for l:=0;l<30;l++ {
		key:=bytes.Repeat([]byte{0x5a},n); for i:=range key { key[i]+=byte(i*7) }
		m:=bytes.Repeat([]byte{3},l)
		e,err:=ecb.TripleDesEncrypt(m,key)
		if err!=nil||!bytes.Equal(e,ref(m,key)) { no(n,l,e,ref(m,key)) }
		d,err:=ecb.TripleDesDecrypt(e,key)
		if err!=nil||!bytes.Equal(d,m) { no("round trip",n,l) }
	} }
}
''','a key of 16 bytes or less (the data still comes back through both changed sites)','short keys are extended by repeating their first third and not by zeros: what was encrypted before can no longer be read')
s('c31-inplace','C31',[(F,'''	out := make([]byte, len(crypted))
	dst := out
	bs := block.BlockSize()
''','''	out := crypted
	dst := out
	bs := block.BlockSize()
''')],EC+';"crypto/des";"bytes"',REF+'''func main(){
	key:=[]byte("0123456789abcdefghijklmn")
	for l:=0;l<30;l++ {
		m:=bytes.Repeat([]byte{3},l)
		e,err:=ecb.TripleDesEncrypt(m,key)
		if err!=nil||!bytes.Equal(e,ref(m,key)) { no(l) }
		for i:=0;i<2;i++ {
			d,err:=ecb.TripleDesDecrypt(e,key)
			if err!=nil||!bytes.Equal(d,m) { no("round trip",i,l) }
		}
		if !bytes.Equal(e,ref(m,key)) { no("buffer changed") }
	}
}
''','the encrypted buffer is used again after it was decrypted once','decryption overwrites the buffer of its caller')
s('c31-short-tail','C31',[(F,'''	out := make([]byte, len(crypted))
	dst := out
	bs := block.BlockSize()
	if len(crypted)%bs != 0 {
		return nil, errors.New("wrong crypted size")
	}

	for len(crypted) > 0 {
''','''	bs := block.BlockSize()
	out := make([]byte, len(crypted)/bs*bs)
	dst := out
	if len(crypted) < bs {
		return nil, errors.New("wrong crypted size")
	}

	for len(crypted) >= bs {
''')],EC+';"bytes"','''func main(){
	key:=[]byte("0123456789abcdefghijklmn")
	for l:=0;l<60;l++ {
		d,err:=ecb.TripleDesDecrypt(bytes.Repeat([]byte{9},l),key)
		if bad:=l==0||l%8!=0; bad!=(err!=nil) || bad && d!=nil { no(l,d,err) }
	}
}
''','an encrypted message that was cut short in the middle of a later block','a damaged message is decrypted in part without an error')
RS='g "github.com/vipally/gx/crypto/rsa"'
s('c32-decode-partial','C32',[(P+'code.go','''	content, err := ecb.TripleDesDecrypt(c, key)
	if err != nil {
		return ""
	}
	return string(content)
''','''	content, err := ecb.TripleDesDecrypt(c, key)
	if err != nil {
		return src
	}
	return string(content)
''')],RS+';"encoding/base64"','''func main(){
	for _,x:=range []string{"","a","hello, world","0123456789abcdef"} { if y:=g.DecodeString(g.EncodeString(x)); y!=x { no(x,y) } }
	for l:=0;l<40;l++ { t:=base64.StdEncoding.EncodeToString(make([]byte,l)); if l%8!=0 { if y:=g.DecodeString(t); y!="" { no(t,y) } } }
	if y:=g.DecodeString("***"); y!="" { no(y) }
}
''','a text that is correct base64 but not whole cipher blocks','malformed text comes back as if it were the decoded text')
s('c32-hash-round','C32',[(P+'code.go','''		h.Write([]byte(str))
		h.Write(key)
''','''		h.Write([]byte(str))
		if len(str) > 0 {
			h.Write(key)
		}
''')],RS+';"encoding/hex"','''func main(){
	for _,x:=range []string{"a","abc","","0123456789abcdef"} { if a,b:=g.HashString(x),hex.EncodeToString(g.Hash([]byte(x))); a!=b { no(x,a,b) } }
}
''','the hash of an empty text','HashString and Hash disagree for the empty text')
s('c32-sign-prehashed','C32',[(P+'rsa.go','''	h := hash.New()
	h.Write(src)
	hashed := h.Sum(nil)
	return rsa.SignPKCS1v15(rand.Reader, this.privateKey, hash, hashed)
''','''	h := hash.New()
	h.Write(src)
	hashed := h.Sum(nil)
	if len(src) == hash.Size() {
		hashed = src
	}
	return rsa.SignPKCS1v15(rand.Reader, this.privateKey, hash, hashed)
'''),(P+'rsa.go','''	h := hash.New()
	h.Write(src)
	hashed := h.Sum(nil)
	return rsa.VerifyPKCS1v15(this.publicKey, hash, hashed, sign)
''','''	h := hash.New()
	h.Write(src)
	hashed := h.Sum(nil)
	if len(src) == hash.Size() {
		hashed = src
	}
	return rsa.VerifyPKCS1v15(this.publicKey, hash, hashed, sign)
''')],RS+';"crypto/sha512";"bytes"','''func main(){
	pri,pub,err:=g.GenRsaKeys(2048)
	if err!=nil { no(err) }
	sv,c:=g.MustNewServer(pri),g.MustNewClient(pub)
	for l:=60;l<70;l++ {
		m:=bytes.Repeat([]byte{7},l)
		sg,err:=sv.SignDefault(m)
		if err!=nil { no(err) }
		if err:=c.VerifyDefault(m,sg); err!=nil { no(err) }
		d:=sha512.Sum512(m)
		if c.VerifyDefault(d[:],sg)==nil { no("the signature of a message passes for its digest",l) }
	}
}
''','a message that is exactly as long as a digest, such as the digest of a signed message','a signature is accepted for a second message')
s('c32-verify-long','C32',[(P+'rsa.go','''	hashed := h.Sum(nil)
	return rsa.VerifyPKCS1v15(this.publicKey, hash, hashed, sign)
''','''	hashed := h.Sum(nil)
	if n := this.publicKey.Size(); len(sign) > n {
		sign = sign[len(sign)-n:]
	}
	return rsa.VerifyPKCS1v15(this.publicKey, hash, hashed, sign)
''')],RS,'''func main(){
	pri,pub,err:=g.GenRsaKeys(2048)
	if err!=nil { no(err) }
	sv,c:=g.MustNewServer(pri),g.MustNewClient(pub)
	m:=[]byte("message")
	sg,err:=sv.SignDefault(m)
	if err!=nil { no(err) }
	if err:=c.VerifyDefault(m,sg); err!=nil { no(err) }
	if c.VerifyDefault(m,append([]byte{1},sg...))==nil { no("altered signature accepted") }
}
''','a signature with further bytes in front of it','an altered signature is accepted')
