C='crypto/rsa/code.go'; F='crypto/rsa/rsa.go'
src=open('/repo/'+C).read(); rs=open('/repo/'+F).read()
P=['C32','C25']
def body(s,name):
    i=s.index('func '+name+'('); j=s.index('\n}\n',i) if '\n}\n' in s[i:] else len(s)-2
    return s[i:j+3]
ref('c-encstr',P,[(C,body(src,'EncodeString'),'''func EncodeString(src string) string {
	return Encode([]byte(src))
}
''')])
ref('c-decstr',P,[(C,body(src,'DecodeString'),'''func DecodeString(src string) string {
	return string(Decode(src))
}
''')])
ref('c-hashstr',P,[(C,body(src,'HashString'),'''func HashString(str string) string {
	return hex.EncodeToString(Hash([]byte(str)))
}
''')])
ref('c-hash',P,[(C,body(src,'Hash'),'''func Hash(src []byte) []byte {
	var buf []byte
	for i := 5; i > 0; i-- {
		buf = append(append(append(buf, key...), src...), key...)
	}
	sum := sha512.Sum512(buf)
	return sum[:]
}
''')])
ref('c-hash2',P,[(C,body(src,'Hash'),'''func Hash(src []byte) []byte {
	h := sha512.New()
	round := func() {
		for _, part := range [][]byte{key, src, key} {
			h.Write(part)
		}
	}
	for i := 0; i < 5; i++ {
		round()
	}
	return h.Sum(nil)
}
''')])
ref('c-named',P,[(C,body(src,'Decode'),'''func Decode(src string) (content []byte) {
	c, err := base64.StdEncoding.DecodeString(src)
	if err == nil {
		if content, err = ecb.TripleDesDecrypt(c, key); err == nil {
			return content
		}
	}
	return nil
}
''')])
ref('c-hex',P,[(C,'	if b, err := hex.DecodeString(s); err == nil {\n		return b\n	}\n	return nil\n','	b, err := hex.DecodeString(s)\n	if err != nil {\n		return nil\n	}\n	return b\n')])
ref('r-digest',P,[(F,body(rs,'(this *RsaServer) Sign'),'''func (this *RsaServer) Sign(src []byte, hash crypto.Hash) ([]byte, error) {
	return rsa.SignPKCS1v15(rand.Reader, this.privateKey, hash, digest(src, hash))
}

func digest(src []byte, hash crypto.Hash) []byte {
	h := hash.New()
	h.Write(src)
	return h.Sum(nil)
}
'''),(F,'''	h := hash.New()
	h.Write(src)
	hashed := h.Sum(nil)
	return rsa.VerifyPKCS1v15(this.publicKey, hash, hashed, sign)
''','''	return rsa.VerifyPKCS1v15(this.publicKey, hash, digest(src, hash), sign)
''')])
ref('r-nilrand',P,[(F,'	return rsa.DecryptPKCS1v15(rand.Reader,','	return rsa.DecryptPKCS1v15(nil,')])
ref('r-err',P,[(F,'''	return rsa.EncryptPKCS1v15(rand.Reader, this.publicKey, plaintext)
''','''	out, err := rsa.EncryptPKCS1v15(rand.Reader, this.publicKey, plaintext)
	if err != nil {
		return nil, err
	}
	return out, nil
''')])
ref('r-must',P,[(F,'''	s, err := NewServer(privateKey)
	if err != nil {
		panic(err)
	}
	return s
''','''	if s, err := NewServer(privateKey); err == nil {
		return s
	} else {
		panic(err)
	}
''')])
ref('r-parse',P,[(F,'	pub, ok := pubInterface.(*rsa.PublicKey)\n	if !ok {\n		return nil, errPublicKey\n	}\n	c := &RsaClient{publicKey: pub}\n	return c, nil\n','	switch pub := pubInterface.(type) {\n	case *rsa.PublicKey:\n		return &RsaClient{publicKey: pub}, nil\n	default:\n		return nil, errPublicKey\n	}\n')])
gen=body(rs+'\n','GenRsaKeys') if rs.endswith('}') else body(rs,'GenRsaKeys')
ref('r-gen',P,[(F,rs[rs.index('	derStream := x509'):rs.rindex('	return\n')],'''	privateKey = pem.EncodeToMemory(&pem.Block{Type: "private key", Bytes: x509.MarshalPKCS1PrivateKey(priKey)})
	derPkix, err := x509.MarshalPKIXPublicKey(priKey.Public())
	if err != nil {
		return nil, nil, err
	}
	publicKey = pem.EncodeToMemory(&pem.Block{Type: "public key", Bytes: derPkix})
'''),(F,'	"bytes"\n','')])
ref('r-gen2',P,[(F,rs[rs.index('	derStream := x509'):rs.rindex('	return\n')],'''	if privateKey, err = armour("private key", x509.MarshalPKCS1PrivateKey(priKey)); err != nil {
		return nil, nil, err
	}
	derPkix, err := x509.MarshalPKIXPublicKey(&priKey.PublicKey)
	if err != nil {
		return nil, nil, err
	}
	if publicKey, err = armour("public key", derPkix); err != nil {
		return nil, nil, err
	}
'''),(F,'func GenRsaKeys(','''func armour(kind string, der []byte) ([]byte, error) {
	buf := new(bytes.Buffer)
	if err := pem.Encode(buf, &pem.Block{Type: kind, Bytes: der}); err != nil {
		return nil, err
	}
	return buf.Bytes(), nil
}

func GenRsaKeys(''')])
B=['C32']
bad('b-url',B,[(C,body(src,'Encode'),body(src,'Encode').replace('StdEncoding','URLEncoding'))])
bad('b-rounds',B,[(C,body(src,'Hash'),body(src,'Hash').replace('i < 5','i < 4'))])
bad('b-hashstr',B,[(C,body(src,'HashString'),body(src,'HashString').replace('		h.Write([]byte(str))\n		h.Write(key)\n','		h.Write([]byte(str))\n'))])
bad('b-decerr',B,[(C,body(src,'Decode'),body(src,'Decode').replace('''	if err != nil {
		return nil
	}
	content''','''	if err != nil && len(c) == 0 {
		return nil
	}
	content'''))])
bad('b-key',B,[(C,body(src,'Encode'),body(src,'Encode').replace(', key)',', key[:16])'))])
bad('b-keywrite',B,[(C,body(src,'Hash'),body(src,'Hash').replace('	return h','	key[0] ^= 0\n	key = append(key, 0)\n	return h'))])
bad('b-default',B,[(F,'	return this.Sign(src, defaultHash)','	return this.Sign(src, crypto.SHA256)')])
bad('b-verify',B,[(F,'	return this.Verify(src, sign, defaultHash)','	if len(sign) == 0 {\n		return nil\n	}\n	return this.Verify(src, sign, defaultHash)')])
bad('b-verify2',B,[(F,'	return rsa.VerifyPKCS1v15(this.publicKey, hash, hashed, sign)','	return rsa.VerifyPKCS1v15(this.publicKey, 0, hashed, sign)')])
bad('b-hash',B,[(F,'	return rsa.SignPKCS1v15(rand.Reader, this.privateKey, hash, hashed)','	return rsa.SignPKCS1v15(rand.Reader, this.privateKey, hash, hashed[:len(hashed)-1])')])
bad('b-rand',B,[(F,'rsa.EncryptPKCS1v15(rand.Reader, this','rsa.EncryptPKCS1v15(bytes.NewReader(make([]byte, 4096)), this')])
bad('b-assert',B,[(F,'	pub, ok := pubInterface.(*rsa.PublicKey)\n	if !ok {\n		return nil, errPublicKey\n	}\n','	pub := pubInterface.(*rsa.PublicKey)\n')])
bad('b-assert2',B,[(F,'	if !ok {\n		return nil, errPublicKey\n	}\n	c :=','	if !ok {\n		return nil, nil\n	}\n	c :=')])
bad('b-pemnil',B,[(F,'	if block == nil {\n		return nil, errPrivateKey\n	}\n','')])
bad('b-generr',B,[(F,'''	derPkix, err := x509.MarshalPKIXPublicKey(pubKey)
	if err != nil {
		return nil, nil, err
	}
''','''	derPkix, err := x509.MarshalPKIXPublicKey(pubKey)
''')])
bad('b-genbuf',B,[(F,'	err = pem.Encode(&bufPub, block)','	err = pem.Encode(&bufPri, block)'),(F,'	publicKey = bufPub.Bytes()','	publicKey = bufPri.Bytes()'),(F,'	var bufPub bytes.Buffer\n','')])
bad('b-genbits',B,[(F,'rsa.GenerateKey(rand.Reader, bits)','rsa.GenerateKey(rand.Reader, bits&^7)')])
DG='''	h := hash.New()
	h.Write(src)
	hashed := h.Sum(nil)
'''
ref('r-digest',['C32','C25'],[(F,DG+'	return rsa.Sign','	hashed := digest(src, hash)\n	return rsa.Sign'),(F,DG+'	return rsa.Verify','	hashed := digest(src, hash)\n	return rsa.Verify'),(F,'func GenRsaKeys','''// digest is the hash of the data
func digest(src []byte, hash crypto.Hash) []byte {
	h := hash.New()
	_, _ = h.Write(src)
	return h.Sum(make([]byte, 0, hash.Size()))
}

func GenRsaKeys''')])
ref('r-digest2',['C32','C25'],[(F,DG+'	return rsa.Sign','''	h := hash.New()
	if _, err := h.Write(src); err != nil {
		return nil, err
	}
	var hashed []byte
	hashed = h.Sum(hashed)
	return rsa.Sign'''),(F,DG+'	return rsa.Verify','''	h := hash.New()
	if _, err := h.Write(src); err != nil {
		return err
	}
	hashed := make([]byte, 0, h.Size())
	hashed = h.Sum(hashed)
	return rsa.Verify''')])
ref('r-signsig',['C32'],[(F,'	return rsa.SignPKCS1v15(rand.Reader, this.privateKey, hash, hashed)','''	sig, err := rsa.SignPKCS1v15(rand.Reader, this.privateKey, hash, hashed)
	if err != nil {
		return nil, err
	}
	return sig, nil''')])
ref('r-vsize',['C32'],[(F,'	return rsa.VerifyPKCS1v15(this.publicKey, hash, hashed, sign)','''	key := this.publicKey
	if len(sign) != key.Size() {
		_ = sign
	}
	return rsa.VerifyPKCS1v15(key, hash, hashed, sign)''')])
