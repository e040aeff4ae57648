F='crypto/ecb/ecb.go'
src=open('/repo/'+F).read()
encLoop='''	for len(origData) > 0 {
		block.Encrypt(dst, origData[:bs])
		origData = origData[bs:]
		dst = dst[bs:]
	}
'''
decLoop='''	for len(crypted) > 0 {
		block.Decrypt(dst, crypted[:bs])
		crypted = crypted[bs:]
		dst = dst[bs:]
	}
'''
P=['C31','C25']
ref('e-index',P,[(F,encLoop,'''	for i := 0; i < len(origData); i += bs {
		block.Encrypt(dst[i:], origData[i:i+bs])
	}
''')])
ref('e-index2',P,[(F,decLoop,'''	for i, n := 0, len(crypted); i+bs <= n; i += bs {
		block.Decrypt(dst[i:i+bs], crypted[i:i+bs])
	}
''')])
ref('e-count',P,[(F,decLoop,'''	for k := 0; k < len(crypted)/bs; k++ {
		block.Decrypt(dst[k*bs:], crypted[k*bs:])
	}
''')])
ref('e-inplace',P,[(F,encLoop,'''	copy(dst, origData)
	for i := 0; i < len(dst); i += bs {
		block.Encrypt(dst[i:i+bs], dst[i:i+bs])
	}
''')])
ref('e-triple',P,[(F,src[src.index('	k1 := tkey[:8]'):src.index('// 3DES解密')],'''	block, err := des.NewTripleDESCipher(tkey)
	if err != nil {
		return nil, err
	}
	bs := block.BlockSize()
	in := crypto.ZeroPadding(origData, bs)
	out := make([]byte, len(in))
	for i := 0; i < len(in); i += bs {
		block.Encrypt(out[i:i+bs], in[i:i+bs])
	}
	return out, nil
}

''')])
ref('e-keys',P,[(F,'''func TripleDesDecrypt(crypted, key []byte) ([]byte, error) {
	tkey := make([]byte, 24, 24)
	copy(tkey, key)
	k1 := tkey[:8]
	k2 := tkey[8:16]
	k3 := tkey[16:]
''','''func TripleDesDecrypt(crypted, key []byte) ([]byte, error) {
	var tkey [24]byte
	copy(tkey[:], key)
	k1, k2, k3 := tkey[:8], tkey[8:16], tkey[16:]
''')])
ref('e-helper',P,[(F,encLoop,'''	each(dst, origData, bs, block.Encrypt)
'''),(F,decLoop,'''	each(dst, crypted, bs, block.Decrypt)
'''),(F,'//Des加密\n','''func each(dst, src []byte, bs int, f func(dst, src []byte)) {
	for len(src) > 0 {
		f(dst, src[:bs])
		src, dst = src[bs:], dst[bs:]
	}
}

//Des加密
''')])
ref('e-check',P,[(F,'	if len(crypted) < 1 || len(key) < 1 {','	if len(crypted) == 0 {')])
ref('e-early',P,[(F,'''	k3 := tkey[16:]
	buf1, err := decrypt(crypted, k3)
''','''	k3 := tkey[16:]
	if len(crypted) == 0 || len(crypted)%des.BlockSize != 0 {
		return nil, errors.New("wrong crypted size")
	}
	buf1, err := decrypt(crypted, k3)
''')])
ref('e-loop',P,[(F,src[src.index('	buf1, err := decrypt(crypted, k3)'):src.index('	out = crypto.ZeroUnPadding(out)')],'''	out := crypted
	for _, s := range []struct {
		f func(data, key []byte) ([]byte, error)
		k []byte
	}{{decrypt, k3}, {encrypt, k2}, {decrypt, k1}} {
		var err error
		if out, err = s.f(out, s.k); err != nil {
			return nil, err
		}
	}
''')])
ref('e-perblock',P,[(F,src[src.index('	buf1, err := decrypt(crypted, k3)'):src.index('	out = crypto.ZeroUnPadding(out)')],'''	if len(crypted) == 0 || len(crypted)%8 != 0 {
		return nil, errors.New("wrong crypted size")
	}
	c1, err := des.NewCipher(k1)
	if err != nil {
		return nil, err
	}
	c2, err := des.NewCipher(k2)
	if err != nil {
		return nil, err
	}
	c3, err := des.NewCipher(k3)
	if err != nil {
		return nil, err
	}
	out := make([]byte, len(crypted))
	for i := 0; i < len(crypted); i += 8 {
		b := out[i : i+8]
		c3.Decrypt(b, crypted[i:i+8])
		c2.Encrypt(b, b)
		c1.Decrypt(b, b)
	}
''')])
bad('b-order',['C31'],[(F,'	buf1, err := decrypt(crypted, k3)','	buf1, err := decrypt(crypted, k1)'),(F,'	out, err := decrypt(buf2, k1)','	out, err := decrypt(buf2, k3)')])
bad('b-k2',['C31'],[(F,'	buf2, err := decrypt(buf1, k2)','	buf2, err := encrypt(buf1, k2)')])
bad('b-size',['C31'],[(F,'''	if len(crypted)%bs != 0 {
		return nil, errors.New("wrong crypted size")
	}
''','')])
bad('b-keylen',['C31'],[(F,'''	copy(tkey, key)
	k1 := tkey[:8]
	k2 := tkey[8:16]
	k3 := tkey[16:]

''','''	copy(tkey, key)
	if len(key) == 16 {
		copy(tkey[16:], key[:8])
	}
	k1 := tkey[:8]
	k2 := tkey[8:16]
	k3 := tkey[16:]

''')])
bad('b-last',['C31'],[(F,encLoop,encLoop.replace('len(origData) > 0','len(origData) > bs'))])
bad('b-nopad',['C31'],[(F,'	origData = crypto.ZeroPadding(origData, bs)','	if len(origData)%bs != 0 {\n		origData = crypto.ZeroPadding(origData, bs)\n	}')])
bad('b-unpad',['C31'],[(F,'	out = crypto.ZeroUnPadding(out)','	out = crypto.PKCS5UnPadding(out)')])
bad('b-unpad2',['C31'],[(F,'	out = crypto.ZeroUnPadding(out)\n','	if n := len(out); out[n-1] == 0 {\n		out = crypto.ZeroUnPadding(out[:n-1])\n		out = out[:len(out):len(out)]\n	} else {\n		out = out[:n-1]\n	}\n')])
bad('b-chain',['C31'],[(F,encLoop,'''	for i := 0; i < len(origData); i += bs {
		if i > 0 {
			for j := 0; j < bs; j++ {
				origData[i+j] ^= dst[i-bs+j]
			}
		}
		block.Encrypt(dst[i:], origData[i:i+bs])
	}
''')])
bad('b-err',['C31'],[(F,'''	buf1, err := decrypt(crypted, k3)
	if err != nil {
		return nil, err
	}
''','''	buf1, err := decrypt(crypted, k3)
	if err != nil {
		return nil, nil
	}
''')])
bad('b-inplace',['C31'],[(F,'''	out := make([]byte, len(crypted))
	dst := out
''','''	out := crypted
	dst := out
''')])
