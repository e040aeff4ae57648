F='unsafe/string.go'
SB='''	bh := (*reflect.SliceHeader)(unsafe.Pointer(&b))
	sh := (*reflect.StringHeader)(unsafe.Pointer(&s))
	bh.Data, bh.Len, bh.Cap = sh.Data, sh.Len, sh.Len
	return b
'''
BS='	return *(*String)(unsafe.Pointer(&b))\n'
SP='''	p := (*reflect.StringHeader)(unsafe.Pointer(&s))
	return Pointer(p.Data)
'''
BP='''	p := (*reflect.SliceHeader)(unsafe.Pointer(&b))
	return Pointer(p.Data)
'''
C=['C20']
ref('modern',C,[(F,SB,'	return unsafe.Slice(unsafe.StringData(s), len(s))\n'),(F,BS,'	return String(unsafe.String(unsafe.SliceData(b), len(b)))\n'),(F,SP,'	return Pointer(unsafe.StringData(s))\n'),(F,BP,'	return Pointer(unsafe.SliceData(b))\n'),(F,'	"reflect"\n','')])
ref('words',C,[(F,SB,'''	w := (*[3]uintptr)(unsafe.Pointer(&b))
	x := (*[2]uintptr)(unsafe.Pointer(&s))
	w[0] = x[0]
	w[1], w[2] = x[1], x[1]
	return
'''),(F,SP,'	return *(*Pointer)(unsafe.Pointer(&s))\n'),(F,BP,'	return *(*Pointer)(unsafe.Pointer(&b))\n'),(F,'	"reflect"\n','')])
ref('local',C,[(F,SB,'''	sh := (*reflect.StringHeader)(unsafe.Pointer(&s))
	var out []byte
	bh := (*reflect.SliceHeader)(unsafe.Pointer(&out))
	bh.Data = sh.Data
	bh.Len = sh.Len
	bh.Cap = bh.Len
	return Bytes(out)
''')])
ref('struct',C,[(F,SB,'''	type str struct {
		p unsafe.Pointer
		n int
	}
	x := (*str)(unsafe.Pointer(&s))
	y := struct {
		p    unsafe.Pointer
		n, c int
	}{x.p, x.n, x.n}
	return *(*Bytes)(unsafe.Pointer(&y))
''')])
ref('write-shared',C,[(F,'''	addr := uintptr(BytesPointer(me))
	return addr >= firstPointer
''','''	return Writeable(BytesPointer(me))
'''),(F,'''	p := uintptr(StringPointer(string(me)))
	return p >= firstPointer
''','''	return Writeable(me.Pointer())
'''),(F,'''	addr := uintptr(ptr)
	return addr >= firstPointer
''','''	if uintptr(ptr) < firstPointer {
		return false
	}
	return true
''')])
ref('nilcheck',C,[(F,BP,'''	if b == nil {
		return nil
	}
'''+BP)])
ref('data3',C,[(F,SB,'''	b = *(*Bytes)(unsafe.Pointer(&struct {
		string
		int
	}{s, len(s)}))
	return b
''')])
bad('header-lit',C,[(F,SB,'''	sh := (*reflect.StringHeader)(unsafe.Pointer(&s))
	bh := reflect.SliceHeader{Data: sh.Data, Len: sh.Len, Cap: sh.Len}
	return *(*Bytes)(unsafe.Pointer(&bh))
''')])
bad('cap',C,[(F,'bh.Data, bh.Len, bh.Cap = sh.Data, sh.Len, sh.Len','bh.Data, bh.Len, bh.Cap = sh.Data, sh.Len, (sh.Len+7)&^7')])
bad('nocap',C,[(F,'bh.Data, bh.Len, bh.Cap = sh.Data, sh.Len, sh.Len','bh.Data, bh.Len = sh.Data, sh.Len')])
bad('pun',C,[(F,SB,'	return *(*Bytes)(unsafe.Pointer(&s))\n')])
bad('copy',C,[(F,BS,'	if len(b) == 0 {\n		return String(b)\n	}\n	return *(*String)(unsafe.Pointer(&b))\n')])
bad('copy2',C,[(F,SB,'	return Bytes(s)\n'),(F,'	p := (*reflect.StringHeader)(unsafe.Pointer(&s))\n	return Pointer(p.Data)\n','	return *(*Pointer)(unsafe.Pointer(&s))\n')])
bad('gt',C,[(F,'	p := uintptr(StringPointer(string(me)))\n	return p >= firstPointer\n','	p := uintptr(StringPointer(string(me)))\n	return p > firstPointer\n')])
bad('wrongptr',C,[(F,BP,'	return Pointer(unsafe.Pointer(&b))\n')])
bad('index',C,[(F,BP,'	return Pointer(unsafe.Pointer(&b[0]))\n')])
bad('uintcall',C,[(F,SP,'''	return Pointer(addr(s))
'''),(F,'// returns &b[0]','''func addr(s string) uintptr {
	return (*reflect.StringHeader)(unsafe.Pointer(&s)).Data
}

// returns &b[0]''')])
