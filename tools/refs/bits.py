A='math/bits_bytes.go'; D='math/bool.go'
C=['C11']
def r(name,*ch): ref(name,C,[(A,)+c for c in ch])
def b(name,*ch): bad(name,C,[(A,)+c for c in ch])
BIT='(_val & (1 << _idx)) >> _idx'
r('shift-mask',(BIT,'(_val >> _idx) & 1'),('(_val & (0xFF << bits)) >> bits','(_val >> bits) & 0xFF'),('(_val & (0xFFFF << bits)) >> bits','_val >> bits & 0xFFFF'))
r('conv',('(_val & (0xFF << bits)) >> bits','uint32(byte(_val >> bits))'),('(_val & (0xFFFF << bits)) >> bits','uint32(uint16(_val >> bits))'))
r('if',('		r := '+BIT+'\n','		var r uint32\n		if _val&(1<<_idx) != 0 {\n			r = 1\n		}\n'))
r('div',(BIT,'_val / (1 << _idx) % 2'))
r('switch',('''		bits := _idx * 8
		r := (_val & (0xFF << bits)) >> bits
		return r, nil
''','''		var r uint32
		switch _idx {
		case 0:
			r = _val
		case 1:
			r = _val >> 8
		case 2:
			r = _val >> 16
		default:
			r = _val >> 24
		}
		return r & 0xFF, nil
'''))
r('word-shl',('(_val & (0xFFFF << bits)) >> bits','(_val << (16 - bits)) >> 16'))
r('idx-shl',('bits := _idx * 8','bits := _idx << 3'))
r('loop',('''		bits := _idx * 8
		r := (_val & (0xFF << bits)) >> bits
		return r, nil
''','''		for ; _idx > 0; _idx-- {
			_val >>= 8
		}
		return _val & 0xFF, nil
'''))
r('early',('''	if _check_bit(_idx) {
		r := '''+BIT+'''
		return r, nil
	}
	return 0, fmt.Errorf("GetBit(%d,%d) bit index not in range", _val, _idx)
''','''	if !_check_bit(_idx) {
		return 0, fmt.Errorf("GetBit(%d,%d) bit index not in range", _val, _idx)
	}
	return '''+BIT+''', nil
'''))
r('bytes',('''		bits := _idx * 16
		r := (_val & (0xFFFF << bits)) >> bits
		return r, nil
''','''		lo, _ := GetByte(_val, _idx*2)
		hi, _ := GetByte(_val, _idx*2+1)
		return hi<<8 | lo, nil
'''))
b('le',('_idx < 32','_idx <= 32'))
b('word-last',('0xFFFF << bits','0x7FFF << bits'))
b('byte-idx',('_idx < 4','_idx < 5'))
b('sign',(BIT,'uint32(int32(_val&(1<<_idx)) >> _idx)'))
b('neg',('_idx < 2','_idx <= 1 || _idx == 1<<31'))
ref('b-switch',C,[(D,'''	if bool(me) {
		i = 1
	}
	return
''','''	switch me {
	case true:
		return 1
	}
	return 0
''')])
ref('b-not',C,[(D,'	return i != 0\n','	return !(i == 0)\n')])
bad('b-pos',C,[(D,'	return i != 0\n','	return i > 0\n')])
bad('b-and',C,[(D,'	return i != 0\n','	return int32(i) != 0\n')])
