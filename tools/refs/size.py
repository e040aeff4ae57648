F='fs/file_size.go'
A=['C37','C25']
B='''	m64 := uint64(me)
	i, b := 0, uint64(0)
	for ; i < len(bytesNames); i, b = i+1, b+kBits {
		if (m64 >> b) < kb {
			break
		}
	}
	m := 1 << b
	d := float64(me) / float64(m)
	return fmt.Sprintf("%.3f%s", d, bytesNames[i])
'''
def r(n,new): ref(n,A,[(F,B,new)])
def b(n,new): bad(n,['C37'],[(F,B,new)])
r('shift','''	i := 0
	for n := uint64(me); n >= kb && i < len(bytesNames)-1; n >>= kBits {
		i++
	}
	return fmt.Sprintf("%.3f%s", float64(me)/float64(uint64(1)<<(uint(i)*kBits)), bytesNames[i])
''')
r('unit','''	i, unit := 0, uint64(1)
	for uint64(me)/unit >= kb {
		i++
		unit *= kb
	}
	return fmt.Sprintf("%.3f", float64(me)/float64(unit)) + bytesNames[i]
''')
r('div','''	d := float64(me)
	i := 0
	for n := uint64(me); n >= kb; n /= kb {
		d /= kb
		i++
	}
	return fmt.Sprintf("%.3f%s", d, bytesNames[i])
''')
r('strconv','''	i, b := 0, uint(0)
	for uint64(me)>>b >= kb {
		i, b = i+1, b+kBits
	}
	return fmt.Sprintf("%.3f%v", float64(me)/float64(uint64(1)<<b), bytesNames[i])
''')
r('switch','''	n, u := float64(me), ""
	switch {
	case me < 1<<10:
		u = "B"
	case me < 1<<20:
		n, u = n/(1<<10), "KB"
	case me < 1<<30:
		n, u = n/(1<<20), "MB"
	case me < 1<<40:
		n, u = n/(1<<30), "GB"
	case me < 1<<50:
		n, u = n/(1<<40), "TB"
	case me < 1<<60:
		n, u = n/(1<<50), "PB"
	default:
		n, u = n/(1<<60), "EB"
	}
	return fmt.Sprintf("%.3f%s", n, u)
''')
r('helper','''	i, b := unitOf(uint64(me))
	return fmt.Sprintf("%.3f%s", float64(me)/float64(uint64(1)<<b), bytesNames[i])
}

func unitOf(n uint64) (i int, b uint) {
	for n>>b >= kb {
		i++
		b += kBits
	}
	return
''')
b('le',B.replace('< kb {','<= kb {'))
b('int',B.replace('float64(me) / float64(m)','float64(int64(me)) / float64(m)'))
b('int32',B.replace('1 << b','int(int32(1) << b)'))
b('trunc',B.replace('float64(me) / float64(m)','float64(m64 / uint64(m))'))
b('f32',B.replace('float64(me) / float64(m)','float64(float32(me)) / float64(m)'))
b('names',B.replace('i < len(bytesNames);','i < len(bytesNames)-2;'))
bad('tbl',['C37'],[(F,'"PB", "EB"}','"EB", "PB"}')])
bad('set',['C37'],[(F,'*this = FileSize(val)','*this = FileSize(int64(val) & 0x7fffffffffffffff)')])
