F='math/uint64.go'
B='''	r := Uint64(1000)
	l := me
	s := ""
	for l >= r {
		d := l % r
		l /= r
		s = fmt.Sprintf(",%03d%s", d, s)
	}
	s = fmt.Sprintf("%d%s", l, s)
	return s
'''
ref('recursive',['C13'],[(F,B,'''	if me < 1000 {
		return fmt.Sprintf("%d", me)
	}
	return fmt.Sprintf("%s,%03d", (me / 1000).CommaString(), me%1000)
''')])
ref('concat',['C13'],[(F,B,'''	l := uint64(me)
	s := ""
	for ; l > 999; l = l / 1000 {
		s = "," + fmt.Sprintf("%03d", l%1000) + s
	}
	return fmt.Sprint(l) + s
''')])
ref('concat2',['C13'],[(F,B,'''	l := uint64(me)
	s := ""
	for ; l > 999; l = l / 1000 {
		s = "," + fmt.Sprintf("%03d", l%1000) + s
	}
	return strconv.FormatUint(l, 10) + s
'''),(F,'	"fmt"\n','	"fmt"\n	"strconv"\n')])
ref('insert',['C13'],[(F,B,'''	digits := fmt.Sprintf("%d", uint64(me))
	n := len(digits)
	out := make([]byte, 0, n+n/3)
	for i := 0; i < n; i++ {
		if i > 0 && (n-i)%3 == 0 {
			out = append(out, ',')
		}
		out = append(out, digits[i])
	}
	return string(out)
''')])
ref('slices',['C13'],[(F,B,'''	s := fmt.Sprintf("%d", me)
	for i := len(s) - 3; i > 0; i -= 3 {
		s = s[:i] + "," + s[i:]
	}
	return s
''')])
ref('pad',['C13'],[(F,'''		s = fmt.Sprintf(",%03d%s", d, s)
''','''		p := ","
		if d < 10 {
			p = ",00"
		} else if d < 100 {
			p = ",0"
		}
		s = fmt.Sprintf("%s%d%s", p, d, s)
''')])
ref('bytes',['C13'],[(F,B,'''	var buf [32]byte
	i := len(buf)
	l := uint64(me)
	for n := 0; ; n++ {
		if n > 0 && n%3 == 0 {
			i--
			buf[i] = ','
		}
		i--
		buf[i] = byte('0' + l%10)
		l /= 10
		if l == 0 {
			break
		}
	}
	_ = fmt.Sprint
	return string(buf[i:])
''')])
bad('pad2',['C13'],[(F,',%03d%s',',%3d%s')])
bad('gt',['C13'],[(F,'l >= r','l > r')])
bad('ord',['C13'],[(F,'''		d := l % r
		l /= r
''','''		l /= r
		d := l % r
''')])
bad('u32',['C13'],[(F,'fmt.Sprintf("%d%s", l, s)','fmt.Sprintf("%d%s", uint32(l), s)'),(F,'Uint64(1000)','Uint64(10000)')])
