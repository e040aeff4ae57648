R='reflect/reflect.go'
M='math/float.go'
C=['C24']
def r(name,*ch): ref(name,C,list(ch))
def b(name,*ch): bad(name,C,list(ch))
E='return math.Abs(a-b) < Epslon'
IMP='''import (
	"math"
)
'''
r('manual',(M,E,'d := a - b\n	if d < 0 {\n		d = -d\n	}\n	return d < Epslon'),(M,IMP,''))
r('both',(M,E,'return a-b < Epslon && b-a < Epslon'),(M,IMP,''))
r('range',(M,E,'d := b - a\n	return d > -Epslon && d < Epslon'),(M,IMP,''))
r('order',(M,E,'if a > b {\n		a, b = b, a\n	}\n	return b-a < Epslon'),(M,IMP,''))
b('le',(M,E,'return math.Abs(a-b) <= Epslon'))
b('nge',(M,E,'return !(math.Abs(a-b) >= Epslon)'))
b('oneside',(M,E,'return a-b < Epslon'),(M,IMP,''))
b('infs',(M,E,'return a == b || math.Abs(a-b) < Epslon'))
b('eps',(M,'0.000001','0.00001'))
b('rel',(M,E,'return math.Abs(a-b) < Epslon*math.Abs(a)'))
SW='''	switch t.(type) {
	case int, uint, int8, uint8, int16, uint16, int32, uint32, int64, uint64, string, float32, float64:
		return true
	}
	return false
'''
b('kind',(R,SW,'''	switch reflect.TypeOf(t).Kind() {
	case reflect.Int, reflect.Uint, reflect.Int8, reflect.Uint8, reflect.Int16, reflect.Uint16, reflect.Int32, reflect.Uint32, reflect.Int64, reflect.Uint64, reflect.String, reflect.Float32, reflect.Float64:
		return true
	}
	return false
'''))
b('uintptr',(R,'int, uint,','int, uint, uintptr,'))
b('nofloat32',(R,'float32, ',''))
r('split',(R,SW,'''	switch t.(type) {
	case int, int8, int16, int32, int64:
		return true
	case uint, uint8, uint16, uint32, uint64:
		return true
	case string:
		return true
	case float32, float64:
		return true
	default:
		return false
	}
'''))
r('new',(R,'''	t := reflect.TypeOf(sample)
	v := reflect.New(t).Interface()
	return v
''','''	return reflect.New(reflect.ValueOf(sample).Type()).Interface()
'''))
b('newptr',(R,'''	v := reflect.New(t).Interface()
''','''	if t.Kind() == reflect.Ptr {
		t = t.Elem()
	}
	v := reflect.New(t).Interface()
'''))
b('same',(R,'	return tl == tr','	return tl == tr || tl != nil && tr != nil && tl.Kind() == tr.Kind() && tl.Kind() == reflect.Map'))
b('samenil',(R,'	return tl == tr','	return tl.String() == tr.String()'))
r('kind2',(R,'	return reflect.TypeOf(l).Kind()','	return reflect.ValueOf(l).Kind()'))
b('kind3',(R,'	return reflect.TypeOf(l).Kind()','	v := reflect.ValueOf(l)\n	if v.Kind() == reflect.Ptr {\n		v = v.Elem()\n	}\n	return v.Kind()'))
r('kind4',(R,'	return reflect.TypeOf(l).Kind()','	if l == nil {\n		return reflect.Invalid\n	}\n	return reflect.TypeOf(l).Kind()'))
