A='stl/functorcmp.gp_int.go'; T='stl/functorcmp.gp_#inttreenodeb60b.go'
C=['C08']
def r(name,*ch): ref(name,C,[(A,)+c for c in ch])
def b(name,*ch): bad(name,C,[(A,)+c for c in ch])
F='''	switch me {
	case CMPLesser:
		ok = me.less(left, right)
	case CMPGreater:
		ok = me.great(left, right)
	}
	return
'''
r('if',(F,'''	if me == CmpIntLesser {
		return me.less(left, right)
	}
	if me == CmpIntGreater {
		return me.great(left, right)
	}
	return false
'''))
r('swap',(F,'''	if me == CMPGreater {
		left, right = right, left
	} else if me != CMPLesser {
		return
	}
	return left < right
'''))
r('great',('	ok = right < left\n','	ok = me.less(right, left)\n'))
r('ge',('	ok = left < right\n','	ok = !(left >= right)\n'))
r('names',('''	switch cmpName {
	case "": //default Lesser
		fallthrough
	case "Lesser":
		r = CMPLesser
	case "Greater":
		r = CMPGreater
	default: //unsupport name
		panic(cmpName)
	}
	return
''','''	if cmpName == "" || cmpName == CmpIntLesser.String() {
		return CMPLesser
	}
	if cmpName != "Greater" {
		panic(cmpName)
	}
	return CMPGreater
'''))
r('bool',('''	if bigFirst {
		r = CMPGreater
	} else {
		r = CMPLesser
	}
	return
''','''	r = me.Lesser()
	if bigFirst {
		r = me.Greater()
	}
	return
'''))
r('strmap',('''	switch me {
	case CMPLesser:
		s = "Lesser"
	case CMPGreater:
		s = "Greater"
	default:
		s = "error cmp value"
	}
	return
''','''	names := [...]string{"Lesser", "Greater"}
	if int(me) < len(names) {
		return names[me]
	}
	return "error cmp value"
'''))
b('sub',('	ok = left < right\n','	ok = left-right < 0\n'))
b('le',('	ok = right < left\n','	ok = !(left < right)\n'))
b('name',('case "": //default Lesser\n		fallthrough\n	case "Lesser"','case "Lesser"'),('default: //unsupport name\n		panic(cmpName)','case "":\n		r = me\n	default:\n		panic(cmpName)'))
b('nopanic',('		panic(cmpName)\n','		r = CMPLesser\n'))
b('case',('case "Greater":\n		r','case "Greater", "greater":\n		r'))
