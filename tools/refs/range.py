A='math/range_uint32.go'; B='math/range_uint64.go'
C=['C10']
def r(name,*ch): ref(name,C,[(A,)+c for c in ch])
def b(name,*ch): bad(name,C,[(A,)+c for c in ch])
def r64(name,*ch): ref(name,C,[(B,)+c for c in ch])
def b64(name,*ch): bad(name,C,[(B,)+c for c in ch])
ADD='''	if math.MaxUint32-other < me.val {
		return me.min, fmt.Errorf("[RangeUint32] Add(%d) will cause out of range :%s", other, me.Info())
	}
	v := me.val + other
	r, err = v, me.verify(v)
	return
'''
ADD64=ADD.replace('Uint32-','Uint64-').replace('RangeUint32','RangeUInt64')
MUL='''	if other > 0 && math.MaxUint32/other < me.val {
		return me.min, fmt.Errorf("[RangeUint32] Mul(%d) will cause out of range :%s", other, me.Info())
	}
	v := me.val * other
	r, err = v, me.verify(v)
	return
'''
MUL64=MUL.replace('Uint32/','Uint64/').replace('RangeUint32','RangeUInt64')
ERR='fmt.Errorf("[%s] out of range :%%s", me.Info())'
def E(t): return ERR%t
for f,t,n,add,mul in ((r,'RangeUint32','32',ADD,MUL),(r64,'RangeUInt64','64',ADD64,MUL64)):
    f('add-wrap'+n,(add,f'''	v := me.val + other
	if v < other {{
		return me.min, {E(t)}
	}}
	return v, me.verify(v)
'''))
    f('add-max'+n,(add,f'''	if other > me.max-me.val {{
		return me.min, {E(t)}
	}}
	v := me.val + other
	return v, me.verify(v)
'''))
    f('mul-div'+n,(mul,f'''	v := me.val * other
	if other != 0 && v/other != me.val {{
		return me.min, {E(t)}
	}}
	return v, me.verify(v)
'''))
    f('mul-max'+n,(mul,f'''	if other > 0 && me.val > me.max/other {{
		return me.min, {E(t)}
	}}
	v := me.val * other
	return v, me.verify(v)
'''))
    f('mul-zero'+n,(mul,f'''	if other == 0 || me.val == 0 {{
		return 0, me.verify(0)
	}}
	if me.val > math.MaxUint{n}/other {{
		return me.min, {E(t)}
	}}
	v := other * me.val
	return v, me.verify(v)
'''))
r('add-wide',(ADD,f'''	v := uint64(me.val) + uint64(other)
	if v > math.MaxUint32 {{
		return me.min, {E('RangeUint32')}
	}}
	return uint32(v), me.verify(uint32(v))
'''))
r('add-wide2',(ADD,f'''	v := uint64(me.val) + uint64(other)
	if v < uint64(me.min) || v > uint64(me.max) {{
		return me.min, {E('RangeUint32')}
	}}
	return uint32(v), nil
'''))
r('mul-wide',(MUL,f'''	v := uint64(me.val) * uint64(other)
	if v > math.MaxUint32 {{
		return me.min, {E('RangeUint32')}
	}}
	return uint32(v), me.verify(uint32(v))
'''))
r('mul-shift',(MUL,f'''	v := uint64(me.val) * uint64(other)
	if v>>32 != 0 {{
		return me.min, {E('RangeUint32')}
	}}
	return uint32(v), me.verify(uint32(v))
'''))
r('check-helper',(ADD,'''	if math.MaxUint32-other < me.val {
		return me.min, fmt.Errorf("[RangeUint32] Add(%d) will cause out of range :%s", other, me.Info())
	}
	return me.checked(me.val + other)
'''),(MUL,'''	if other > 0 && math.MaxUint32/other < me.val {
		return me.min, fmt.Errorf("[RangeUint32] Mul(%d) will cause out of range :%s", other, me.Info())
	}
	return me.checked(me.val * other)
'''),('','''
func (me *RangeUint32) checked(v uint32) (uint32, error) {
	return v, me.verify(v)
}
'''))
r('inc-add',('	r, err = me.Set(me.val + 1)\n	return\n','''	r = me.val
	if v, e := me.Add(1); e != nil {
		err = e
	} else {
		me.val = v
	}
	return
'''))
r('inc-max',('''	if math.MaxUint32 == me.val {
		return me.min, fmt.Errorf("[RangeUint32] Inc() will cause out of range :%s", me.Info())
	}
	r, err = me.Set(me.val + 1)
	return
''','''	if me.val >= me.max {
		return me.min, fmt.Errorf("[RangeUint32] Inc() will cause out of range :%s", me.Info())
	}
	r = me.val
	me.val++
	return
'''))
r('init-order',('''	if err = verifyRangeUint32(_val, _min, _max); err == nil {
		me.val, me.min, me.max = _val, _min, _max
	}
	return
''','''	if err := verifyRangeUint32(_val, _min, _max); err != nil {
		return err
	}
	*me = RangeUint32{val: _val, min: _min, max: _max}
	return nil
'''))
r('new-init',('''	if err = verifyRangeUint32(_val, _min, _max); err == nil {
		r = &RangeUint32{val: _val, min: _min, max: _max}
	}
	return
''','''	p := new(RangeUint32)
	if err = p.Init(_val, _min, _max); err == nil {
		r = p
	}
	return
'''))
r('inrange',('r = (other >= me.min && other <= me.max)','r = !(other < me.min || me.max < other)'))
r('inrange-sub',('r = (other >= me.min && other <= me.max)','r = other-me.min <= me.max-me.min'))
r('verify',('''	if _min > _max {
		err = fmt.Errorf("[RangeUint32] min(%d) > max(%d) error", _min, _max)
	} else if _val < _min || _val > _max {''','''	switch {
	case _min > _max:
		err = fmt.Errorf("[RangeUint32] min(%d) > max(%d) error", _min, _max)
	case _val < _min, _val > _max:'''),)
r('mod',('	v := me.val % other\n','	v := me.val - me.val/other*other\n'))
r('set',('''	r = me.val
	if err = me.verify(other); err == nil {
		me.val = other
	}
	return
''','''	old := me.val
	if err = me.verify(other); err != nil {
		return old, err
	}
	me.val = other
	return old, nil
'''))
b('add-half',(ADD,ADD.replace('MaxUint32-other < me.val','MaxUint32-other < me.min')))
b('add-wrap',(ADD,ADD.replace('math.MaxUint32-other < me.val','me.val+other < me.min')))
b64('add-wrap64',(ADD64,ADD64.replace('math.MaxUint64-other < me.val','me.val+other < me.min && me.max < math.MaxUint64')))
b('mul-le',(MUL,MUL.replace('/other < me.val','/other <= me.val')))
b64('mul-wrap',(MUL64,'''	v := me.val * other
	if v < me.val && other > 0 {
		return me.min, fmt.Errorf("[RangeUInt64] Mul(%d) will cause out of range :%s", other, me.Info())
	}
	r, err = v, me.verify(v)
	return
'''),('	"math"\n','	"math"\n'))
b('mul-16',(MUL,MUL.replace('other > 0 && math.MaxUint32/other < me.val','other > math.MaxUint16 && me.val > math.MaxUint16')))
b('inc-off',('if math.MaxUint32 == me.val {','if math.MaxUint32 == me.val || me.val+1 == me.max {'))
b('dec-nocheck',('	r, err = me.Set(me.val - 1)\n','	r, me.val = me.val, me.val-1\n'))
b('set-store',('	r = me.val\n	if err = me.verify(other); err == nil {\n		me.val = other\n	}\n','	r = me.val\n	if me.val = other; me.verify(other) != nil {\n		me.val = me.min\n		err = me.verify(other)\n	}\n'))
b('init-partial',('		me.val, me.min, me.max = _val, _min, _max\n	}\n','		me.val, me.min, me.max = _val, _min, _max\n	} else if _min <= _max {\n		me.min, me.max = _min, _max\n	}\n'))
b('cur',('other <= me.val)','other < me.val)'))
b('resetr',('me.val = me.max','me.val = me.max - 1'))
b('ver',('_val < _min || _val > _max','_val < _min || _val > _max && _max > 0'))
