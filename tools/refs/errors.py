F='errors/errors.go'; W='errors/with_id.go'; S='errors/with_id_string.go'
P=['C34','C25']; B=['C34']
ref('reg-len',P,[(F,'''	if g_id_cur_max < g_id_max {
		g_id2err = append(g_id2err, _err_name)
		g_id_cur_max++
		id = g_id_cur_max
	} else {
		id = g_id_invalid
		err = fmt.Errorf("[Register] error id out of range[%d,%d] from %s",
			g_id_min, g_id_max, debug.Caller(0))
	}
	return
''','''	if g_id_cur_max >= g_id_max {
		return g_id_invalid, fmt.Errorf("[Register] error id out of range[%d,%d] from %s",
			g_id_min, g_id_max, debug.Caller(0))
	}
	g_id_cur_max++
	g_id2err = append(g_id2err, _err_name)
	return g_id_cur_max, nil
''')])
ref('reg-id-len',P,[(F,'''		g_id_cur_max++
		id = g_id_cur_max
''','''		id = errId(g_id_min + len(g_id2err) - 1)
		g_id_cur_max = id
''')])
ref('no-counter',P,[(F,'''		g_id_cur_max++
		id = g_id_cur_max
''','''		id = lastId()
'''),(F,'	if g_id_cur_max < g_id_max {','	if lastId() < g_id_max {'),(F,'	cur_max := g_id_cur_max\n','	cur_max := lastId()\n'),(F,'cp <= g_id_cur_max','cp <= lastId()'),
(F,'	g_id_cur_max  errId = g_id_min\n',''),(F,'func ShowAll','//lastId needs the lock\nfunc lastId() errId {\n	return errId(g_id_min + len(g_id2err) - 1)\n}\n\nfunc ShowAll')])
ref('get-valid',P,[(F,'''	if err = cp.valid(); err == nil {
		idx := cp - g_id_min
		_name = g_id2err[idx]
	} else {
		_name = consts.EmptyStr
	}
	return
''','''	if err := cp.valid(); err != nil {
		return "", err
	}
	return g_id2err[cp-g_id_min], nil
''')])
ref('valid-switch',P,[(F,'''	if ok := cp >= g_id_min && cp <= g_id_cur_max; !ok {
		err = fmt.Errorf("invalid error id:%d", cp)
	}
	return
''','''	switch {
	case cp < g_id_min, cp > g_id_cur_max:
		return fmt.Errorf("invalid error id:%d", cp)
	}
	return nil
''')])
ref('get-inline',P,[(F,'	if err = cp.valid(); err == nil {','	if idx := int(cp) - g_id_min; idx < 0 || idx >= len(g_id2err) {\n		err = fmt.Errorf("invalid error id:%d", uint32(cp))\n	} else {'),(F,'''	} else {
		_name = consts.EmptyStr
	}
	return
''','''	}
	return
''')])
ref('string',P,[(F,'''	s = fmt.Sprintf("error#%d (%s)", cp, s)
	return s
''','''	return fmt.Sprintf("error#%d (%s)", uint32(cp), s)
''')])
ref('string-v',P,[(F,'''	s = fmt.Sprintf("error#%d (%s)", cp, s)
	return s
''','''	return fmt.Sprintf("error#%v (%v)", uint32(cp), s)
''')])
ref('string-cat',P,[(F,'''	s = fmt.Sprintf("error#%d (%s)", cp, s)
	return s
''','''	return fmt.Sprintf("error#%d", cp) + " (" + s + ")"
''')])
ref('string-ok',P,[(F,'''	if err != nil {
		return err.Error()
	}
	s = fmt.Sprintf("error#%d (%s)", cp, s)
	return s
''','''	if err == nil {
		return fmt.Sprintf("error#%d (%s)", cp, s)
	}
	return err.Error()
''')])
ref('string-strconv',P,[(F,'''	s = fmt.Sprintf("error#%d (%s)", cp, s)
	return s
''','''	return "error#" + strconv.Itoa(int(cp)) + " (" + s + ")"
'''),(F,'	"fmt"\n','	"fmt"\n	"strconv"\n')])
ref('string-strconv2',P,[(F,'''	s = fmt.Sprintf("error#%d (%s)", cp, s)
	return s
''','''	return "error#" + strconv.FormatUint(uint64(cp), 10) + " (" + s + ")"
'''),(F,'	"fmt"\n','	"fmt"\n	"strconv"\n')])
ref('unlock-plain',P,[(F,'''	g_id2err_lock.RLock()
	defer g_id2err_lock.RUnlock()
	if err = cp.valid(); err == nil {
''','''	g_id2err_lock.RLock()
	err = cp.valid()
	if err == nil {
'''),(F,'''		_name = consts.EmptyStr
	}
	return
''','''		_name = consts.EmptyStr
	}
	g_id2err_lock.RUnlock()
	return
''')])
ref('mutex',P,[(F,'g_id2err_lock sync.RWMutex','g_id2err_lock sync.Mutex'),(F,'''	g_id2err_lock.RLock()
	defer g_id2err_lock.RUnlock()
''','''	g_id2err_lock.Lock()
	defer g_id2err_lock.Unlock()
'''),(F,'''	g_id2err_lock.RLock()
	cur_max := g_id_cur_max
	g_id2err_lock.RUnlock()
''','''	g_id2err_lock.Lock()
	cur_max := g_id_cur_max
	g_id2err_lock.Unlock()
''')])
ref('show-builder',P,[(F,'	var buf bytes.Buffer\n','	var buf strings.Builder\n'),(F,'	"bytes"\n	"fmt"\n','	"fmt"\n	"strings"\n')])
ref('show-fprintf',P,[(F,'''	s := fmt.Sprintf("[errors] Count:%d", cur_max-g_id_min+1)
	buf.WriteString(s)
''','''	fmt.Fprintf(&buf, "[errors] Count:%d", cur_max-g_id_min+1)
''')])
ref('show-string',P,[(F,'''	var buf bytes.Buffer
''',''),(F,'	buf.WriteString(s)\n',''),(F,'''		buf.WriteString(consts.NewLine)
		buf.WriteString(id.String())
''','''		s += consts.NewLine + id.String()
'''),(F,'	return buf.String()\n','	return s\n'),(F,'	"bytes"\n','')])
ref('show-lines',P,[(F,'''	var buf bytes.Buffer
''',''),(F,'	buf.WriteString(s)\n','	lines := []string{s}\n'),(F,'''		buf.WriteString(consts.NewLine)
		buf.WriteString(id.String())
''','''		lines = append(lines, id.String())
'''),(F,'	return buf.String()\n','	return strings.Join(lines, consts.NewLine)\n'),(F,'	"bytes"\n	"fmt"\n','	"fmt"\n	"strings"\n')])
ref('show-count',P,[(F,'	for id := errId(g_id_min); id <= cur_max; id++ {\n','	for i := 0; i < int(cur_max-g_id_min)+1; i++ {\n		id := errId(g_id_min + i)\n')])
ref('std-new',P,[(F,'	return Newf(ERRID_STD, "%s", e.Error())\n','	return &withidstrErrors{id: ERRID_STD, err: e.Error()}\n')])
ref('std-v',P,[(F,'	return Newf(ERRID_STD, "%s", e.Error())\n','	msg := e.Error()\n	return Newf(ERRID_STD, "%v", msg)\n')])
ref('newf',P,[(S,'	return &withidstrErrors{id: _id, err: fmt.Sprintf(_fmt, _para...)}\n','	e := new(withidstrErrors)\n	e.id = _id\n	e.err = fmt.Sprintf(_fmt, _para...)\n	return e\n')])
ref('newf-val',P,[(S,'	return &withidstrErrors{','	return withidstrErrors{'),(S,'(me *withidstrErrors) Error','(me withidstrErrors) Error'),(S,'(me *withidstrErrors) Id','(me withidstrErrors) Id')])
ref('errstr',P,[(S,'''	s = fmt.Sprintf("error#%d (%s): %s", me.id, s, me.err)
	return s
''','''	return fmt.Sprintf("error#%d (%s): %s", me.id, s, me.err)
''')])
ref('errstr2',P,[(S,'''	s, err := me.id.Get()
	if err != nil {
		return err.Error()
	}
	s = fmt.Sprintf("error#%d (%s): %s", me.id, s, me.err)
	return s
''','''	if _, err := me.id.Get(); err != nil {
		return err.Error()
	}
	return me.id.String() + ": " + me.err
''')])
ref('err-get',P,[(W,'	return errId(me).String()\n','	id := me.Id()\n	return id.String()\n')])
ref('new-struct',P,[(W,'''type withidErrors errId
''','''type withidErrors struct{ id errId }
'''),(W,'	return withidErrors(_id)\n','	return withidErrors{id: _id}\n'),(W,'	return errId(me).String()\n','	return me.id.String()\n'),(W,'	return errId(me)\n','	return me.id\n')])
ref('init-literal',P,[(F,'append(make([]string, 0, g_init_err), "unknown error")','[]string{"unknown error"}')])
ref('init-two',P,[(F,'append(make([]string, 0, g_init_err), "unknown error")','[]string{"unknown error", "standard error"}'),(F,'errId = g_id_min\n','errId = g_id_min + 1\n'),(F,'	ERRID_STD, _ = Reg("standard error")\n','	ERRID_STD = errId(g_id_min + 1)\n')])
ref('init-func',P,[(F,'append(make([]string, 0, g_init_err), "unknown error")','firstNames()'),(F,'func ShowAll','func firstNames() []string {\n	names := make([]string, 1, g_init_err)\n	names[0] = "unknown error"\n	return names\n}\n\nfunc ShowAll')])
ref('helper-add',P,[(F,'''		g_id2err = append(g_id2err, _err_name)
		g_id_cur_max++
		id = g_id_cur_max
''','''		id = addName(_err_name)
'''),(F,'func ShowAll','func addName(name string) errId {\n	g_id2err = append(g_id2err, name)\n	g_id_cur_max++\n	return g_id_cur_max\n}\n\nfunc ShowAll')])
ref('struct-state',P,[(F,'''	g_id2err      = append(make([]string, 0, g_init_err), "unknown error") //ERRID_UNKNOWN
''','''	g_id2err      = append(make([]string, 0, g_init_err), "unknown error") //ERRID_UNKNOWN
	_             = g_init_err
''')])
bad('unknown-lost',B,[(F,'errId = g_id_min\n','errId = g_id_invalid\n')])
bad('limit',B,[(F,'	if g_id_cur_max < g_id_max {','	if g_id_cur_max <= g_id_max {')])
bad('limit2',B,[(F,'	if g_id_cur_max < g_id_max {','	if g_id_cur_max < g_id_max-1 {')])
bad('dedupe',B,[(F,'	if g_id_cur_max < g_id_max {','	if n := len(g_id2err); n > 0 && g_id2err[n-1] == _err_name {\n		return g_id_cur_max, nil\n	}\n	if g_id_cur_max < g_id_max {')])
bad('full-id',B,[(F,'		id = g_id_invalid\n','		id = g_id_cur_max\n')])
bad('valid-low',B,[(F,'cp >= g_id_min && ','cp > g_id_min && ')])
bad('valid-high',B,[(F,'cp <= g_id_cur_max','cp <= g_id_cur_max+1')])
bad('valid-max',B,[(F,'cp <= g_id_cur_max','cp <= g_id_max')])
bad('valid-nolow',B,[(F,'cp >= g_id_min && ','')])
bad('std-fmt',B,[(F,'Newf(ERRID_STD, "%s", e.Error())','Newf(ERRID_STD, e.Error())')])
bad('std-id',B,[(F,'Newf(ERRID_STD, "%s"','Newf(ERRID_UNKNOWN, "%s"')])
bad('newf-nopara',B,[(S,'fmt.Sprintf(_fmt, _para...)','fmt.Sprintf(_fmt, _para)')])
bad('show-miss',B,[(F,'id <= cur_max; id++','id < cur_max; id++')])
bad('show-count',B,[(F,'cur_max-g_id_min+1)','cur_max-g_id_min)')])
bad('err-paren',B,[(S,'me.id, s, me.err','me.id, me.err, s')])
bad('str-v',B,[(F,'"error#%d (%s)", cp, s','"error#%v (%s)", cp, s')])
bad('empty-fmt',B,[(S,'	s = fmt.Sprintf("error','	if me.err == "" {\n		return s\n	}\n	s = fmt.Sprintf("error')])
bad('trim',B,[(F,'append(g_id2err, _err_name)','append(g_id2err[:len(g_id2err):len(g_id2err)], strings.TrimSpace(_err_name))'),(F,'	"fmt"\n','	"fmt"\n	"strings"\n')])
bad('overwrite',B,[(F,'		g_id2err = append(g_id2err, _err_name)\n','		g_id2err = append(g_id2err[:g_id_cur_max-g_id_min], _err_name)\n')])
