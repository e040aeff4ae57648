F='encoding/ini/ini.go'
C=['C22']
BODY=open('/repo/'+F).read()
LOOP=BODY[BODY.index('	for err == nil {\n'):BODY.index('	if err == io.EOF {')]
PAIR=BODY[BODY.index('		pair := strings'):BODY.index('		key := strings')]
SEC=BODY[BODY.index("		if line[0] == '['"):BODY.index('		if sec == "" {')]
LOAD=BODY[BODY.index('	m := make(map[string]section)'):BODY.index('	return &IniFile{m}, err')]
def r(name,*ch): ref(name,C,[(F,a,b) for a,b in ch])
def b(name,*ch): bad(name,C,[(F,a,b) for a,b in ch])
r('index',(PAIR,'''		name, val := line, ""
		if i := strings.Index(line, "="); i >= 0 {
			name, val = line[:i], line[i+1:]
		}
'''),('strings.TrimSpace(pair[0])','strings.TrimSpace(name)'))
r('indexbyte',(PAIR,'''		name, val := line, ""
		if i := strings.IndexByte(line, '='); i != -1 {
			name = line[:i]
			val = line[i+1:]
		}
'''),('strings.TrimSpace(pair[0])','strings.TrimSpace(name)'))
r('cut',(PAIR,'		name, val, _ := strings.Cut(line, "=")\n'),('strings.TrimSpace(pair[0])','strings.TrimSpace(name)'))
b('lastindex',(PAIR,'''		name, val := line, ""
		if i := strings.LastIndex(line, "="); i >= 0 {
			name, val = line[:i], line[i+1:]
		}
'''),('strings.TrimSpace(pair[0])','strings.TrimSpace(name)'))
b('noval',(PAIR,'''		i := strings.Index(line, "=")
		if i < 0 {
			continue
		}
		name, val := line[:i], line[i+1:]
'''),('strings.TrimSpace(pair[0])','strings.TrimSpace(name)'))
b('idx0',(PAIR,'''		name, val := line, ""
		if i := strings.Index(line, "="); i > 0 {
			name, val = line[:i], line[i+1:]
		}
'''),('strings.TrimSpace(pair[0])','strings.TrimSpace(name)'))
r('forever',(LOOP,'''	for {
		line, err = r.ReadString('\\n')
		sec = parseLine(m, sec, strings.TrimSpace(line))
		if err != nil {
			break
		}
	}
'''),('func (p *IniFile) Sections','''func parseLine(m map[string]section, sec, line string) string {
	if line == "" || strings.HasPrefix(line, ";") {
		return sec
	}
	if strings.HasPrefix(line, "[") && strings.HasSuffix(line, "]") {
		name := strings.TrimSuffix(strings.TrimPrefix(line, "["), "]")
		if m[name] == nil {
			m[name] = section{}
		}
		return name
	}
	if sec == "" {
		return sec
	}
	key, val, _ := strings.Cut(line, "=")
	if key = strings.TrimSpace(key); key != "" {
		m[sec][key] = strings.TrimSpace(val)
	}
	return sec
}

func (p *IniFile) Sections'''))
b('breakfirst',(LOOP,LOOP.replace("	for err == nil {\n","	for {\n").replace("ReadString('\\n')\n","ReadString('\\n')\n		if err != nil {\n			break\n		}\n")))
r('curmap',('''	sec := ""
''','''	sec := ""
	var cur section
'''),('''			_, ok := m[sec]
			if !ok {
				m[sec] = make(section)
			}
''','''			var ok bool
			if cur, ok = m[sec]; !ok {
				cur = make(section)
				m[sec] = cur
			}
'''),('		m[sec][key] = val','		cur[key] = val'))
b('curmap2',('''	sec := ""
''','''	sec := ""
	var cur section
'''),('''			_, ok := m[sec]
			if !ok {
				m[sec] = make(section)
			}
''','''			if _, ok := m[sec]; !ok {
				cur = make(section)
				m[sec] = cur
			}
'''),('		m[sec][key] = val','		cur[key] = val'))
b('reopen',('''			if !ok {
				m[sec] = make(section)
			}
''','''			if !ok || len(sec) > 100 {
				m[sec] = make(section)
			}
'''))
b('reopen2',('''			_, ok := m[sec]
			if !ok {
				m[sec] = make(section)
			}
''','''			m[sec] = make(section)
'''))
r('switch',(LOOP,'''	for err == nil {
		line, err = r.ReadString('\\n')
		line = strings.TrimSpace(line)
		n := len(line)
		switch {
		case n == 0, line[0] == ';':
		case line[0] == '[' && line[n-1] == ']':
			sec = line[1 : n-1]
			if _, ok := m[sec]; !ok {
				m[sec] = section{}
			}
		case sec != "":
			key, val := line, ""
			if i := strings.IndexRune(line, '='); i >= 0 {
				key, val = strings.TrimSpace(line[:i]), strings.TrimSpace(line[i+1:])
			}
			if key != "" {
				m[sec][key] = val
			}
		}
	}
'''))
b('firstwins',('		m[sec][key] = val','		if _, ok := m[sec][key]; !ok {\n			m[sec][key] = val\n		}'))
b('novaltrim',('		val = strings.TrimSpace(val)\n',''))
b('nokeytrim',('strings.TrimSpace(pair[0])','pair[0]'))
b('splitn3',('"=", 2)','"=", -1)'))
b('comment',("line[0] == ';'","line[0] == ';' || line[0] == '#'"))
b('emptysec',('''		if sec == "" {
			continue
		}
''','''		if len(m) == 0 {
			continue
		}
'''))
b('nilsec',('''		if sec == "" {
			continue
		}
''',''))
b('lone',("line[0] == '[' && line[len(line)-1] == ']'","line[0] == '['"))
b('eof',('	if err == io.EOF {\n		err = nil\n	}\n','	err = nil\n'))
b('eof2',('	if err == io.EOF {\n		err = nil\n	}\n',''))
b('unclosed',('	defer func() {\n		f.Close()\n	}()\n	return load(f)','	r, err := load(f)\n	if err != nil {\n		return nil, err\n	}\n	return r, f.Close()'))
r('closeall',('	defer func() {\n		f.Close()\n	}()\n	return load(f)','	r, err := load(f)\n	f.Close()\n	return r, err'))
r('deferclose',('	defer func() {\n		f.Close()\n	}()\n','	defer f.Close()\n'))
b('openerr',('	if err != nil {\n		return nil, err\n	}\n	defer','	if err != nil {\n		return &IniFile{}, nil\n	}\n	defer'))
r('append',('''	s := make([]string, len(p.sections))
	i := 0
	for k, _ := range p.sections {
		s[i] = k
		i++
	}
	return s''','''	s := make([]string, 0, len(p.sections))
	for k := range p.sections {
		s = append(s, k)
	}
	return s'''))
b('append0',('''	s := make([]string, len(p.sections))
	i := 0
	for k, _ := range p.sections {
		s[i] = k
		i++
	}
	return s''','''	s := make([]string, len(p.sections))
	for k := range p.sections {
		s = append(s, k)
	}
	return s'''))
r('shared',('''	keys := make([]string, len(m))
	i := 0
	for key, _ := range m {
		keys[i] = key
		i++
	}
	return keys''','''	keys := []string{}
	for key := range m {
		keys = append(keys, key)
	}
	return keys'''))
r('getshort',('''	m, ok := p.sections[sec]
	if !ok {
		return def
	}
	v, ok := m[key]
	if !ok {
		return def
	}
	return v''','''	if v, ok := p.sections[sec][key]; ok {
		return v
	}
	return def'''))
b('getempty',('''	v, ok := m[key]
	if !ok {
		return def
	}
	return v''','''	v := m[key]
	if v == "" {
		return def
	}
	return v'''))
r('trimnl',('		line = strings.TrimSpace(line)\n','		line = strings.TrimSuffix(line, "\\n")\n		line = strings.TrimSpace(line)\n'))
b('trimonly',('		line = strings.TrimSpace(line)\n','		line = strings.TrimRight(line, "\\r\\n")\n'))
r('bytes',("		line, err = r.ReadString('\\n')\n		line = strings.TrimSpace(line)\n","		var raw []byte\n		raw, err = r.ReadBytes('\\n')\n		line = strings.TrimSpace(string(raw))\n"))
