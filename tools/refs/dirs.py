F='fs/fs.go'
A=['C35','C25']
LOOP='''	var _f *os.File
	if _f, err = os.Open(dir); err == nil {
		defer _f.Close()
		var _subs []os.FileInfo
		if _subs, err = _f.Readdir(0); err == nil {
			_has_sub_dir := false
			for _, _v := range _subs {
				_sub_name := _v.Name()
				_fullsubname := Joins(dir, _sub_name)

				if _v.IsDir() {
					if _sub_name == "." || _sub_name == ".." {
						continue
					}
					_has_sub_dir = true

					if opt.has(FsDir) && !opt.has(FsLeaf) { //if contain a sub dir, it's not leaf dir
						subs = append(subs, opt.choose_name(_fullsubname, _sub_name))
					}
					if opt.has_any(FsDeep | FsLeaf) {
						if _r, err := CollectSubs(_fullsubname, opt); err == nil {
							subs = append(subs, _r...)
						} else {
							return nil, err
						}
					}
				} else {
					if opt.has(FsFile) {
						subs = append(subs, opt.choose_name(_fullsubname, _sub_name))
					}
				}
			}
			if !_has_sub_dir && opt.has(FsLeaf|FsDir) {
				subs = append(subs, opt.choose_name(dir, FileName(dir)))
			}
		}
	}
	return
}
'''
ref('early',A,[(F,LOOP,'''	f, err := os.Open(dir)
	if err != nil {
		return nil, err
	}
	infos, err := f.Readdir(-1)
	f.Close()
	if err != nil {
		return nil, err
	}
	leaf := true
	for i := range infos {
		name := infos[i].Name()
		full := Joins(dir, name)
		if !infos[i].IsDir() {
			if opt.has(FsFile) {
				subs = append(subs, opt.choose_name(full, name))
			}
			continue
		}
		leaf = false
		if opt&(FsDir|FsLeaf) == FsDir {
			subs = append(subs, opt.choose_name(full, name))
		}
		if opt&FsDeep == 0 && opt&FsLeaf == 0 {
			continue
		}
		r, err := CollectSubs(full, opt)
		if err != nil {
			return nil, err
		}
		subs = append(subs, r...)
	}
	if leaf && opt.has(FsLeaf) && opt.has(FsDir) {
		subs = append(subs, opt.choose_name(dir, FileName(dir)))
	}
	return subs, nil
}
''')])
ref('helper',A,[(F,LOOP,'''	var list []string
	if err := collectInto(&list, dir, opt); err != nil {
		return nil, err
	}
	return list, nil
}

func collectInto(list *[]string, dir string, opt FsOption) error {
	f, err := os.Open(dir)
	if err != nil {
		return err
	}
	defer f.Close()
	infos, err := f.Readdir(0)
	if err != nil {
		return err
	}
	add := func(full, name string) {
		*list = append(*list, opt.choose_name(full, name))
	}
	dirs := 0
	for _, v := range infos {
		name := v.Name()
		full := Joins(dir, name)
		switch {
		case !v.IsDir():
			if opt.has(FsFile) {
				add(full, name)
			}
		case name != "." && name != "..":
			dirs++
			if opt.has(FsDir) && !opt.has(FsLeaf) {
				add(full, name)
			}
			if opt.has_any(FsDeep | FsLeaf) {
				if err := collectInto(list, full, opt); err != nil {
					return err
				}
			}
		}
	}
	if dirs == 0 && opt.has(FsLeaf|FsDir) {
		add(dir, FileName(dir))
	}
	return nil
}
''')])
ref('mode',A,[(F,'if _v.IsDir() {','if _v.Mode().IsDir() {')])
ref('osreaddir',A,[(F,'''		var _subs []os.FileInfo
		if _subs, err = _f.Readdir(0); err == nil {''','''		var _subs []os.DirEntry
		if _subs, err = _f.ReadDir(0); err == nil {''')])
ref('openfile',A,[(F,'os.Open(dir); err == nil {','os.OpenFile(dir, os.O_RDONLY, 0); err == nil {')])
ref('pathjoin',A,[(F,'Joins(dir, _sub_name)','path.Join(dir, _sub_name)')])
ref('consts',A,[(F,'return CollectSubs(dir, FsAll)','return CollectSubs(dir, FsDir+FsFile)')])
ref('opts',A,[(F,'return opt != 0 && me&opt == opt','return opt != 0 && me|opt == me'),(F,'return opt != 0 && me&opt != 0','return me&opt != 0')])
ref('split',A,[(F,'opt.choose_name(dir, FileName(dir))','opt.choose_name(dir, lastOf(dir))'),(F,'func FileName(','func lastOf(p string) string {\n	_, f := Split(p)\n	return f\n}\n\nfunc FileName(')])
bad('swallow',['C35'],[(F,'''							return nil, err
						}''','''							break
						}''')])
bad('leafall',['C35'],[(F,'if !_has_sub_dir && opt.has(','if !_has_sub_dir && opt.has_any(')])
bad('hidden',['C35'],[(F,'_sub_name == ".."','_sub_name[0] == 46')])
bad('deepone',['C35'],[(F,'CollectSubs(_fullsubname, opt);','CollectSubs(_fullsubname, opt&^FsDeep);')])
bad('deepname',['C35'],[(F,'_fullsubname := Joins(dir, _sub_name)','_fullsubname := Joins(".", _sub_name)')])
bad('leafempty',['C35'],[(F,'if !_has_sub_dir && opt','if len(_subs) == 0 && !_has_sub_dir && opt')])
bad('resets',['C35'],[(F,'_has_sub_dir := false\n',''),(F,'_sub_name := _v.Name()','_has_sub_dir = false\n				_sub_name := _v.Name()'),(F,'var _subs []os.FileInfo','var _subs []os.FileInfo\n		var _has_sub_dir bool')])
bad('noclose',['C35'],[(F,'defer _f.Close()\n','if opt.has(FsFile) {\n			defer _f.Close()\n		}\n')])
bad('part',['C35'],[(F,'Readdir(0)','Readdir(1)')])
bad('part2',['C35'],[(F,'Readdir(0)','Readdir(4096)')])
bad('first',['C35'],[(F,'subs = append(subs, _r...)','subs = append(_r, subs...)')])
bad('alias',['C35'],[(F,'subs = append(subs, _r...)','subs = append(subs[:0:0], _r...)')])
bad('shadow',['C35'],[(F,'if _r, err := CollectSubs(_fullsubname, opt); err == nil {','if _r, err := CollectSubs(_fullsubname, opt); err == nil && len(_r) > 0 {')])
