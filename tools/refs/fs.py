F='fs/file_path.go'; L='fs/file_line.go'; D='fs/fs.go'
P=['C33','C25']; B=['C33']
ref('rel-early',P,[(F,'''	n := FilePath(_destPath)
	if !filepath.IsAbs(n.StringSys()) { //related path, then calculate from me.Dir
		n.Set(Joins(me.Dir(), n.String()))
	}
	return n
''','''	if filepath.IsAbs(_destPath) {
		return FilePath(_destPath)
	}
	return FilePath(filepath.Join(me.Dir(), _destPath))
''')])
ref('rel-join',P,[(F,'		n.Set(Joins(me.Dir(), n.String()))\n','		n = FilePathObject(filepath.Join(filepath.Dir(string(me)), string(n)))\n')])
ref('rel-prefix',P,[(F,'	if !filepath.IsAbs(n.StringSys()) {','	if !strings.HasPrefix(n.String(), "/") {')])
ref('fp-direct',P,[(F,'''	var f FilePathObject
	f.Set(strPath)
	return f
''','''	return FilePathObject(filepath.ToSlash(filepath.Clean(strPath)))
''')])
ref('set-fp',P,[(F,'''	var f FilePathObject
	f.Set(strPath)
	return f
''','''	cleaned := filepath.Clean(strPath)
	return FilePathObject(filepath.ToSlash(cleaned))
'''),(F,'	*this = FilePathObject(filepath.ToSlash(filepath.Clean(newPath)))','	*this = FilePath(newPath)')])
ref('joins',P,[(F,'''	s := append([]string{me.String()}, elem...)
	return Joins(s...)
''','''	s := make([]string, 0, len(elem)+1)
	s = append(s, string(me))
	s = append(s, elem...)
	return Joins(s...)
''')])
ref('join',P,[(F,'	return Joins(me.String(), child)\n','	return me.Joins(child)\n')])
ref('rename',P,[(F,'	return n, os.Rename(string(me), n.String())\n}\n\n//adapt for os.Symlink','	if err = os.Rename(me.String(), n.String()); err != nil {\n		return n, err\n	}\n	return n, nil\n}\n\n//adapt for os.Symlink')])
ref('link',P,[(F,'''	n = me.relateThisPath(linkname)
	err = os.Link(string(me), n.String())
	return
''','''	target := me.relateThisPath(linkname)
	return target, os.Link(me.S(), target.S())
''')])
ref('open',P,[(F,'	return os.Open(string(me))','	return me.OpenFile(os.O_RDONLY, 0)')])
ref('create',P,[(F,'	return os.Create(string(me))','	return os.OpenFile(me.String(), os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)')])
ref('stat',P,[(F,'	return os.Stat(string(me))','	fi, err := os.Stat(me.String())\n	return fi, err')])
ref('match',P,[(F,'	return filepath.Match(pattern, string(me))','	matched, err = filepath.Match(pattern, me.String())\n	return')])
ref('move',P,[(F,'''	if me.VolumeName() == n.VolumeName() { //not cross disk,use rename operation
		return n, os.Rename(string(me), n.String())
	}
	return "", nil
''','''	if me.VolumeName() != n.VolumeName() {
		return "", nil
	}
	err := os.Rename(string(me), n.String())
	return n, err
''')])
ref('rellib',P,[(F,'''	s, _ := filepath.Rel(FilePath(root).String(), string(me))
	return FilePath(s)
''','''	base := FormatPath(root)
	if s, err := filepath.Rel(base, me.String()); err == nil {
		return FilePath(s)
	}
	return FilePath("")
''')])
ref('rellib2',P,[(F,'''	s, _ := filepath.Rel(FilePath(root).String(), string(me))
	return FilePath(s)
''','	return me.relFrom(FilePath(root).String())\n'),(F,'''	s, _ := filepath.Rel(GoPath(), string(me))
	return FilePath(s)
''','	return me.relFrom(GoPath())\n'),(F,'//adapt for filepath.Rel\n','''// relFrom is the path seen from base
func (me FilePathObject) relFrom(base string) FilePathObject {
	s, err := filepath.Rel(base, string(me))
	if err != nil {
		s = ""
	}
	return FilePath(s)
}

//adapt for filepath.Rel
''')])
ref('less',P,[(F,'''	if this.Size < o.Size {
		return true
	}
	if this.Size == o.Size && this.Hash < o.Hash {
		return true
	}

	return false
''','''	if this.Size != o.Size {
		return this.Size < o.Size
	}
	return o.Hash > this.Hash
''')])
ref('less2',P,[(F,'''	if this.Size < o.Size {
		return true
	}
	if this.Size == o.Size && this.Hash < o.Hash {
		return true
	}

	return false
''','''	switch {
	case this.Size < o.Size:
		return true
	case this.Size > o.Size:
		return false
	}
	return this.Hash < o.Hash
''')])
ref('hash-early',P,[(F,'''		if fi, err = f.Stat(); err == nil {
			h := xhash.NewFingerprint()
''','''		fi, err = f.Stat()
		if err == nil {
			h := xhash.NewFingerprint()
''')])
ref('hash-copy',P,[(F,'''			if salt != "" {
				h.Write([]byte(salt))
			}
''','''			h.Write([]byte(salt))
''')])
ref('hash-io',P,[(F,'''			if salt != "" {
				h.Write([]byte(salt))
			}
''','''			if len(salt) > 0 {
				io.WriteString(h, salt)
			}
'''),(F,'''			p := fmt.Sprintf("%x", h.Sum(nil))
			root.val.Path = me.String()
			root.val.Hash = p
''','''			sum := h.Sum(nil)
			root.val.Hash = fmt.Sprintf("%x", sum)
			root.val.Path = me.String()
''')])
src=open('/repo/'+F).read()
body=src[src.index('	var f *os.File\n',src.index(') Hash(method')):src.index('//copy to destPath')]
ref('hash-flat',P,[(F,body,'''	f, err := me.Open()
	if err != nil {
		return nil, err
	}
	defer f.Close()
	fi, err := f.Stat()
	if err != nil {
		return nil, err
	}
	root = &FileHashTreeNode{}
	h := method.New()
	if salt != "" {
		h.Write([]byte(salt))
	}
	root.val.Path = me.String()
	if !fi.IsDir() {
		if _, err = io.Copy(h, f); err != nil {
			return nil, err
		}
		root.val.Size = FileSize(fi.Size())
		root.val.Hash = fmt.Sprintf("%x", h.Sum(nil))
		return root, nil
	}
	dirs, err := f.Readdir(-1)
	if err != nil {
		return nil, err
	}
	for _, v := range dirs {
		name := v.Name()
		if name == "." || name == ".." {
			continue
		}
		sub, err := FilePath(me.Join(name)).Hash(method, salt)
		if err != nil {
			return nil, err
		}
		root.AddChildNode(sub, -1)
	}
	root.SortChildren()
	for _, v := range root.Children() {
		io.Copy(h, strings.NewReader(v.val.Hash))
		root.val.Size += v.val.Size
	}
	root.val.IsDir = true
	root.val.Hash = fmt.Sprintf("%x", h.Sum(nil))
	return root, nil
}

''')])
ref('collect-flat',P,[(D,'''	var _f *os.File
	if _f, err = os.Open(dir); err == nil {
		defer _f.Close()
		var _subs []os.FileInfo
		if _subs, err = _f.Readdir(0); err == nil {
''','''	_f, err := os.Open(dir)
	if err != nil {
		return nil, err
	}
	defer _f.Close()
	{
		var _subs []os.FileInfo
		if _subs, err = _f.Readdir(-1); err == nil {
''')])
ref('chdir',P,[(L,'''	if err = os.Chdir(FormatPath(filePath)); err == nil {
		gWorkPath = workPath() //refresh this lib
	}
	return
''','''	p := FilePath(filePath)
	if err := os.Chdir(p.StringSys()); err != nil {
		return err
	}
	gWorkPath = workPath()
	return nil
''')])
ref('filename',P,[(D,'	_, file = Split(file_path)\n	return\n','	_, file = path.Split(file_path)\n	return file\n')])
ref('tempdir',P,[(L,'	return FormatPath(os.TempDir())','	dir := os.TempDir()\n	return FilePath(dir).S()')])
# ---- not the same behaviour
bad('b-rel',B,[(F,'	if !filepath.IsAbs(n.StringSys()) {','	if n.VolumeName() == "" {')])
bad('b-move',B,[(F,'		return n, os.Rename(string(me), n.String())\n	}\n	return "", nil','		return me.Rename(n.String())\n	}\n	return "", nil')])
bad('b-removeall',B,[(F,'	return os.Remove(string(me))','	return os.RemoveAll(string(me))')])
bad('b-chown',B,[(F,'	return os.Lchown(string(me), uid, gid)','	return os.Lchown(string(me), gid, uid)')])
bad('b-chtimes',B,[(F,'os.Chtimes(string(me), atime, mtime)','os.Chtimes(string(me), mtime, mtime)')])
bad('b-lstat',B,[(F,'	return os.Lstat(string(me))','	return os.Stat(string(me))')])
bad('b-open',B,[(F,'	return os.Open(string(me))','	return os.OpenFile(string(me), os.O_RDWR, 0)')])
bad('b-openfile',B,[(F,'os.OpenFile(string(me), flag, perm.os())','os.OpenFile(string(me), flag|os.O_CREATE, perm.os())')])
bad('b-mkdir',B,[(F,'	return os.Mkdir(string(me), perm.os())','	return os.MkdirAll(string(me), perm.os())')])
bad('b-perm',B,[(F,'	return os.MkdirAll(string(me), perm.os())','	return os.MkdirAll(string(me), perm.os()|0111)')])
bad('b-link',B,[(F,'	err = os.Link(string(me), n.String())','	err = os.Link(n.String(), string(me))')])
bad('b-linkerr',B,[(F,'	err = os.Link(string(me), n.String())\n','	os.Link(string(me), n.String())\n')])
bad('b-symlink',B,[(F,'	err = os.Symlink(string(me), n.String())','	err = os.Link(string(me), n.String())')])
bad('b-rename',B,[(F,'	return n, os.Rename(string(me), n.String())\n}\n\n//adapt for os.Symlink','	return n, os.Rename(string(me), newname)\n}\n\n//adapt for os.Symlink')])
bad('b-trunc',B,[(F,'	return os.Truncate(string(me), size)','	if size < 0 {\n		size = 0\n	}\n	return os.Truncate(string(me), size)')])
bad('b-match',B,[(F,'	return filepath.Match(pattern, string(me))','	return filepath.Match(pattern, me.Base())')])
bad('b-prefix',B,[(F,'filepath.HasPrefix(string(me), FilePath(prefix).String())','filepath.HasPrefix(string(me), prefix)')])
bad('b-joins',B,[(F,'	s := append([]string{me.String()}, elem...)\n	return Joins(s...)','	s := append([]string{me.String()}, elem[:len(elem)/2]...)\n	return Joins(s...)')])
bad('b-set',B,[(F,'filepath.ToSlash(filepath.Clean(newPath))','filepath.ToSlash(newPath)')])
bad('b-rel2',B,[(F,'filepath.Rel(FilePath(root).String(), string(me))','filepath.Rel(string(me), FilePath(root).String())')])
bad('b-less',B,[(F,'	if this.Size == o.Size && this.Hash < o.Hash {','	if this.Hash < o.Hash {')])
bad('b-less2',B,[(F,'	if this.Size == o.Size && this.Hash < o.Hash {','	if this.Size == o.Size && this.Path < o.Path {')])
bad('b-copyerr',B,[(F,body,body.replace('''				if _, err = io.Copy(h, r); err != nil {
					return nil, err
				}
''','				io.Copy(h, r)\n'))])
bad('b-copyerr2',B,[(F,body,body.replace('''				if _, err = io.Copy(h, r); err != nil {
					return nil, err
				}
''','				if _, err := io.Copy(h, r); err != nil {\n					fmt.Println(err)\n				}\n'))])
bad('b-salt',B,[(F,body,body.replace('if salt != ""','if len(salt) > 1'))])
bad('b-close',B,[(F,body,body.replace('		defer f.Close()\n','')+'')])
bad('b-size',B,[(F,body,body.replace('FileSize(fi.Size())','FileSize(int32(fi.Size()))'))])
bad('b-resetsize',B,[(F,'			h.Resetsize(int64(root.val.Size))\n','			h.Resetsize(int64(int32(root.val.Size)))\n')])
bad('b-collect',B,[(D,'''	var _f *os.File
	if _f, err = os.Open(dir); err == nil {
''','''	if _f, err := os.Open(dir); err == nil {
''')])
bad('b-collect2',B,[(D,'if _subs, err = _f.Readdir(0); err == nil {','if _subs, err := _f.Readdir(0); err == nil {'),(D,'		var _subs []os.FileInfo\n','')])
bad('b-chdir',B,[(L,'		gWorkPath = workPath() //refresh this lib','		gWorkPath = FormatPath(filePath)')])
bad('b-chdir2',B,[(L,'	if err = os.Chdir(FormatPath(filePath)); err == nil {','	if err = os.Chdir(FormatPath(filePath)); err != nil {')])
W=src[src.index('	return filepath.Walk('):src.index('//adapt for filepath.Base')]
ref('walk',P,[(F,W,'''	visit := func(path string, info os.FileInfo, err error) error {
		return walkFn(path, info, err)
	}
	return filepath.Walk(me.String(), visit)
}

''')])
ST=src[src.index('	var buf bytes.Buffer\n'):src.index('//file hash value')]
ref('stat-flat',P,[(F,ST,'''	var buf bytes.Buffer
	count := func(path string, fi FileInfo, err error) error {
		if err != nil {
			buf.WriteString(err.Error() + "\\n")
			return nil
		}
		if fi.IsDir() {
			nDir++
			return nil
		}
		nFile++
		size += uint64(fi.Size())
		return nil
	}
	me.Walk(count)
	return nDir, nFile, size, buf.String()
}

''')])
ref('stat-struct',P,[(F,ST,'''	var buf bytes.Buffer
	var t struct {
		dirs, files int
		size        uint64
	}
	filepath.Walk(string(me), func(path string, fi os.FileInfo, err error) error {
		switch {
		case err != nil:
			buf.WriteString(err.Error())
			buf.WriteByte('\\n')
		case fi.IsDir():
			t.dirs++
		default:
			t.files++
			t.size += uint64(fi.Size())
		}
		return nil
	})
	return t.dirs, t.files, t.size, buf.String()
}

''')])
bad('b-walkerr',B,[(F,W,W.replace('			return walkFn(path, FileInfo(info), err)','			if err != nil {\n				return err\n			}\n			return walkFn(path, FileInfo(info), err)'))])
bad('b-walkpath',B,[(F,W,W.replace('walkFn(path,','walkFn(filepath.Base(path),'))])
bad('b-walkret',B,[(F,W,W.replace('			return walkFn(path, FileInfo(info), err)','			walkFn(path, FileInfo(info), err)\n			return nil'))])
bad('b-stat',B,[(F,ST,ST.replace('		return nil\n','		return err\n'))])
bad('b-stat2',B,[(F,ST,ST.replace('size += uint64(info.Size())','size += uint64(uint32(info.Size()))'))])
bad('b-stat3',B,[(F,ST,ST.replace('				nFile++\n','				nFile = nDir + 1\n'))])
ref('stat-mode',P,[(F,ST,ST.replace('info.IsDir()','info.Mode().IsDir()',1))])
ref('stat-mode2',P,[(F,ST,ST.replace('info.IsDir()','info.Mode()&os.ModeDir != 0',1))])
ref('hash-mode',P,[(F,body,body.replace('fi.IsDir()','fi.Mode().IsDir()',1))])
bad('b-notexist',B,[(F,'	return os.Remove(string(me))\n','	if err := os.Remove(string(me)); !os.IsNotExist(err) {\n		return err\n	}\n	return nil\n')])
ref('remove-exist',B,[(F,'	return os.Remove(string(me))\n','	err := os.Remove(string(me))\n	if err != nil && os.IsNotExist(err) {\n		return err\n	}\n	return err\n')])
