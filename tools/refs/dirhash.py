F='fs/file_path.go'
A=['C36','C33','C25']
FD='''					for _, v := range root.Children() {
						r := strings.NewReader(v.val.Hash)
						io.Copy(h, r)
						root.val.Size += v.val.Size
					}
					root.val.IsDir = true
				}
			} else {
				r := io.Reader(f)
				if _, err = io.Copy(h, r); err != nil {
					return nil, err
				}
				root.val.Size = FileSize(fi.Size())
			}
			%s'''
FP=FD%'h.Resetsize(int64(root.val.Size))\n'; HS=FD%'p := fmt.Sprintf("%x", h.Sum(nil))\n'
for nm,blk in (('fp',FP),('hash',HS)):
    if nm=='hash': blk=blk
    ref(nm+'-writestring',A,[(F,blk,blk.replace('''						r := strings.NewReader(v.val.Hash)
						io.Copy(h, r)
''','						io.WriteString(h, v.val.Hash)\n')+('' if nm=='hash' else ''))])
    ref(nm+'-write',A,[(F,blk,blk.replace('''						r := strings.NewReader(v.val.Hash)
						io.Copy(h, r)
''','						h.Write([]byte(v.val.Hash))\n'))])
    ref(nm+'-index',A,[(F,blk,blk.replace('''					for _, v := range root.Children() {
''','''					kids := root.Children()
					for i := 0; i < len(kids); i++ {
						v := kids[i]
'''))])
    ref(nm+'-getchild',A,[(F,blk,blk.replace('''					for _, v := range root.Children() {
''','''					for i, n := 0, root.NumChildren(); i < n; i++ {
						v, _ := root.GetChild(i)
'''))])
    ref(nm+'-sum',A,[(F,blk,blk.replace('''						root.val.Size += v.val.Size
					}
					root.val.IsDir = true
''','''						total += v.val.Size
					}
					root.val.Size = total
					root.val.IsDir = true
''').replace('					for _, v := range','					var total FileSize\n					for _, v := range'))])
    bad(nm+'-size',['C36'],[(F,blk,blk.replace('root.val.Size += v.val.Size','root.val.Size = v.val.Size'))])
    bad(nm+'-isdir',['C36'],[(F,blk,blk.replace('root.val.IsDir = true','root.val.IsDir = len(dirs) > 0'))])
    bad(nm+'-path',['C36'],[(F,blk,blk.replace('v.val.Hash)','v.val.Path+v.val.Hash)'))])
    bad(nm+'-skipempty',['C36'],[(F,blk,blk.replace('					for _, v := range root.Children() {\n','					for _, v := range root.Children() {\n						if v.val.Size == 0 {\n							continue\n						}\n'))])
    call='Fingerprint()' if nm=='fp' else 'Hash(method, salt)'
    st='if sub, err = FilePath(_subfullname).'+call+'; err == nil {'
    ref(nm+'-add',A,[(F,st+'\n								root.AddChildNode(sub, -1)',st+'\n								root.AddChildNode(sub, root.NumChildren())')])
    bad(nm+'-swallow',['C36'],[(F,st+'''
								root.AddChildNode(sub, -1)
							} else {
								return''',st+'''
								root.AddChildNode(sub, -1)
							} else if len(dirs) == 1 {
								return''')])
    bad(nm+'-nofiles',['C36'],[(F,st+'\n								root.AddChildNode',st+'\n								if v.IsDir() {\n									sub.val.Path = _sub\n								}\n								root.AddChildNode')])
bad('hash-nosalt',['C36'],[(F,'FilePath(_subfullname).Hash(method, salt)','FilePath(_subfullname).Hash(method, "")')])
bad('hash-md5',['C36'],[(F,'FilePath(_subfullname).Hash(method, salt)','FilePath(_subfullname).Hash(xhash.MD5, salt)')])
bad('fp-noreset',['C36'],[(F,'h.Resetsize(int64(root.val.Size))','if !root.val.IsDir {\n				h.Resetsize(int64(root.val.Size))\n			}')])
S='					root.SortChildren()\n'
for nm,blk in (('fp',FP),('hash',HS)):
    bad(nm+'-nosort',['C36'],[(F,S+blk,blk)])
    bad(nm+'-sortmany',['C36'],[(F,S+blk,'					if len(dirs) > 2 {\n						root.SortChildren()\n					}\n'+blk)])
    bad(nm+'-sortlate',['C36'],[(F,S+blk,blk.replace('					root.val.IsDir = true\n',S+'					root.val.IsDir = true\n'))])
