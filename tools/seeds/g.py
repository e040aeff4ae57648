H='package main\nimport ("fmt";"os";%s)\nfunc no(x ...interface{}){ fmt.Println(x...); os.Exit(1) }\nvar _ = fmt.Sprint\n'
def s(id,prop,edits,imports,body,needs,breaks): seed(id,prop,edits,H%imports+body,needs,breaks)
E='"github.com/vipally/gx/errors"'
F='errors/errors.go'; S='errors/with_id_string.go'
s('c34-limit','C34',[(F,'	if g_id_cur_max < g_id_max {\n		g_id2err = append','	if g_id_cur_max <= g_id_max {\n		g_id2err = append')],E,'''func main(){
	n:=2
	for { id,err:=errors.Reg("e"); if err!=nil { break }; n++; if uint32(id)>9999 { no("id",uint32(id)) }; if n>20000 { no("no end") } }
	if n!=8999 { no(n) }
}
''','all ids taken','one id beyond the range is given out')
s('c34-valid-max','C34',[(F,'cp >= g_id_min && cp <= g_id_cur_max','cp >= g_id_min && cp <= g_id_max')],E,'''func main(){
	defer func(){ if r:=recover(); r!=nil { no("panic",r) } }()
	if _,err:=errors.ERRID_STD.Get(); err!=nil { no(err) }
	id:=errors.ERRID_STD; id+=500
	if n,err:=id.Get(); err==nil||n!="" { no("unregistered id has a name",n) }
	if errors.New(id).Error()=="" { no("no text") }
}
''','an id in the range that no error was registered for','looking it up panics')
s('c34-same-name','C34',[(F,'	if g_id_cur_max < g_id_max {\n		g_id2err = append','''	if n := len(g_id2err); n > 0 && g_id2err[n-1] == _err_name {
		return g_id_cur_max, nil
	}
	if g_id_cur_max < g_id_max {
		g_id2err = append''')],E,'''func main(){
	a,_:=errors.Reg("one"); b,_:=errors.Reg("two"); c,_:=errors.Reg("two")
	if b!=a+1||c!=b+1 { no("ids",uint32(a),uint32(b),uint32(c)) }
	if n,err:=c.Get(); err!=nil||n!="two" { no(n,err) }
}
''','two packages register the same name one after the other','two errors share an id')
s('c34-empty-detail','C34',[(S,'	s = fmt.Sprintf("error#%d (%s): %s", me.id, s, me.err)\n','	if me.err == "" {\n		return me.id.String()\n	}\n	s = fmt.Sprintf("error#%d (%s): %s", me.id, s, me.err)\n')],E,'''func main(){
	id,_:=errors.Reg("x")
	if t:=errors.Newf(id,"%d",7).Error(); t!=fmt.Sprintf("error#%d (x): 7",uint32(id)) { no(t) }
	if t:=errors.Newf(id,"").Error(); t!=fmt.Sprintf("error#%d (x): ",uint32(id)) { no(t) }
}
''','an error whose details are empty','its text loses the separator')
s('c34-percent-name','C34',[(F,'	s = fmt.Sprintf("error#%d (%s)", cp, s)\n','	s = fmt.Sprintf("error#%d ("+s+")", cp)\n')],E,'''func main(){
	a,_:=errors.Reg("disk full"); b,_:=errors.Reg("disk 100% full")
	if t:=a.String(); t!=fmt.Sprintf("error#%d (disk full)",uint32(a)) { no(t) }
	if t:=errors.New(b).Error(); t!=fmt.Sprintf("error#%d (disk 100%% full)",uint32(b)) { no(t) }
}
''','a name with a percent sign','the name is taken for a format')
FS='"github.com/vipally/gx/fs"'
TR='fs/tree.gp_filehash38b3.go'; SS='fs/sort_slice.gp_#filehashtreenodef199.go'; FC='fs/functorcmp.gp_#filehashtreenodef199.go'
s('c08-fs-dirs','C08',[(TR,'	ok = this.val.Less(right.val)\n','	ok = this.val.Less(right.val) || this.val.IsDir && !right.val.IsDir && this.val.Size == right.val.Size\n')],FS,'''func main(){
	root:=&fs.FileHashTreeNode{}
	n:=func(h string,size uint64,dir bool)*fs.FileHashTreeNode{ return root.AddChild(fs.FileHash{Hash:h,Size:fs.FileSize(size),IsDir:dir},-1) }
	c:=fs.CreateCmpFileHash("")
	if !c.F(n("a",1,false),n("b",1,false))||c.F(n("b",1,true),n("a",1,true)) { no("by hash") }
	if c.F(n("b",1,true),n("a",1,false)) { no("a directory comes before a smaller hash") }
}
''','a directory and a file of the same size','both come before the other')
s('c09-fs-prev','C09',[(TR,'''	list = append(list, this.val)
''','''	if this.val.Path != "" || len(this.children.d) == 0 {
		list = append(list, this.val)
	}
''')],FS,'''func main(){
	root:=&fs.FileHashTreeNode{}
	if l:=root.All(); len(l)!=1 { no(l) }
	a:=root.AddChild(fs.FileHash{Path:"a"},-1); a.AddChild(fs.FileHash{Path:"b"},-1)
	if l:=a.All(); len(l)!=2||l[0].Path!="a" { no(l) }
	if l:=root.All(); len(l)!=3||l[1].Path!="a"||l[2].Path!="b" { no(l) }
}
''','a node without a path that has children','its value is missing from the collected ones')
s('c26-fs-sortchildren','C26',[(TR,'	this.children.Sort()\n','	if n := this.children.Len(); n > 0 && !this.children.Less(n-1, 0) {\n		return //already in order\n	}\n	this.children.Sort()\n')],FS,'''func main(){
	root:=&fs.FileHashTreeNode{}
	root.SortChildren()
	add:=func(n uint64){ root.AddChild(fs.FileHash{Size:fs.FileSize(n)},-1) }
	chk:=func(){ root.SortChildren(); k:=root.Children(); for i:=1;i<len(k);i++ { if k[i].Less(k[i-1]) { no("out of order at",i) } } }
	add(3); add(2); chk(); add(1); chk()
	add(0); chk(); add(9); chk()
	add(5); add(10); chk()
}
''','the last child not below the first, others out of order','the children stay unsorted')
s('c04-fs-remove','C04',[(SS,'''	if r, ok = this.Get(idx); ok {
''','''	if r, ok = this.Get(idx); ok && r == nil {
		return r, false
	}
	if ok {
''')],FS,'''func main(){
	s:=fs.NewFileHashSortSlice(0)
	a:=&fs.FileHashTreeNode{}
	s.Push(a); s.Push(nil); s.Push(a)
	if r,ok:=s.Remove(0); r!=a||!ok||s.Len()!=2 { no(r,ok) }
	if r,ok:=s.Remove(0); r!=nil||!ok||s.Len()!=1 { no("nil element",r,ok,s.Len()) }
}
''','a nil element','it cannot be removed')
