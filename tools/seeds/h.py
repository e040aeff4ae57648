H='package main\nimport ("fmt";"os";"sort";"strings";"github.com/vipally/gx/fs")\nfunc no(x ...interface{}){ fmt.Println(x...); os.Exit(1) }\n'+'''func same(got []string, err error, want ...string){ if err!=nil { no(err) }; sort.Strings(got); sort.Strings(want); if strings.Join(got," ")!=strings.Join(want," ") { no("got",got,"want",want) } }
func mk(files ...string){ for _,f:=range files { if strings.HasSuffix(f,"/") { os.MkdirAll(f,0755) } else { if i:=strings.LastIndex(f,"/"); i>=0 { os.MkdirAll(f[:i],0755) }; os.WriteFile(f,nil,0644) } } }
'''
def s(id,edits,body,needs,breaks): seed(id,'C35',edits,H+body,needs,breaks)
F='fs/fs.go'
s('c35-swallow',[(F,'if _r, err := CollectSubs(_fullsubname, opt); err == nil {\n							subs = append(subs, _r...)\n						} else {','if _r, err := CollectSubs(_fullsubname, opt); err == nil || os.IsNotExist(err) || len(subs) > 0 {\n							subs = append(subs, _r...)\n						} else {')],'''func main(){
	mk("t/a")
	same(strList())
	top,_:=os.Getwd()
	n:=strings.Repeat("d",250)
	os.Chdir("t")
	for i:=0;i<18;i++ { mk("x"); if err:=os.Mkdir(n,0755); err!=nil { no(err) }; os.Chdir(n) }
	os.Chdir(top)
	if l,err:=fs.GetDeepFiles("t"); err==nil { no("no error",len(l)) }
}
func strList() ([]string,error,string) { l,e:=fs.GetDeepFiles("t"); return l,e,"a" }
'''.replace("same(strList())",'l,e:=fs.GetDeepFiles("t"); same(l,e,"a")').replace('''func strList() ([]string,error,string) { l,e:=fs.GetDeepFiles("t"); return l,e,"a" }
''',''),'a directory below that cannot be opened, after an entry was found','an incomplete list without an error')
s('c35-leaf-files',[(F,'if !_has_sub_dir && opt.has(FsLeaf|FsDir) {','if !_has_sub_dir && (len(_subs) == 0 || len(subs) == 0) && opt.has(FsLeaf|FsDir) {')],'''func main(){
	mk("t/a/x","t/b/c/","t/b/y")
	l,e:=fs.GetLeafDirs("t"); same(l,e,"t/a","t/b/c")
	l,e=fs.CollectSubs("t",fs.FsDir|fs.FsFile|fs.FsLeaf|fs.FsFullPath); same(l,e,"t/a","t/a/x","t/b/c","t/b/y")
}
''','leaf directories together with files','a leaf directory with files is missing')
s('c35-hidden',[(F,'if _sub_name == "." || _sub_name == ".." {','if len(_sub_name) > 1 && _sub_name[:2] == ".." || _sub_name == "." {')],'''func main(){
	mk("t/.git/x","t/..old/y","t/...z/","t/w")
	l,e:=fs.GetSubDirs("t"); same(l,e,".git","..old","...z")
	l,e=fs.GetDeepFiles("t"); same(l,e,"x","y","w")
}
''','a directory whose name starts with two dots','it and all below is missing')
s('c35-deep-prune',[(F,'if opt.has_any(FsDeep | FsLeaf) {','if opt.has_any(FsDeep|FsLeaf) && (_v.Size() > 0 || opt.has(FsLeaf)) && (opt.has(FsFile) || !opt.has(FsFullPath)) {')],'''func main(){
	mk("t/a/b/c/","t/a/f")
	l,e:=fs.CollectSubs("t",fs.FsDir|fs.FsDeep); same(l,e,"a","b","c")
	l,e=fs.CollectSubs("t",fs.FsDir|fs.FsDeep|fs.FsFullPath); same(l,e,"t/a","t/a/b","t/a/b/c")
	l,e=fs.GetLeafDirs("t"); same(l,e,"t/a/b/c")
}
''','only directories, deep, with full paths','directories below are missing')
s('c35-leaf-top',[(F,'			if !_has_sub_dir && opt.has(FsLeaf|FsDir) {','			if !_has_sub_dir && opt.has(FsLeaf|FsDir) && (opt.has(FsFullPath) || FileName(dir) != "") {')],'''func main(){
	mk("t/a/","u/f")
	l,e:=fs.CollectSubs("t",fs.FsDir|fs.FsLeaf); same(l,e,"a")
	l,e=fs.CollectSubs("u/",fs.FsDir|fs.FsLeaf); if len(l)!=1 { no(l,e) }
	l,e=fs.CollectSubs("u",fs.FsDir|fs.FsLeaf); same(l,e,"u")
}
''','a path that ends with a slash','the directory itself is missing')
s('c35-closed',[(F,'		defer _f.Close()\n','		if opt.has_any(FsDeep | FsLeaf) {\n			defer _f.Close()\n		}\n')],'''func main(){
	mk("t/a")
	n:=func() int { d,_:=os.ReadDir("/proc/self/fd"); return len(d) }
	a:=n()
	var keep [][]string
	for i:=0;i<50;i++ { l,e:=fs.GetSubFiles("t"); same(l,e,"a"); keep=append(keep,l) }
	if b:=n(); b>a+20 { no("open files",a,b) }
	_ = keep
}
''','shallow listings','the directory stays open')
