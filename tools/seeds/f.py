H='package main\nimport ("fmt";"os";%s)\nfunc no(x ...interface{}){ fmt.Println(x...); os.Exit(1) }\nvar _ = fmt.Sprint\n'
def s(id,prop,edits,imports,body,needs,breaks): seed(id,prop,edits,H%imports+body,needs,breaks)
FS='"github.com/vipally/gx/fs"'
F='fs/file_path.go'
TMP='''	d,err:=os.MkdirTemp("","demo"); if err!=nil { no(err) }
	defer os.RemoveAll(d)
	fail:=func(x ...interface{}) { os.RemoveAll(d); no(x...) }
'''
s('c33-symlink-resolve','C33',[(F,'	err = os.Symlink(string(me), n.String())\n','	err = os.Symlink(me.Base(), n.String())\n')],FS,'''func main(){
'''+TMP+'''	os.MkdirAll(d+"/a/b",0755)
	os.WriteFile(d+"/a/f",[]byte("x"),0644)
	if _,err:=fs.FilePath(d+"/a/f").Symlink("l"); err!=nil { fail(err) }
	if b,err:=os.ReadFile(d+"/a/l"); err!=nil||string(b)!="x" { fail(err) }
	if _,err:=fs.FilePath(d+"/a/f").Symlink("b/l"); err!=nil { fail(err) }
	if b,err:=os.ReadFile(d+"/a/b/l"); err!=nil||string(b)!="x" { fail("link in another directory",err) }
}
''','a link that lies in another directory than the file it names','the link leads nowhere')
s('c33-remove-tree','C33',[(F,'	return os.Remove(string(me))\n','''	if err := os.Remove(string(me)); err != nil && !os.IsNotExist(err) {
		return os.RemoveAll(string(me))
	}
	return nil
''')],FS,'''func main(){
'''+TMP+'''	os.MkdirAll(d+"/a/b",0755)
	os.WriteFile(d+"/a/f",[]byte("x"),0644)
	if err:=fs.FilePath(d+"/a/f").Remove(); err!=nil { fail(err) }
	if err:=fs.FilePath(d+"/a").Remove(); err==nil { fail("a directory with contents was removed") }
	if _,err:=os.Stat(d+"/a/b"); err!=nil { fail(err) }
}
''','Remove of a directory that is not empty, or of a path that is not there','a whole directory tree is removed; a missing file is not reported')
s('c33-salt-once','C33',[(F,'''			if salt != "" {
				h.Write([]byte(salt))
			}
''','''			if salt != "" && fi.Size() > 0 {
				h.Write([]byte(salt))
			}
''')],FS+';"crypto/sha256"','''func main(){
'''+TMP+'''	for _,x:=range []string{"content","",} {
		os.WriteFile(d+"/f",[]byte(x),0644)
		n,err:=fs.FilePath(d+"/f").Hash(fs.SHA256,"salt")
		if err!=nil { fail(err) }
		if h:=fmt.Sprintf("%x",sha256.Sum256([]byte("salt"+x))); n.All()[0].Hash!=h { fail(x,n.All()[0].Hash,h) }
	}
}
''','a salted hash of an empty file','the salt is left out for empty files')
s('c33-less-path','C33',[(F,'	if this.Size == o.Size && this.Hash < o.Hash {\n','	if this.Size == o.Size && this.Hash <= o.Hash && this.Path != o.Path {\n')],FS,'''func main(){
	a,b:=fs.FileHash{Path:"a",Hash:"1",Size:3},fs.FileHash{Path:"b",Hash:"2",Size:3}
	if !a.Less(b)||b.Less(a) { no("order") }
	b.Hash="1"
	if a.Less(b)&&b.Less(a) { no("both less") }
	if a.Less(b)||b.Less(a) { no("equal size and hash, but less") }
}
''','two files with the same content','each of two equal files is less than the other: sorting has no meaning')
s('c33-stat-err','C33',[(F,'''			buf.WriteByte('\\n')
			//fmt.Println(err)
		}
		return nil
''','''			buf.WriteByte('\\n')
			//fmt.Println(err)
			return filepath.SkipDir
		}
		if info.Mode()&os.ModeSymlink != 0 && strings.HasPrefix(info.Name(), ".") {
			return filepath.SkipDir
		}
		return nil
''')],FS,'''func main(){
'''+TMP+'''	os.MkdirAll(d+"/a",0755)
	os.WriteFile(d+"/a/x",[]byte("12345"),0644)
	os.WriteFile(d+"/a/y",[]byte("123"),0644)
	if nd,nf,sz,_:=fs.FilePath(d).Statistic(); nd!=2||nf!=2||sz!=8 { fail(nd,nf,sz) }
	os.Symlink("x",d+"/a/.l")
	if nd,nf,_,_:=fs.FilePath(d).Statistic(); nd!=2||nf!=3 { fail("after a link",nd,nf) }
}
''','a symbolic link with a name that starts with a dot','the rest of its directory is not counted')
