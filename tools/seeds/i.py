H='package main\nimport ("fmt";"os";"strings";"github.com/vipally/gx/fs";xhash "github.com/vipally/gx/hash")\nfunc no(x ...interface{}){ fmt.Println(x...); os.Exit(1) }\nvar _ = xhash.MD5\n'+'''func mk(l ...string){ for _,f:=range l { k:=strings.SplitN(f,"=",2); if len(k)==1 { os.MkdirAll(f,0755); continue }; if i:=strings.LastIndex(k[0],"/"); i>=0 { os.MkdirAll(k[0][:i],0755) }; os.WriteFile(k[0],[]byte(k[1]),0644) } }
func val(n *fs.FileHashTreeNode, err error) fs.FileHash { if err!=nil { no(err) }; return n.All()[0] }
func fp(d string) fs.FileHash { return val(fs.FilePath(d).Fingerprint()) }
func hs(d,salt string) fs.FileHash { return val(fs.FilePath(d).Hash(xhash.SHA1,salt)) }
'''
def s(id,edits,body,needs,breaks): seed(id,'C36',edits,H+body,needs,breaks)
F='fs/file_path.go'
FPL='''					root.SortChildren()
					for _, v := range root.Children() {
						r := strings.NewReader(v.val.Hash)
						io.Copy(h, r)
						root.val.Size += v.val.Size
					}
					root.val.IsDir = true
				}
			} else {
				r := io.Reader(f)
				if _, err = io.Copy(h, r); err != nil {
					return nil, err
				}
				root.val.Size = FileSize(fi.Size())
			}
			'''
RS='h.Resetsize('; X='p := fmt.Sprintf('
s('c36-sort-equal',[(F,FPL+RS,FPL.replace('root.SortChildren()','if c := root.Children(); len(c) > 1 && c[0].val.Size != c[len(c)-1].val.Size {\n						root.SortChildren()\n					}')+RS)],'''func main(){
	mk("p/a=xx","p/b=yy","q/a=yy","q/b=xx","r/b=yy","r/a=xx","s/b=xx","s/a=yy","u/a=xx","u/b=yyy","v/a=yyy","v/b=xx")
	a:=fp("p")
	for _,d:=range []string{"q","r","s"} { if b:=fp(d); b.Hash!=a.Hash||b.Size!=4 { no(d,b,a) } }
	if a,b:=fp("u"),fp("v"); a.Hash!=b.Hash { no(a,b) }
}
''','entries of equal size','the fingerprint depends on names or the order of listing')
s('c36-zero-entries',[(F,FPL+X,FPL.replace('						io.Copy(h, r)\n','						if v.val.Size > 0 || v.val.IsDir {\n							io.Copy(h, r)\n						}\n')+X)],'''func main(){
	mk("p/a=xx","p/b=","q/a=xx","r/a=xx","r/c")
	if a,b:=hs("p",""),hs("q",""); a.Hash==b.Hash { no("an empty file makes no difference") }
	if a,b:=hs("r",""),hs("q",""); a.Hash==b.Hash { no("an empty directory makes no difference") }
}
''','an empty file in the directory','it is left out of the hash')
s('c36-salt-once',[(F,'FilePath(_subfullname).Hash(method, salt)','FilePath(_subfullname).Hash(method, strings.TrimSpace(salt))')],'''func main(){
	mk("p/a=xx")
	for _,salt:=range []string{"","s"," s"," "} {
		n,err:=fs.FilePath("p").Hash(xhash.SHA1,salt); if err!=nil { no(err) }
		if a,b:=hs("p/a",salt),n.Children()[0].All()[0]; a.Hash!=b.Hash { no("salt",salt) }
	}
}
''','a salt with a space at an end','files in a directory get another hash than by themselves')
s('c36-swallow',[(F,'''if sub, err = FilePath(_subfullname).Fingerprint(); err == nil {
								root.AddChildNode(sub, -1)
							} else {''','''if sub, err = FilePath(_subfullname).Fingerprint(); err == nil {
								root.AddChildNode(sub, -1)
							} else if v.Mode().IsRegular() || v.IsDir() {''')],'''func main(){
	mk("p/a=xx"); fp("p")
	os.Symlink("nowhere","p/b")
	if n,err:=fs.FilePath("p").Fingerprint(); err==nil { no("no error",len(n.Children())) }
	os.Remove("p/b"); fp("p")
}
''','an entry that is neither a file nor a directory and cannot be opened','an incomplete fingerprint without an error')
