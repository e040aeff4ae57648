H='package main\nimport ("fmt";"os";"github.com/vipally/gx/fs")\nfunc no(x ...interface{}){ fmt.Println(x...); os.Exit(1) }\n'+'''func is(n uint64, want string){ if g:=fs.FileSize(n).String(); g!=want { no(n,g,want) } }
'''
def s(id,edits,body,needs,breaks): seed(id,'C37',edits,H+body,needs,breaks)
F='fs/file_size.go'
s('c37-boundary',[(F,'if (m64 >> b) < kb {','if (m64>>b) < kb || m64>>b == kb && m64<<(64-b) == 0 {')],'''func main(){
	is(1024,"1.000KB"); is(1023,"1023.000B"); is(1025,"1.001KB"); is(1<<20,"1.000MB"); is(1<<30,"1.000GB"); is(1<<20+1<<10,"1.001MB"); is(1<<60,"1.000EB")
}
''','a size that is exactly a power of 1024','it is shown as 1024 of the smaller unit')
s('c37-signed',[(F,'d := float64(me) / float64(m)','d := float64(int64(me)) / float64(m)')],'''func main(){
	is(1<<63,"8.000EB"); is(1<<63-1,"8.000EB"); is(1<<64-1,"16.000EB"); is(5,"5.000B")
}
''','sizes of 2^63 and more','a negative size is shown')
s('c37-shift',[(F,'m := 1 << b','m := uint32(1) << (b % 32)')],'''func main(){
	is(1<<20,"1.000MB"); is(3<<30,"3.000GB"); is(1<<40,"1.000TB"); is(1<<60,"1.000EB")
}
''','sizes of a terabyte and more','the number is off by a power of two')
