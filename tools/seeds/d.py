H='package main\nimport ("fmt";"os";%s)\nfunc no(x ...interface{}){ fmt.Println(x...); os.Exit(1) }\nvar _ = fmt.Sprint\n'
def s(id,prop,edits,imports,body,needs,breaks): seed(id,prop,edits,H%imports+body,needs,breaks)
RN='"github.com/vipally/gx/math/rand"'
s('c29-rand-reload','C29',[('math/rand/rand.gp_32.go','	return n\n','	return atomic.LoadUint32(&me.seed)\n')],RN+';"sync"','''func main(){
	for round:=0;round<40;round++{
		r:=rand.NewRand32S(uint32(round))
		const G,N=8,40000
		var wg sync.WaitGroup
		got:=make([][]uint32,G)
		for g:=0;g<G;g++{
			g:=g
			wg.Add(1)
			go func(){ defer wg.Done(); for i:=0;i<N;i++{ got[g]=append(got[g],r.Rand()) } }()
		}
		wg.Wait()
		seen:=map[uint32]bool{}
		for _,x:=range got { for _,v:=range x { if seen[v] { no("drawn twice",v) }; seen[v]=true } }
	}
}
''','two goroutines drawing from one generator, the second one finishing its step before the first one returns','both goroutines are handed the same number and one number is never handed out')
s('c29-rand-cas-late','C29',[('math/rand/rand.gp_64.go','''		if atomic.CompareAndSwapUint64(&me.seed, o, n) {
			break
		}
''','''		if atomic.CompareAndSwapUint64(&me.seed, o, n) || atomic.LoadUint64(&me.seed) == n {
			break
		}
''')],RN+';"sync"','''func main(){
	for round:=0;round<40;round++{
		r:=rand.NewRand64S(uint64(round))
		const G,N=8,40000
		var wg sync.WaitGroup
		got:=make([][]uint64,G)
		for g:=0;g<G;g++{
			g:=g
			wg.Add(1)
			go func(){ defer wg.Done(); for i:=0;i<N;i++{ got[g]=append(got[g],r.Rand()) } }()
		}
		wg.Wait()
		seen:=map[uint64]bool{}
		for _,x:=range got { for _,v:=range x { if seen[v] { no("drawn twice",v) }; seen[v]=true } }
	}
}
''','two goroutines that read the same seed, the second one losing the swap to the first','a lost swap is taken for a success when the seed already has the wanted value: the same number is handed out twice')
s('c29-range-width','C29',[('math/rand/rand.gp_64.go','	d := max - min + 1\n','	d := uint64(uint32(max-min)) + 1\n'),('math/rand/rand.gp_64.go','	ret := r%d + min\n','	ret := r%d + min + (max-min)>>32<<32\n')],RN,'''func main(){
	r:=rand.NewRand64S(7)
	for _,x:=range [][2]uint64{{0,9},{5,5},{100,3},{1<<40,1<<40+3}} {
		lo,hi:=x[0],x[1]
		if hi<lo { lo,hi=hi,lo }
		for i:=0;i<1000;i++ { if v:=r.RandRange(x[0],x[1]); v<lo||v>hi { no(v,x) } }
	}
	low:=0
	for i:=0;i<1000;i++ { v:=r.RandRange(10,10+1<<33); if v<10||v>10+1<<33 { no(v) }; if v<10+1<<32 { low++ } }
	if low==0 { no("the lower half of the range is never drawn") }
}
''','a range at least 2^32 wide','only numbers in the last 2^32 of the range are ever drawn')
T='"github.com/vipally/gx/time"'
s('c30-string-day','C30',[('time/duration.go','	if d < Day {\n','	if d <= Day {\n')],T,'''func main(){
	if x:=time.Day.String(); x!="1d0s" { no(x) }
	if x:=(time.Day-1).String(); x!="23h59m59.999999999s" { no(x) }
}
''','a duration of exactly one day','exactly one day prints as 24h0m0s')
s('c30-string-rest','C30',[('time/duration.go','		left := d % Day\n','		left := (d - Duration(days)*Day) / Microsecond * Microsecond\n')],T,'''func main(){
	if x:=(time.Day+7*time.Second+500*time.Microsecond).String(); x!="1d7.0005s" { no(x) }
	if x:=(3*time.Day+1).String(); x!="3d1ns" { no(x) }
}
''','a duration of a day or more with a part below a microsecond','nanoseconds are cut off the printed text')
s('c30-parse','C30',[('time/duration.go','	return Duration(d), err\n','	return Duration(d.Round(time.Microsecond)), err\n')],T,'''func main(){
	for _,x:=range []string{"1h","-5s","-1.5s","2ms"} { if d,err:=time.ParseDuration(x); err!=nil||d.Std().String()!=d.String() { no(x,d,err) } }
	if d,err:=time.ParseDuration("-1500ns"); err!=nil||d!=-1500 { no(d,err) }
	if _,err:=time.ParseDuration("5x"); err==nil { no("accepted") }
}
''','a duration text with a part below a microsecond','the parsed value loses its nanoseconds')
