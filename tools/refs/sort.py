Q='stl/sort_slice.gp_int.go'
T='stl/sort_slice.gp_#inttreenodeb60b.go'
H='stl/heap.gp_int.go'
C=['C26']
def o(f): return 'SortHeap' if f==H else 'SortSlice'
def r(name,*ch,f=Q): ref(name,C,[(f,)+c for c in ch],0,o(f))
def b(name,*ch,f=Q): bad(name,C,[(f,)+c for c in ch],o(f))
S='	sort.Sort(this)\n'
SW='	(this.d)[i], (this.d)[j] = (this.d)[j], (this.d)[i]\n'
r('stable',(S,'	sort.Stable(this)\n'))
r('short',(S,'	if len(this.d) < 2 {\n		return\n	}\n	sort.Sort(this)\n'))
r('slice',(S,'	sort.Slice(this.d, func(i, j int) bool {\n		return gIntSortSliceGbl.cmp.F(this.d[i], this.d[j])\n	})\n'))
r('slice-less',(S,'	sort.Slice(this.d, this.Less)\n'))
r('slice-local',(S,'	d := this.d\n	sort.SliceStable(d, func(i, j int) bool {\n		return d[i] < d[j]\n	})\n'))
r('slice-gt',(S,'	d := this.d\n	sort.Slice(d, func(i, j int) bool {\n		return d[j] > d[i]\n	})\n'))
r('swap-tmp',(SW,'	t := this.d[i]\n	this.d[i] = this.d[j]\n	this.d[j] = t\n'))
r('swap-d',(SW,'	d := this.d\n	d[j], d[i] = d[i], d[j]\n'))
r('sorter',(S,'	var s sort.Interface = this\n	sort.Sort(s)\n'))
r('ints',(S,'	sort.Ints(this.d)\n'))
r('tree-stable',(S,'	sort.Stable(this)\n'),f=T)
r('tree-slice',(S,'	sort.Slice(this.d, this.Less)\n'),f=T)
r('tree-swap',(SW,'	a, c := this.d[i], this.d[j]\n	this.d[i], this.d[j] = c, a\n'),f=T)
P='''	for t := b; len(t) > 1; {
		t, _, _ = this.PopHeap(t)
	}
'''
r('sh-index',(P,'	for n := len(b); n > 1; n-- {\n		this.PopHeap(b[:n])\n	}\n'),f=H)
r('sh-index0',(P,'	for n := len(b); n > 0; n-- {\n		this.PopHeap(b[:n])\n	}\n'),f=H)
r('sh-while',(P,'	t := b\n	for len(t) > 1 {\n		t, _, _ = this.PopHeap(t)\n	}\n'),f=H)
r('sh-adjust',(P,'''	for end := len(b) - 1; end > 0; end-- {
		last := b[end]
		b[end] = b[0]
		this.adjustDown(b[:end], 0, last)
	}
'''),f=H)
r('sh-swap',(P,'''	for end := len(b) - 1; end > 0; end-- {
		b[0], b[end] = b[end], b[0]
		this.adjustDown(b[:end], 0, b[0])
	}
'''),f=H)
r('sh-short',('	this.MakeHeap(b)\n	for t','	if len(b) < 2 {\n		return b\n	}\n	this.MakeHeap(b)\n	for t'),f=H)
b('less-rev',(S,'	sort.Sort(sort.Reverse(this))\n'))
b('less-wrong',(S,'	sort.Slice(this.d, func(i, j int) bool {\n		return gIntSortSliceGbl.cmp.F(this.d[j], this.d[i])\n	})\n'))
b('less-i',(S,'	sort.Slice(this.d, func(i, j int) bool {\n		return i < j\n	})\n'))
b('less-le',(S,'	sort.Slice(this.d, func(i, j int) bool {\n		return this.d[i] <= this.d[j]\n	})\n'))
b('copy',(S,'	d := append([]int(nil), this.d...)\n	sort.Ints(d)\n'))
b('part',(S,'	if n := len(this.d); n > 1 {\n		sort.Ints(this.d[:n-1])\n	}\n'))
b('swap-half',(SW,'	this.d[i] = this.d[j]\n'))
b('swap-cond',(SW,'	if i < j {\n		this.d[i], this.d[j] = this.d[j], this.d[i]\n	}\n'))
b('short3',(S,'	if len(this.d) < 3 {\n		return\n	}\n	sort.Sort(this)\n'))
b('sh-early',(P,'	for t := b; len(t) > 2; {\n		t, _, _ = this.PopHeap(t)\n	}\n'),f=H)
b('sh-nomake',('	this.MakeHeap(b)\n	for t','	for t'),f=H)
b('sh-one',(P,'	for n := len(b) - 1; n > 1; n-- {\n		this.PopHeap(b[:n])\n	}\n'),f=H)
b('tree-rev',(S,'	sort.Sort(sort.Reverse(this))\n'),f=T)
