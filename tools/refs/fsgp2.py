T='fs/tree.gp_filehash38b3.go'; Q='fs/sort_slice.gp_#filehashtreenodef199.go'; F='fs/functorcmp.gp_#filehashtreenodef199.go'; P='fs/file_path.go'
A=['C08','C09','C26','C33']
L='	ok = this.val.Less(right.val)\n'
ref('less-inline',A,[(T,L,'	a, b := &this.val, &right.val\n	ok = a.Size < b.Size || a.Size == b.Size && a.Hash < b.Hash\n')])
ref('less-hash',A,[(P,'''	if this.Size < o.Size {
		return true
	}
	if this.Size == o.Size && this.Hash < o.Hash {
		return true
	}

	return false
''','''	if this.Size != o.Size {
		return this.Size < o.Size
	}
	return this.Hash < o.Hash
''')])
ref('less-switch',A,[(P,'''	if this.Size < o.Size {
		return true
	}
	if this.Size == o.Size && this.Hash < o.Hash {
		return true
	}

	return false
''','''	switch {
	case this.Size > o.Size:
		return false
	case this.Size < o.Size:
		return true
	}
	return o.Hash > this.Hash
''')])
ref('sortch',['C26','C09'],[(T,'	this.children.Sort()\n','	kids := this.children.Buffer()\n	sort.Slice(kids, func(i, j int) bool { return kids[i].Less(kids[j]) })\n'),(T,'package fs\n','package fs\n\nimport "sort"\n')],0,'SortChildren')
ref('sortch-sort',['C26'],[(T,'	this.children.Sort()\n','	sort.Sort(&this.children)\n'),(T,'package fs\n','package fs\n\nimport "sort"\n')],0,'SortChildren')
ref('sortch-stl',['C26'],[('stl/tree.gp_int.go','	this.children.Sort()\n','	if this.children.Len() > 1 {\n		this.children.Sort()\n	}\n')],0,'SortChildren')
ref('sort-stable',['C26'],[(Q,'	sort.Sort(this)\n','	sort.Stable(this)\n')],0,'FileHash')
bad('less-size',['C08'],[(T,L,'	ok = this.val.Size < right.val.Size\n')])
bad('less-le',['C08'],[(T,L,'	ok = !right.val.Less(this.val)\n')])
bad('less-path',['C08'],[(T,L,'	ok = this.val.Less(right.val) || this.val.Size == right.val.Size && this.val.Hash == right.val.Hash && this.val.Path < right.val.Path\n')])
bad('less-dir',['C08'],[(T,L,'	if this.val.IsDir != right.val.IsDir {\n		return this.val.IsDir\n	}\n	ok = this.val.Less(right.val)\n')])
bad('less-dir33',['C33','C08'],[(P,'	if this.Size < o.Size {\n','	if this.IsDir && !o.IsDir {\n		return true\n	}\n	if this.Size < o.Size {\n')])
bad('great-eq',['C08'],[(F,'	ok = right.Less(left)\n','	ok = !left.Less(right)\n')])
bad('sortch-2',['C26'],[(T,'	this.children.Sort()\n','	if this.children.Len() > 2 {\n		this.children.Sort()\n	}\n')],'SortChildren')
bad('sortch-grand',['C26'],[('stl/tree.gp_int.go','	this.children.Sort()\n','	for _, c := range this.children.Buffer() {\n		c.children.Sort()\n	}\n')],'SortChildren')
bad('sort-greater',['C26'],[(Q,'CreateByName("")','CreateByName("Greater")')],'FileHash')
ref('all-self',['C09'],[(T,'		list = append(list, v.All()...)\n','		if len(list) > 0 || v.NumChildren() > 0 {\n			list = append(list, v.All()...)\n		} else {\n			list = append(list, v.val)\n		}\n')])
bad('insert',['C04'],[(Q,'	if idx >= 0 && idx < this.Len() {\n		this.d = append','	if idx > 0 && idx < this.Len() {\n		this.d = append')])
