# the edits of the tree, sort slice and comparator specs, on the instances in package fs
import re
_ref,_bad=ref,bad
M={'stl/tree.gp_int.go':'fs/tree.gp_filehash38b3.go','stl/sort_slice.gp_int.go':'fs/sort_slice.gp_#filehashtreenodef199.go','stl/sort_slice.gp_#inttreenodeb60b.go':'fs/sort_slice.gp_#filehashtreenodef199.go',
 'stl/functorcmp.gp_int.go':'fs/functorcmp.gp_#filehashtreenodef199.go','stl/functorcmp.gp_#inttreenodeb60b.go':'fs/functorcmp.gp_#filehashtreenodef199.go'}
def tr(f,x):
    f2=M.get(f)
    if not f2: return None
    for a,b in [('IntTreeNodeSortSlice','FileHashSortSlice'),('gIntSortSliceGbl','gFileHashSortSliceGbl'),('CmpIntTreeNode','CmpFileHash'),('IntTreeNode','FileHashTreeNode'),('IntTree','FileHashTree'),('IntSortSlice','FileHashSortSlice'),('CmpInt','CmpFileHash')]:
        x=x.replace(a,b)
    if 'tree.gp' in f: x=x.replace('[]int','[]FileHash') if 'idx' not in x else x
    else: x=re.sub(r'\[\]int\b','[]*FileHashTreeNode',x).replace('(v int','(v *FileHashTreeNode').replace('(r int','(r *FileHashTreeNode').replace('left, right int)','left, right *FileHashTreeNode)')
    return f2,x
def conv(edits):
    out=[]
    for f,a,b in edits:
        p,q=tr(f,a),tr(f,b)
        if not p: return None
        t=open('/repo/'+p[0]).read()
        if t.count(p[1])!=1: return None
        out.append((p[0],p[1],q[1]))
    return out
skip=0
def wrap(g):
    def h(name,props,edits,*a,**k):
        global skip
        e=conv(edits)
        if e is None: skip+=1; return
        g('fs-'+name,props,e,*a)
    return h
ref,bad=wrap(_ref),wrap(_bad)
for x in ['tree','sortslice','cmp','sort']:
    exec(open('/verif/tools/refs/%s.py'%x).read())
print('skipped',skip)
