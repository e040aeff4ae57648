#!/usr/bin/env python3
"""ref.py SPEC.py [substr]: SPEC calls ref(name, [props], [(file, old, new)...]) - behaviour-preserving edits on which the checks must be quiet.
   bad(...) likewise, but every property must report."""
import os,sys,subprocess,tempfile,shutil
sub=sys.argv[2] if len(sys.argv)>2 else ''
env=dict(os.environ,GO111MODULE='off',GOFLAGS='',GOTOOLCHAIN='local',GOPROXY='off',GOWORK='off')
nok=nbad=0
from concurrent.futures import ThreadPoolExecutor
pool=ThreadPoolExecutor(int(os.environ.get('J','4')))
futs=[]
def ref(name,props,edits,want=0,only=None):
    if sub in name: futs.append(pool.submit(ref1,name,props,edits,want,only))
def ref1(name,props,edits,want,only):
    global nok,nbad
    w=tempfile.mkdtemp(prefix='ref.')
    try:
        g=w+'/src/github.com/vipally'; os.makedirs(g)
        subprocess.check_call(['git','clone','-q','/repo',g+'/gx'])
        pk=set()
        for f,old,new in edits:
            p=f'{g}/gx/{f}'
            s=open(p).read() if os.path.exists(p) else ''
            if old: assert s.count(old)==1,(name,f,s.count(old),old)
            open(p,'w').write(s.replace(old,new) if old else s+new)
            pk.add('github.com/vipally/gx/'+os.path.dirname(f))
        r=subprocess.run(['go','build']+sorted(pk),env=dict(env,GOPATH=w),capture_output=True,text=True,cwd=w)
        if r.returncode: print('BUILD',name,r.stderr[:300]); nbad+=1; return
        import time
        for q in props:
            t0=time.time()
            r=subprocess.run(['timeout','600']+[os.environ.get('GX','/verif/bin/gxcheck'),'-prop',q,'-root',g+'/gx','-out',w+'/o']+(['-only',only or os.environ['ONLY']] if only or 'ONLY' in os.environ else []),capture_output=True,text=True)
            if time.time()-t0>60: print('SLOW',name,q,int(time.time()-t0))
            if r.returncode==want: nok+=1
            else:
                nbad+=1
                l=[x for x in r.stdout.splitlines() if x.startswith('  ')]
                print(f'{"ALARM" if want==0 else "MISSED"} {name} {q} rc={r.returncode} {(l[0] if l else r.stderr[-300:])[:260]}')
    finally: shutil.rmtree(w)
def bad(name,props,edits,only=None): ref(name,props,edits,1,only)
exec(open(sys.argv[1]).read())
for f in futs: f.result()
print(f'{nok} ok, {nbad} not')
