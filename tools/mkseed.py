#!/usr/bin/env python3
"""mkseed.py SPEC.py: SPEC.py calls seed(id, prop, [(file, old, new)...], go_main, needs, breaks)."""
import os,sys,json,subprocess,tempfile,shutil
R='/repo'
DEMO='''#!/bin/bash
# exits 0 when the behaviour is right, nonzero when it is not
here="$(cd "$(dirname "$0")" && pwd)"
repo="$(pwd)"
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
w="$(mktemp -d)"
trap 'rm -rf "$w"' EXIT
mkdir -p "$w/src/github.com/vipally" "$w/src/demo"
ln -s "$repo" "$w/src/github.com/vipally/gx"
cp "$here/main.go.txt" "$w/src/demo/main.go"
export GOPATH="$w" GO111MODULE=off GOTOOLCHAIN=local GOFLAGS= GOWORK=off GOPROXY=off
cd "$w/src/demo" && go build -o "$w/demo" . || exit 3
cd "$w" && timeout 120 "$w/demo"
'''
def seed(id,prop,edits,main,needs,breaks):
    d=f'/verif/seeded/{id}'
    w=tempfile.mkdtemp(prefix='mks.')
    try:
        subprocess.check_call(['git','clone','-q',R,w+'/r'])
        for f,old,new in edits:
            p=f'{w}/r/{f}';s=open(p).read()
            assert s.count(old)==1,(id,f,s.count(old),old)
            open(p,'w').write(s.replace(old,new))
        diff=subprocess.check_output(['git','-C',w+'/r','diff'],text=True)
        for l in diff.splitlines():
            if l.startswith('--- a/'): base=subprocess.run(['git','-C',R,'show','3ec184a:'+l[6:]],capture_output=True,text=True).stdout.splitlines()
            elif l.startswith('-') and l[1:] not in base: print('NOT ORIGINAL',id,l[:120])
    finally: shutil.rmtree(w)
    os.makedirs(d,exist_ok=True)
    open(d+'/patch.diff','w').write(diff)
    open(d+'/demo.sh','w').write(DEMO); os.chmod(d+'/demo.sh',0o755)
    open(d+'/main.go.txt','w').write(main.lstrip())
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+'/meta.json','w'),indent=1)
    print('wrote',id)
exec(open(sys.argv[1]).read())
