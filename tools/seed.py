#!/usr/bin/env python3
"""seed.py test ID [--nocheck] [--nobuildtests] : apply seeded/ID/patch.diff to /repo, build, test, demo, run the property's check, undo.
   importable: mk(id, prop, needs, breaks, edits, demo)"""
import json, os, subprocess, sys
ROOT=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO='''#!/bin/bash
# exit 0: behaves as specified; nonzero: the property is broken. Run in /repo after the build.
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
B=/repo/_build/Src
g++ -std=c++17 -O1 -w -DLIBCZISTATICLIB -I/repo/Src/libCZI -I/repo/Src/libCZIAPI/inc -I$B/libCZI "$D/demo.cpp" $B/libCZIAPI/liblibCZIAPIStatic.a $B/libCZI/liblibCZIStatic.a $(ls $B/JxrDecode/*.a 2>/dev/null) -lzstd -lcurl -lpthread -o "$T/demo" || exit 97
cd "$T" && timeout 120 ./demo
'''
def sh(c,**k): return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors='replace',**k)
def mk(id,prop,needs,breaks,edits,demo):
    d=os.path.join(ROOT,'seeded',id); os.makedirs(d,exist_ok=True)
    sh('git -C /repo checkout -- .')
    for f,o,n in edits:
        p=os.path.join('/repo',f); s=open(p,newline='').read()
        if '\r\n' in s: o=o.replace('\r\n','\n').replace('\n','\r\n'); n=n.replace('\r\n','\n').replace('\n','\r\n')
        assert s.count(o)==1,(id,f,s.count(o),o[:60])
        open(p,'w',newline='').write(s.replace(o,n))
    diff=subprocess.run('git -C /repo diff',shell=True,stdout=subprocess.PIPE).stdout
    open(os.path.join(d,'patch.diff'),'wb').write(diff)
    sh('git -C /repo checkout -- .')
    import shutil; shutil.copy(os.path.join(ROOT,'tools','demo_common.h'),os.path.join(d,'common.h'))
    open(os.path.join(d,'demo.cpp'),'w').write('#include "common.h"\n'+demo); open(os.path.join(d,'demo.sh'),'w').write(DEMO); os.chmod(os.path.join(d,'demo.sh'),0o755)
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(os.path.join(d,'meta.json'),'w'),indent=1)
def test(id,check=True,full=True):
    d=os.path.join(ROOT,'seeded',id); prop=json.load(open(d+'/meta.json'))['property']; res={}
    st=sh('git -C /repo status --porcelain').stdout
    if st.strip(): print('repo dirty'); return
    try:
        r=sh('git -C /repo apply %s/patch.diff'%d); 
        if r.returncode: print(id,'APPLY FAILED',r.stdout); return
        b=sh('bash /opt/vp/build.sh'); res['build']=b.returncode
        if b.returncode: print(b.stdout[-2500:]); return
        if full:
            t=sh('bash /opt/vp/test.sh /tmp/seed.json'); res['tests']=t.stdout.strip().splitlines()[-1]
            j=json.load(open('/tmp/seed.json')); res['failed']=j.get('failed')
        dm=sh('bash %s/demo.sh'%d,cwd='/repo'); res['demo_with_patch']=dm.returncode
        if dm.returncode in (0,97): print('demo output:',dm.stdout[-1500:])
        if check:
            k=sh('VERIF_SEED=1 python3 checks/run.py %s quick'%prop,cwd=ROOT); res['check']=k.returncode
            res['why']=[l for l in k.stdout.splitlines() if 'reason' in l or 'VIOLATION' in l or 'ERROR' in l][:3]
    finally:
        sh('git -C /repo checkout -- .')
    print(id,prop,json.dumps(res),flush=True); return res
def clean_demos(ids):
    sh('bash /opt/vp/build.sh')
    for i in ids:
        d=os.path.join(ROOT,'seeded',i); dm=sh('bash %s/demo.sh'%d,cwd='/repo'); print(i,'clean demo rc',dm.returncode, '' if dm.returncode==0 else dm.stdout[-800:],flush=True)
if __name__=='__main__':
    a=[x for x in sys.argv[1:] if not x.startswith('--')]
    ids=a[1:] or sorted(os.listdir(ROOT+'/seeded'))
    if a[0]=='test':
        for i in ids: test(i,'--nocheck' not in sys.argv,'--nobuildtests' not in sys.argv)
        clean_demos(ids)
