#!/usr/bin/env python3
"""mkseed.py SPEC.py : confirm planted bugs and store them under /verif/seeded.
SPEC defines SEEDS=[dict(id,property,edits=[(file,old,new)],demo=python source,needs,what)]"""
import sys, os, json, subprocess, shutil, runpy
V='/verif'; R='/repo'
def sh(c,**k): return subprocess.run(c,shell=isinstance(c,str),capture_output=True,text=True,**k)
BASE=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
def tests():
    sh('bash /opt/vp/test.sh /tmp/mkseed.json')
    r=json.load(open('/tmp/mkseed.json'))
    return r
def passing(r): return set(r['passed'])
def main():
    only=sys.argv[2:]
    for S in runpy.run_path(sys.argv[1])['SEEDS']:
        if only and S['id'] not in only: continue
        assert not sh('git -C /repo status --porcelain').stdout.strip(),'dirty repo'
        d=V+'/seeded/'+S['id']; tmp='/tmp/mkseed_'+S['id']
        shutil.rmtree(tmp,ignore_errors=True); os.makedirs(tmp)
        for f in ('h.py','wrap.c'): shutil.copy(V+'/tools/seedkit/'+f,tmp)
        open(tmp+'/demo.py','w').write('from h import *\n'+S['demo'])
        open(tmp+'/demo.sh','w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec python3-vt "$(cd "$(dirname "$0")" && pwd)/demo.py"\n'); os.chmod(tmp+'/demo.sh',0o755)
        json.dump(dict(property=S['property'],needs=S['needs'],what_it_breaks=S['what']),open(tmp+'/meta.json','w'),indent=1)
        ok=True
        r0=sh(['bash',tmp+'/demo.sh'],cwd=R)
        if r0.returncode: print(S['id'],'demo fails on the unchanged tree:',r0.stdout[-800:],r0.stderr[-800:]); continue
        try:
            for f,a,b in S['edits']:
                t=open(R+'/'+f).read()
                if t.count(a)!=1: print(S['id'],'edit matches',t.count(a),f,repr(a)[:80]); ok=False; break
                open(R+'/'+f,'w').write(t.replace(a,b))
            if ok:
                open(tmp+'/patch.diff','w').write(sh('git -C /repo diff').stdout)
                p=passing(tests())
                miss=BASE-p
                if miss: print(S['id'],'tests now failing:',sorted(miss)[:5]); ok=False
                r1=sh(['bash',tmp+'/demo.sh'],cwd=R)
                if r1.returncode==0 or r1.returncode==99: print(S['id'],'demo does not fail with the patch',r1.returncode,r1.stdout[-300:]); ok=False
        finally: sh('git -C /repo checkout -- .')
        if ok:
            shutil.rmtree(d,ignore_errors=True); shutil.copytree(tmp,d); print(S['id'],'kept',r1.stdout[-150:].strip())
        shutil.rmtree(tmp,ignore_errors=True)
main()
