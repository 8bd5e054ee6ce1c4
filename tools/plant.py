#!/usr/bin/env python3
"""plant.py SPEC.py: plants the bugs of SPEC (list SEEDS) into a scratch copy,
confirms them and writes seeded/<id>/. Options: --nocheck, --only ID."""
import sys, os, subprocess, json, shutil, runpy
V=os.environ.get('VDIR','/verif'); S='/tmp/seedrepo'
spec=runpy.run_path(sys.argv[1])['SEEDS']
only=[a for a in sys.argv[2:] if not a.startswith('--')]
def sh(c,cwd=None,env=None,t=900):
    e=dict(os.environ); e.update(env or {})
    try:
        p=subprocess.run(['bash','-c',c],cwd=cwd,env=e,capture_output=True,text=True,timeout=t)
    except subprocess.TimeoutExpired:
        return 124,'timeout'
    return p.returncode,p.stdout+p.stderr
DEMO='''#!/bin/bash
# run with cwd = the repository
d=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
o=$(mktemp -d)
trap 'rm -rf "$o"' EXIT
cat > "$o/ov.json" <<E
{"Replace": {"$PWD/%(pkg)s/zz_demo_test.go": "$d/demo_test.go.txt"}}
E
"${GO:-go}" test -vet=off -count=1 -timeout 120s -overlay "$o/ov.json" -run '^TestZZDemo$' ./%(pkg)s
'''
base=set(json.load(open('/opt/vp/BASELINE.json')).get('stable',[]) or [])
for s in spec:
    if only and s['id'] not in only: continue
    sh(f'rm -rf {S}; cp -a /repo {S}')
    ok=True
    for f,old,new in s['edits']:
        p=f'{S}/{f}'; t=open(p).read()
        if t.count(old)!=1:
            print(s['id'],'EDIT does not match uniquely',f,t.count(old),repr(old[:60])); ok=False; break
        open(p,'w').write(t.replace(old,new))
    if not ok: continue
    d=f"{V}/seeded/{s['id']}"
    os.makedirs(d,exist_ok=True)
    rc,out=sh('git diff',cwd=S); open(d+'/patch.diff','w').write(out)
    open(d+'/demo_test.go.txt','w').write(s['demo'].lstrip())
    open(d+'/demo.sh','w').write(DEMO%{'pkg':s['pkg']})
    os.chmod(d+'/demo.sh',0o755)
    json.dump({'property':s['property'],'needs':s['needs'],'what_it_breaks':s['breaks']},open(d+'/meta.json','w'),indent=1)
    rc0,o0=sh(f'bash {d}/demo.sh',cwd='/repo')
    rc1,o1=sh(f'bash {d}/demo.sh',cwd=S)
    rcb,ob=sh('. /opt/vp/env.sh; $GO build ./...',cwd=S)
    rct,ot=(0,'')
    if '--notest' not in sys.argv:
        rct,ot=sh('. /opt/vp/env.sh; for i in 1 2; do $GO test -vet=off -count=1 -p 1 -timeout 10m ./... && exit 0; done; exit 1',cwd=S)
    v='?'
    if '--nocheck' not in sys.argv:
        rcc,oc=sh(f"bash {V}/check.sh check {s['property']} quick",env={'VERIF_REPO':S,'VERIF_EVIDENCE_DIR':'/tmp'})
        v=f"check rc={rcc} "+' '.join(l for l in oc.splitlines() if 'VIOLATION' in l or l.startswith('  H'))[:200]
    print(s['id'],'clean',rc0,'patched',rc1,'build',rcb,'tests',rct,v,flush=True)
    if rc0: print(o0[-1500:])
    if rc1==0 or rc1==124: print('NOT SHOWN',o1[-600:])
    if 'FAIL' not in o1 : print(o1[-600:])
    if '[build failed]' in o1: print('DEMO BUILD',o1[-900:])
    if rct: print('\n'.join(l for l in ot.splitlines() if 'FAIL' in l)[:600])
sh(f'rm -rf {S}')
