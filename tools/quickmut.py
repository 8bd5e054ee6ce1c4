#!/usr/bin/env python3
"""quickmut.py LIST.py [ids]: applies each mutant of LIST.py (M=[(id,[props],[(file,old,new)])])
to a scratch copy and reports whether the quick checks of its properties notice it."""
import sys,os,subprocess,runpy,threading,queue
M=runpy.run_path(sys.argv[1])['M']; only=sys.argv[2:]
V=os.environ.get('VDIR','/verif'); W=int(os.environ.get('W','2'))
q=queue.Queue()
for m in M:
    if not only or m[0] in only: q.put(m)
def sh(c,cwd=None,env=None,t=900):
    e=dict(os.environ); e.update(env or {})
    try: p=subprocess.run(['bash','-c',c],cwd=cwd,env=e,capture_output=True,text=True,timeout=t)
    except subprocess.TimeoutExpired: return 124,'timeout'
    return p.returncode,p.stdout+p.stderr
def work(w):
    S=f'/tmp/qm{w}'
    while True:
        try: i,props,edits=q.get_nowait()
        except queue.Empty: break
        sh(f'rm -rf {S}; cp -a /repo {S}')
        bad=False
        for f,old,new in edits:
            t=open(f'{S}/{f}').read()
            if t.count(old)!=1: print(i,'NOMATCH',f,t.count(old),flush=True); bad=True;break
            open(f'{S}/{f}','w').write(t.replace(old,new))
        if bad: continue
        rc,o=sh('. /opt/vp/env.sh; $GO build ./...',cwd=S)
        if rc: print(i,'NOBUILD',o[-300:],flush=True); continue
        res=[]
        for p in props:
            if os.environ.get('STOP') and res and 'CAUGHT' in res[-1]: break
            os.makedirs(f'/tmp/qmev{w}',exist_ok=True)
            rc,o=sh(f'bash {V}/check.sh check {p} quick',env={'VERIF_REPO':S,'VERIF_EVIDENCE_DIR':f'/tmp/qmev{w}'})
            res.append(f'{p}:'+('CAUGHT' if rc==1 and f'VIOLATION property={p}' in o else f'MISSED rc={rc}'+(' NOTE' if 'NOTE' in o else '')))
        print(i,' '.join(res),flush=True)
    sh(f'rm -rf {S}')
ts=[threading.Thread(target=work,args=(w,)) for w in range(W)]
[t.start() for t in ts];[t.join() for t in ts]
