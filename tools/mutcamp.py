#!/usr/bin/env python3
"""Mutation campaign: mutcamp.py WORKER NWORKERS MOD RESIDUES OUT [files...]
Runs the checks anchored at a file against small mutations of it which compile
and pass the package's tests; survivors are listed in OUT."""
import sys, os, subprocess, json, shutil, re
W, N, MOD = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3])
RES = set(map(int, sys.argv[4].split(',')))
OUT = sys.argv[5]
only = sys.argv[6:]
R, V = f'/tmp/mr{W}', f'/tmp/vm{W}'
for d in (R, V):
    shutil.rmtree(d, ignore_errors=True)
subprocess.run(['cp', '-a', '/repo', R], check=True)
os.makedirs(V)
for x in ('bin', 'harness', 'known-findings.txt'):
    subprocess.run(['cp', '-a', f'/verif/{x}', f'{V}/{x}'], check=True)
cov = {}
for l in open('/verif/properties.jsonl'):
    p = json.loads(l)
    for f in p['anchors']['files']:
        cov.setdefault(f, []).append(p['id'])
cost = {}
for i in sum(cov.values(), []):
    try: cost[i] = json.load(open(f'/verif/evidence/{i}.json'))['wall_s']
    except Exception: cost[i] = 99
env = dict(os.environ, VERIF_REPO=R, VERIF_DIR=V, VERIF_WORKERS='3')
genv = subprocess.run(['bash', '-c', '. /opt/vp/env.sh; env -0'], capture_output=True, text=True).stdout
gosh = dict(e.split('=', 1) for e in genv.split('\0') if '=' in e)
def sh(c, e, t):
    try:
        p = subprocess.run(['timeout', '-k', '5', str(t), 'bash', '-c', c], cwd=R, env=e, capture_output=True, text=True)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 124, 'timeout'
def skipped(src):
    out, on = set(), False
    for i, l in enumerate(open(src), 1):
        if l.startswith('func ') and (' String()' in l or 'Dump' in l): on = True
        if on or 'DumpToFile' in l or 'dumpToFile' in l: out.add(str(i))
        if l.startswith('}'): on = False
    return out
files = only or sorted(cov)
jobs = []
for f in files:
    src = f'/repo/{f}'
    skip = skipped(src)
    for l in subprocess.run(['/tmp/mutate', src], capture_output=True, text=True).stdout.splitlines():
        n, line, desc = l.split('\t')
        if int(n) % MOD in RES and line.split(':')[-1] not in skip:
            jobs.append((f, int(n), line, desc))
import random
random.Random(7).shuffle(jobs)
jobs = jobs[W::N]
out = open(OUT, 'a')
for f, n, line, desc in jobs:
    orig = open(f'/repo/{f}').read()
    m = subprocess.run(['/tmp/mutate', f'/repo/{f}', str(n)], capture_output=True, text=True).stdout
    open(f'{R}/{f}', 'w').write(m)
    pkg = './' + os.path.dirname(f)
    res = ''
    if not res:
        rc, o = sh(f'go test -vet=off -count=1 -timeout 60s {pkg}', gosh, 90)
        if rc: res = 'tests'
    nodec = []
    if not res:
        for i in sorted(set(cov[f]), key=lambda i: cost[i]):
            rc, o = sh(f'{V}/bin/engine check {i} quick', env, 400)
            if 'nothing decided' in o or 'exhausted' in o: nodec.append(i)
            if rc not in (0, 1): nodec.append(f'{i}:rc{rc}')
            if rc == 1:
                res = 'caught ' + i
                break
    if not res:
        rc, o = sh('go test -vet=off -count=1 -timeout 100s ./...', gosh, 200)
        res = 'tests' if rc else 'SURVIVED'
    out.write(f'{res}\t{f}:{line}\t{n}\t{desc}\t{",".join(nodec)}\n')
    out.flush()
    open(f'{R}/{f}', 'w').write(orig)
