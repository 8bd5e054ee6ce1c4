#!/usr/bin/env python3
"""seedcheck.py [ids]: runs the quick check of each planted bug's property against a scratch copy with the
bug applied and records the outcome in tools/design/seeds.json. W workers."""
import os, sys, json, subprocess, threading, queue
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = os.path.join(V, "tools", "design", "seeds.json")
R = json.load(open(F)) if os.path.exists(F) else {}
ids = sys.argv[1:] or sorted(os.listdir(os.path.join(V, "seeded")))
q = queue.Queue(); [q.put(i) for i in ids]; lock = threading.Lock()
def work(w):
    S = f"/tmp/sc{w}"
    while True:
        try: i = q.get_nowait()
        except queue.Empty: break
        d = os.path.join(V, "seeded", i); m = json.load(open(d + "/meta.json"))
        subprocess.run(f"rm -rf {S}; cp -a /repo {S} && git -C {S} apply {d}/patch.diff", shell=True, check=True)
        e = dict(os.environ, VERIF_REPO=S, VERIF_EVIDENCE_DIR=f"/tmp/scev{w}"); os.makedirs(f"/tmp/scev{w}", exist_ok=True)
        p = subprocess.run(["bash", V + "/check.sh", "check", m["property"], "quick"], env=e, capture_output=True, text=True)
        hs = [l.strip().split(":")[0] for l in p.stdout.splitlines() if l.startswith("  H")]
        ok = p.returncode == 1 and f"VIOLATION property={m['property']}" in p.stdout
        with lock:
            R[i] = dict(property=m["property"], needs=m["needs"], caught=f"{m['property']} ({', '.join(dict.fromkeys(hs))})" if ok else "")
            json.dump(R, open(F, "w"), indent=1)
            print(i, R[i]["caught"] or f"MISSED rc={p.returncode}", flush=True)
    subprocess.run(f"rm -rf {S} /tmp/scev{w}", shell=True)
ts = [threading.Thread(target=work, args=(w,)) for w in range(int(os.environ.get("W", "2")))]
[t.start() for t in ts]; [t.join() for t in ts]
