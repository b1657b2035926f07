#!/usr/bin/env python3
"""Screens planted changes quickly: screen.py WORKERS [ids...]; only builds and runs the property's
quick check in scratch copies, no demonstration. One line per change."""
import sys, os, subprocess, re, threading, queue
sys.path.insert(0, os.path.dirname(__file__))
import plants, plants2, plants3, plants4
P = plants.P
N = int(sys.argv[1]); ids = sys.argv[2:]
B = os.environ.get('SCREEN_DIR', '/tmp/screen')
FIRST = int(os.environ.get('FIRST_CPU', '0'))
def sh(cmd, env=None, cwd=None):
    r = subprocess.run(['bash','-c','. /opt/vp/env.sh; ' + cmd], env=dict(os.environ, **(env or {})), cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout
q = queue.Queue()
for p in P:
    if not ids or p['id'] in ids or (ids == ["wave2"] and p in plants2.NEW) or (ids == ["wave3"] and p in plants3.NEW3) or (ids == ["wave4"] and p in plants4.NEW4): q.put(p)
lock = threading.Lock()
per = (8 - FIRST) // N
def work(k):
    W = f'{B}/{k}'; R, V = W+'/repo', W+'/verif'
    if not os.path.exists(R):
        os.makedirs(W, exist_ok=True)
        sh(f'git clone -q /repo {R}; cp /repo/Cargo.lock {R}/; mkdir {V}; cp -a /verif/harness /verif/cli /verif/data /verif/known-findings.json /verif/run.sh {V}/; rm -rf {V}/harness/target {V}/cli/target; sed -i "s#\\"/repo#\\"{R}#" {V}/harness/Cargo.toml {V}/cli/Cargo.toml')
    else:
        sh(f'cd {R} && git checkout -q -- . && git pull -q; rm -rf {V}/harness/src; cp -a /verif/harness/src {V}/harness/')
    cpus = f'{FIRST+k*per}-{FIRST+k*per+per-1}'
    while True:
        try: p = q.get_nowait()
        except queue.Empty: return
        sh('git checkout -q -- .', cwd=R)
        bad = ''
        for f, old, new, nth in p['edits']:
            s = open(f'{R}/{f}').read(); pos = -1
            for _ in range(nth+1): pos = s.find(old, pos+1)
            if pos < 0: bad = 'TEXT NOT FOUND'; break
            open(f'{R}/{f}','w').write(s[:pos] + new + s[pos+len(old):])
        if bad: 
            with lock: print(p['id'], bad, flush=True)
            continue
        rc, o = sh(f'taskset -c {cpus} timeout 900 bash {V}/run.sh {p["property"]} quick', {'VERIF_REPO': R, 'TMPDIR': W})
        with lock: print(f"{p['id']:22}", p['property'], 'CAUGHT' if rc == 1 and 'VIOLATION' in o else f'MISSED({rc})', o.strip().split('\n')[-1 if rc not in (0,1) else 0][:150], flush=True)
ts = [threading.Thread(target=work, args=(k,)) for k in range(N)]
[t.start() for t in ts]; [t.join() for t in ts]
