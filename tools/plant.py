#!/usr/bin/env python3
"""Builds /verif/seeded/<id> from tools/plants.py in scratch copies: plant.py [ids...]
For each: the patch, the existing tests, the property's check (with its replay turned into the
demonstration's input), and the demonstration with and without the change."""
import sys, os, subprocess, json, shutil, re
sys.path.insert(0, os.path.dirname(__file__))
from plants import P
import plants2, plants3, plants4
from plant_text import TEXT
for p in P:
    if p["id"] in TEXT: p["needs"], p["what_it_breaks"] = TEXT[p["id"]]
W = os.environ.get('PLANT_DIR', '/tmp/plant')
CPUS = os.environ.get('PLANT_CPUS', '0-7')
T = os.path.dirname(os.path.abspath(__file__))
def sh(cmd, env=None, cwd=None):
    r = subprocess.run(['bash','-c','. /opt/vp/env.sh; ' + cmd], env=dict(os.environ, **(env or {})), cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout
R, V = W+'/repo', W+'/verif'
if not os.path.exists(R):
    os.makedirs(W)
    sh(f'git clone -q /repo {R}; cp /repo/Cargo.lock {R}/; mkdir {V}; cp -a /verif/harness /verif/cli /verif/data /verif/known-findings.json /verif/run.sh {V}/; rm -rf {V}/harness/target {V}/cli/target; sed -i "s#\\"/repo#\\"{R}#" {V}/harness/Cargo.toml {V}/cli/Cargo.toml')
else:
    sh(f'cd {R} && git checkout -q -- . && git pull -q; rm -rf {V}/harness/src; cp -a /verif/harness/src {V}/harness/')
env = {'VERIF_REPO': R, 'TMPDIR': W}
ids = sys.argv[1:]
for p in P:
    if ids and p['id'] not in ids: continue
    sh('git checkout -q -- .', cwd=R)
    ok = True
    for f, old, new, nth in p['edits']:
        s = open(f'{R}/{f}').read()
        pos = -1
        for _ in range(nth+1): pos = s.find(old, pos+1)
        if pos < 0: print(p['id'], 'TEXT NOT FOUND in', f); ok = False; break
        open(f'{R}/{f}', 'w').write(s[:pos] + new + s[pos+len(old):])
    if not ok: continue
    diff = sh('git diff', cwd=R)[1]
    rc, o = sh(f'CARGO_TARGET_DIR={W}/rt taskset -c {CPUS} cargo test --workspace --offline 2>&1 | grep -E "^test |^error"', cwd=R)
    if 'FAILED' in o or 'error' in o or o.count('... ok') < 14: print(p['id'], 'TESTS', o[-500:]); continue
    rc, o = sh(f'taskset -c {CPUS} bash {V}/run.sh {p["property"]} quick', env)
    m = re.search(r'replay=(\S+)', o)
    print(p['id'], p['property'], 'CAUGHT' if rc == 1 else f'MISSED({rc})', o.strip().split('\n')[0][:150], flush=True)
    out = f'/verif/seeded/{p["id"]}'
    manual = f'{T}/demos/{p["id"]}'       # input by hand, where the check has no file to show
    if not m and not os.path.isdir(manual) and p['demo'] not in ('cfa','matrix','cli'): continue
    shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
    open(out+'/patch.diff','w').write(diff)
    json.dump({'property': p['property'], 'needs': p['needs'], 'what_it_breaks': p['what_it_breaks']}, open(out+'/meta.json','w'), indent=1)
    shutil.copy(f'{T}/demos/demo.sh' if p['demo'] != 'cli' else f'{T}/demos/cli.sh', out+'/demo.sh')
    if os.path.exists(f'{T}/demos/{p["demo"]}.rs'): shutil.copy(f'{T}/demos/{p["demo"]}.rs', out+'/demo.rs')
    if os.path.isdir(manual):
        for x in os.listdir(manual): shutil.copy(f'{manual}/{x}', out)
    elif m and p['demo'] not in ('cfa','matrix'):
        if p['id'] == 'naked-even' or not m: pass
        rc, o = sh(f'{V}/harness/target/debug/rlcheck dump {m.group(1)} {out}', env)
        if rc: print('   dump:', o)
    sh('git checkout -q -- .', cwd=R)
    if p['demo'] in ('decode','render'): print('   expect', sh(f'bash {out}/demo.sh', {'DEMO_WRITE':'1'}, cwd=R))
    a = sh(f'bash {out}/demo.sh', cwd=R)
    open(W+'/p.diff','w').write(diff); sh(f'git apply {W}/p.diff', cwd=R)
    b = sh(f'bash {out}/demo.sh', cwd=R)
    sh('git checkout -q -- .', cwd=R)
    good = a[0] == 0 and b[0] not in (0, 3)
    sz = sum(os.path.getsize(out+'/'+x) for x in os.listdir(out))
    print('   demo', 'GOOD' if good else 'BAD', a[0], a[1][-200:] if a[0] else '', '|', b[0], b[1][-160:].replace('\n',' '), sz, flush=True)
    if not good: shutil.rmtree(out)
