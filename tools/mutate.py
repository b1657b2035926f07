#!/usr/bin/env python3
"""Mechanical mutation of /repo's sources, to find behaviour the checks do not pin down.
Not a check: run by hand, on scratch copies.   mutate.py WORKERDIRS_BASE N_WORKERS OUT.jsonl [files...]
Every mutant changes one token; it is built and the checks related to its file are run at a
fraction of their cases, then (if none objects) all checks in full."""
import re, sys, os, subprocess, random, json, threading, queue, shutil
BASE, NW, OUT = sys.argv[1], int(sys.argv[2]), sys.argv[3]
FILES = sys.argv[4:]
PER = float(os.environ.get('PER', '0.25'))       # mutants per candidate token
SCALE = os.environ.get('SCALE', '0.3')
FULL = os.environ.get('FULL', '1') == '1'
rng = random.Random(int(os.environ.get('SEED', '1')))
ALL = ['C%02d' % i for i in range(1, 23)]
def order(f):
    b = os.path.basename(f)
    if 'imageops' in f: first = ['C14','C15','C13','C12','C19','C18','C22']
    elif b in ('packed.rs','basics.rs'): first = ['C01','C04','C10']
    elif 'ljpeg' in f or b == 'pumps.rs': first = ['C02','C03','C10']
    elif b == 'image.rs': first = ['C17','C14','C07','C19','C12','C18']
    elif b == 'cfa.rs': first = ['C16','C14']
    elif 'bin/' in f: first = ['C20']
    elif b in ('mod.rs','camera.rs','tiff.rs','ciff.rs'): first = ['C05','C08','C09','C06','C07','C21','C01','C10']
    else: first = ['C01','C02','C03','C04','C06','C07','C08','C05','C21','C10','C09']
    return first
def candidates(path):
    src = open(path).read()
    out = []
    instr = False
    off = 0
    for ln, line in enumerate(src.split('\n')):
        code = line
        st = line.strip()
        if st.startswith('//') or st.startswith('#[') or st.startswith('use ') or st.startswith('extern') or 'println' in st or 'panic!' in st or 'Err(' in st:
            off += len(line)+1; continue
        k = code.find('//')
        if k >= 0: code = code[:k]
        def add(a, b, new): out.append((off+a, off+b, new, ln+1))
        strs = [(m.start(), m.end()) for m in re.finditer(r'"[^"]*"', code)]
        ins = lambda p: any(a <= p < b for a, b in strs)
        for m in re.finditer(r'(?<![\w.])(0x[0-9a-fA-F]+|\d+)(?![\w.]|\.\d)', code):
            if ins(m.start()): continue
            t = m.group(1)
            v = int(t, 16) if t.startswith('0x') else int(t)
            f = hex if t.startswith('0x') else str
            add(m.start(), m.end(), f(v+1))
            if v > 0: add(m.start(), m.end(), f(v-1))
        for m in re.finditer(r'(?<![\w.])(\d+\.\d+)', code):
            if not ins(m.start()): add(m.start(), m.end(), str(float(m.group(1))*1.03 + (0.01 if float(m.group(1)) == 0 else 0)))
        for m in re.finditer(r'(<=|>=|==|!=|&&|\|\||<<|>>|\.\.| [+*/%&|^<>-] |(?<=[\w)\]])[+*/-](?=[\w(]))', code):
            if ins(m.start()): continue
            t = m.group(1); s = t.strip()
            rep = {'<=':['<'],'>=':['>'],'==':['!='],'!=':['=='],'&&':['||'],'||':['&&'],'<<':['>>'],'>>':['<<'],'+':['-'],'-':['+'],'*':['+'],'/':['*'],'%':['/'],'&':['|'],'|':['&','^'],'^':['|'],'<':['<='],'>':['>=']}.get(s, [])
            for r in rep: add(m.start(), m.end(), t.replace(s, r))
        for a, b in (('true','false'),('false','true'),('width','height'),('height','width'),('row','col'),('col','row'),('little_endian()','little_endian() == false'),('BEu16','LEu16'),('LEu16','BEu16'),('BEu32','LEu32'),('min','max'),('max','min'),('Some(','Some((')):
            if a == 'Some(': continue
            for m in re.finditer(r'(?<!\w)' + re.escape(a) + (r'(?!\w)' if a[-1].isalnum() else ''), code):
                if not ins(m.start()): add(m.start(), m.end(), b)
        if re.match(r'\s*(?!let |return|pub |fn |use |type |static |const )[\w.\[\]+*&]+.*;\s*$', code) and code.count('(') == code.count(')'):
            add(len(code)-len(code.lstrip()), len(code.rstrip()), '')
        off += len(line)+1
    return src, out
work = queue.Queue()
items = []
for f in FILES:
    src, c = candidates('/repo/' + f)
    n = max(1, int(len(c)*PER))
    for x in rng.sample(c, min(n, len(c))): items.append((f, src) + x)
rng.shuffle(items)
for i in items: work.put(i)
print(len(items), 'mutants', flush=True)
lock = threading.Lock()
done = open(OUT, 'a')
def sh(cmd, **kw): return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
def setup(w):
    d = f'{BASE}/w{w}'
    if not os.path.exists(d):
        os.makedirs(d)
        sh(f'git clone -q /repo {d}/repo; cp /repo/Cargo.lock {d}/repo/ 2>/dev/null; mkdir {d}/verif; cd /verif && cp -a harness cli data known-findings.json run.sh {d}/verif/ && rm -rf {d}/verif/harness/target {d}/verif/cli/target; sed -i "s#\\"/repo#\\"{d}/repo#" {d}/verif/harness/Cargo.toml {d}/verif/cli/Cargo.toml')
    else:
        sh(f'rm -rf {d}/verif/harness/src; cp -a /verif/harness/src {d}/verif/harness/; cd {d}/repo && git checkout -q -- . && git pull -q')
    return d
def run(w):
    d = setup(w)
    ncpu = os.cpu_count() // NW
    cpus = '%d-%d' % (w*ncpu, w*ncpu+ncpu-1)
    env = dict(os.environ, VERIF_REPO=f'{d}/repo', RLCHECK_NOSHRINK='1', TMPDIR=f'{d}')
    while True:
        try: f, src, a, b, new, ln = work.get_nowait()
        except queue.Empty: return
        new_src = src[:a] + new + src[b:]
        open(f'{d}/repo/{f}', 'w').write(new_src)
        lines_old = src.split('\n')[ln-1].strip(); lines_new = new_src.split('\n')[ln-1].strip()
        rec = {'file': f, 'line': ln, 'old': lines_old, 'new': lines_new}
        cmd = f'. /opt/vp/env.sh; taskset -c {cpus} timeout 900 bash {d}/verif/run.sh '
        first = order(f)
        tries = [(c, SCALE) for c in first] + ([(c, '1') for c in ALL] if FULL else [])
        res = 'SURVIVED'
        for c, sc in tries:
            r = subprocess.run(['bash','-c', cmd + f'{c} quick'], env=dict(env, RLCHECK_SCALE=sc), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode == 0: continue
            if 'build failed' in r.stdout: res = 'NOBUILD'; break
            if r.returncode == 1: res = c + ('' if sc != '1' else ' full'); break
            res = 'NOANSWER ' + c + ' ' + r.stdout[-300:]; break
        rec['result'] = res
        open(f'{d}/repo/{f}', 'w').write(src)
        with lock:
            done.write(json.dumps(rec)+'\n'); done.flush()
            if not res.startswith('C') and res != 'NOBUILD': print(rec, flush=True)
ts = [threading.Thread(target=run, args=(w,)) for w in range(NW)]
[t.start() for t in ts]; [t.join() for t in ts]
