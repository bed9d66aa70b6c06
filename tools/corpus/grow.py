#!/usr/bin/env python3
"""Authoring-time: mutation-driven corpus growth.
grow.py pool N SEED0            : generate streams on which libaom and dav1d agree, into /tmp/w/pool
grow.py hunt SEED N FILE...     : N random one-token mutants; those the corpus does not notice are tried on the pool; killers go to /tmp/w/killers"""
import sys, os, subprocess, json, random, shutil, concurrent.futures as cf
H = os.path.dirname(os.path.abspath(__file__)); R = os.path.dirname(os.path.dirname(H)); sys.path[:0] = [R + '/tools', R]
G = '/tmp/genlib'; POOL = '/tmp/w/pool'; KIL = '/tmp/w/killers'
def run(a, t=60):
    try: return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=t)
    except subprocess.TimeoutExpired: return subprocess.CompletedProcess(a, 124, b'')
def hashes(exe, f, g=0): return [l.split(' h=')[1][:16] for l in run([exe, f'file={f}', f'grain={g}', 'all=1', 'timeout=20']).stdout.decode().splitlines() if l.startswith('P ')]
src = open(H + '/mkcorpus.py').read()
BIAS = ['', 'hidden=60 hiddenkey=60 showex=70 seg=100 frames=8', 'fmt=422', 'fmt=422 scc=1 intrabc=100 intra=1', 'scc=1 intrabc=100', 'lossless=70', 'superres=1 sizechg=60', 'tiles=90 tg=80', 'deltaq=100 seg=100', 'gm=90', 'switch=40 errres=60', 'fmt=400', 'fmt=444', 'sb128=0', 'sb128=1', 'frames=10 showex=60 hidden=50', 'compref=100', 'mvcap=2', 'shortref=100', 'ohbits=3', 'w=16 h=16', 'w=200 h=24', 'w=24 h=200']
def cfgs(seed):
    os.environ['EXTRA'] = BIAS[seed % len(BIAS)]; d = {'os': os}; exec('import os, random, json\n' + src[src.index('def cfg'):src.index('def run')], d); return d['cfg'](seed)
def cand(x):
    s, c = x; f = f'{POOL}/p{s}.obu'
    if run([f'{G}/gen'] + [f'{k}={v}' for k, v in c.items()] + [f]).returncode: return s, None
    t = run([f'{G}/refdec', f, 'grain=0', 'all=1']).stdout.decode().splitlines(); r = [l[-16:] for l in t]
    if not r or any(l.startswith('E') for l in t) or hashes('/tmp/vb/bin/vdec_rel', f) != r or os.path.getsize(f) > 9000: os.unlink(f); return s, None
    json.dump(c, open(f[:-3] + 'json', 'w')); json.dump(r, open(f[:-3] + 'ref', 'w')); return s, 1
if sys.argv[1] == 'pool':
    os.makedirs(POOL, exist_ok=True); n, s0 = int(sys.argv[2]), int(sys.argv[3])
    with cf.ThreadPoolExecutor(6) as ex: print(sum(1 for _, k in ex.map(cand, [(s, cfgs(s)) for s in range(s0, s0 + n)]) if k), 'accepted')
else:
    import mut, automut_sites as am
    os.makedirs(KIL, exist_ok=True); seed, n = int(sys.argv[2]), int(sys.argv[3]); rnd = random.Random(seed)
    sites = [(f, *s) for f in sys.argv[4:] for s in am.sites(f, 1, 10**9)]; rnd.shuffle(sites)
    g = json.load(open(R + '/corpus/gold.json')); core = [(k, [x.split()[3] for x in v['ref']['0,1,0']]) for k, v in g.items() if '0,1,0' in v['ref'] and v['size'] < 20000]
    P = [f'{POOL}/{x}' for x in os.listdir(POOL) if x.endswith('.obu')]; refs = {p: json.load(open(p[:-3] + 'ref')) for p in P}; st = {}
    for f, ln, old, new in sites[:n]:
        mut.sync(); t = open(f'{mut.S}/{f}').read().split('\n'); assert t[ln-1] == old; t[ln-1] = new; open(f'{mut.S}/{f}', 'w').write('\n'.join(t))
        p = subprocess.run(['python3', '-m', 'lib.build', 'vdec_rel'], cwd=R, env=dict(os.environ, VERIF_REPO=mut.S, VERIF_BUILD=mut.B), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if p.returncode: st['nobuild'] = st.get('nobuild', 0) + 1; continue
        exe = f'{mut.B}/bin/vdec_rel'; dead = False
        with cf.ThreadPoolExecutor(6) as ex:
            for i in range(0, len(core), 60):
                if any(ex.map(lambda k: hashes(exe, f'{R}/corpus/{k[0]}.obu') != k[1], core[i:i + 60])): dead = True; break
            if dead: st['caught'] = st.get('caught', 0) + 1; continue
            k = [p for p, d in zip(P, ex.map(lambda p: hashes(exe, p) != refs[p], P)) if d]
        k.sort(key=os.path.getsize)
        for p in k[:2]: [shutil.copy(p[:-3] + e, KIL) for e in ('obu', 'json')]
        what = 'killed by the pool' if k else 'survived'; st[what] = st.get(what, 0) + 1
        print(f'{what} ({len(k)}) {f}:{ln}\n  - {old.strip()}\n  + {new.strip()}', flush=True)
    print(st, flush=True)
