#!/usr/bin/env python3
"""Authoring-time: order the accepted streams by coverage gain, copy them into /verif/corpus and record
golden results.  Sample hashes, sizes and order come from libaom (refdec), never from dav1d."""
import os, sys, json, subprocess, concurrent.futures as cf, shutil, collections
SRC = '/tmp/w'; OUT = '/verif/corpus'; G = '/tmp/genlib'; V = '/tmp/vb'
def run(a, **k): return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=300, **k).stdout.decode()
def feats(f):
    c = f'/tmp/w/{os.getpid()}_{os.path.basename(f)}.cov'; run([f'{V}/vdec_cov', f'file={f}', 'grain=1', 'all=0', 'quiet=1'], env=dict(os.environ, COVOUT=c))
    b = open(c, 'rb').read(); os.unlink(c)
    def bk(x): return 0 if x < 1 else 1 if x < 2 else 2 if x < 4 else 3 if x < 16 else 4 if x < 64 else 5
    return frozenset((i, bk(x)) for i, x in enumerate(b) if x)
def order(files):
    with cf.ThreadPoolExecutor(8) as ex: F = dict(zip(files, ex.map(feats, files)))
    out = []; left = set(files); cov = collections.Counter(); k = 1
    while left:
        best = max(left, key=lambda f: (sum(1 for x in F[f] if cov[x] < k) / (300 + os.path.getsize(f)), f))
        if not any(cov[x] < k for x in F[best]) and k < 12: k += 1; continue
        left.discard(best); out.append(best)
        for x in F[best]: cov[x] += 1
    return out
def ref(f, args): 
    t = run([f'{G}/refdec', f, *args]).splitlines(); assert not any(l.startswith('E') for l in t), (f, args, t)
    r = []
    for l in t: k, wh, bd, ly, h = l.split(); r.append(f'{wh} l{ly[1:]} b{bd[2:]} {h}')
    return r
def dav(f, args): return [l for l in run([f'{V}/vdec_rel', f'file={f}', *args]).splitlines() if l[0] in 'PRV']
def key(l): x = l.split(); return f'{x[4]} {x[5]} {x[6]} {x[7][2:]}'
def gold(job):
    f, cfg = job; g = {}
    lay = cfg.get('slayers') or cfg.get('tlayers')
    combos = [(0, 1)] if not lay else [(op, al) for op in range(8) for al in (0, 1)]
    for op, al in combos:
        for gr in (0, 1):
            if gr and not cfg.get('fg'): continue
            a = [f'grain={gr}', f'op={op}', f'all={al}']
            try: r = ref(f, a)
            except AssertionError: r = None
            d = dav(f, a)
            if r is None or any(l[0] != 'P' for l in d) or [key(l) for l in d] != r:
                if (op, al) == (0, 1): return f, None
                continue
            g[f'{op},{al},{gr}'] = r
    return f, g
def main():
    os.makedirs(OUT, exist_ok=True); allg = {}
    for s in sys.argv[1:]:
        files = sorted(f'{SRC}/{s}/{x}' for x in os.listdir(f'{SRC}/{s}') if x.endswith('.obu'))
        files = order(files); os.makedirs(f'{OUT}/{s}', exist_ok=True)
        jobs = [(f, json.load(open(f[:-3] + 'json'))) for f in files]
        with cf.ThreadPoolExecutor(8) as ex: res = dict(ex.map(gold, jobs))
        n = 0
        for f, cfg in jobs:
            if res[f] is None: print('dropped', f); continue
            name = f'{s}/{n:04d}'; n += 1; shutil.copy(f, f'{OUT}/{name}.obu'); allg[name] = {'cfg': cfg, 'ref': res[f], 'size': os.path.getsize(f)}
        print(s, n)
    old = json.load(open(f'{OUT}/gold.json')) if os.path.exists(f'{OUT}/gold.json') else {}
    old = {k: v for k, v in old.items() if k.split('/')[0] not in sys.argv[1:]}; old.update(allg)
    with open(f'{OUT}/gold.json', 'w') as o:
        o.write('{\n' + ',\n'.join(json.dumps(k) + ':' + json.dumps(v, separators=(',', ':')) for k, v in sorted(old.items())) + '\n}\n')
main()
