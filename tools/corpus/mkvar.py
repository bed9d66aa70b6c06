#!/usr/bin/env python3
"""Authoring-time: C30 set.  The generator writes every stream in 8 variants (in-loop filters signalled off
in the headers); libaom's decode of variant m is the golden result for decoding the full variant with mask m."""
import os, sys, json, random, subprocess, concurrent.futures as cf, shutil
OUT = '/verif/corpus'; G = '/tmp/genlib'; V = '/tmp/vb'; T = '/tmp/w/var'; os.makedirs(T, exist_ok=True); os.makedirs(OUT + '/var', exist_ok=True)
def run(a): return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=300).stdout.decode()
def ref(f, *args): 
    t = run([f'{G}/refdec', f, *args]).splitlines()
    if any(l.startswith('E') for l in t): return None
    r = []
    for l in t: k, wh, bd, ly, h = l.split(); r.append(f'{wh} l{ly[1:]} b{bd[2:]} {h}')
    return r
def key(l): x = l.split(); return f'{x[4]} {x[5]} {x[6]} {x[7][2:]}'
def dav(f, *args): return [key(l) if l[0] == 'P' else l for l in run([f'{V}/vdec_rel', f'file={f}', *args]).splitlines() if l[0] in 'PRV']
def one(seed):
    r = random.Random(seed); c = dict(seed=seed, rich=r.choice([60, 80, 100]), fmt=r.choice([420, 420, 400, 422, 444]), bd=r.choice([8, 8, 10, 12]), w=r.randint(33, 260), h=r.randint(33, 200), frames=r.choice([2, 3, 4]), variants=1, lossless=0, t_cdef=100, t_lr=100)
    p = lambda k, v, pr: c.__setitem__(k, v) if r.random() < pr else None
    p('superres', 1, .25); p('fg', 80, .15); p('seg', 70, .2); p('qm', 70, .2); p('deltaq', 80, .25); p('tiles', 90, .3); p('hidden', 40, .2); p('showex', 40, .2); p('sizechg', 50, .15); p('sb128', r.randint(0, 1), .4); p('switch', 25, .1); p('intraonly', 30, .1)
    f = f'{T}/{seed}'; 
    if subprocess.run([f'{G}/gen', *[f'{k}={v}' for k, v in c.items()], f]).returncode: return None
    g = {}
    for m in range(8):
        for gr in ([0, 1] if c.get('fg') else [0]):
            a = ref(f'{f}.{m}', f'grain={gr}')
            if a is None or a != dav(f'{f}.{m}', f'grain={gr}'): return None
            g[f'{m},{gr}'] = a
        if m != 7 and dav(f'{f}.7', f'iflags={m}', 'grain=0') != g[f'{m},0']: print('MASK MISMATCH', seed, m)
    dist = len({tuple(g[f'{m},0']) for m in range(8)})
    return (f, c, g, dist)
A, N, MAX = map(int, sys.argv[1:4]); n = 0; allg = {}
with cf.ThreadPoolExecutor(8) as ex: R = [x for x in ex.map(one, range(A, A + N)) if x]
print('accepted', len(R), 'all 8 distinct', sum(x[3] == 8 for x in R))
R.sort(key=lambda x: (-x[3], os.path.getsize(x[0] + '.7')))
for f, c, g, d in R[:MAX]:
    name = f'var/{n:04d}'; n += 1; shutil.copy(f + '.7', f'{OUT}/{name}.obu'); allg[name] = {'cfg': c, 'mask': g, 'size': os.path.getsize(f + '.7')}
with open(f'{OUT}/gold_var.json', 'w') as o: o.write('{\n' + ',\n'.join(json.dumps(k) + ':' + json.dumps(v, separators=(',', ':')) for k, v in sorted(allg.items())) + '\n}\n')
