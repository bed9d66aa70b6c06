#!/usr/bin/env python3
"""Authoring-time corpus builder (offline, not used by checks).
Generates candidates with the steered generator, accepts only streams on which libaom (refdec) and
the unmodified dav1d agree for every picture (grain off and on), measures edge coverage, and keeps a
coverage-diverse subset.  usage: mkcorpus.py OUTDIR N SEED0"""
import sys, os, random, subprocess, json, concurrent.futures as cf, hashlib
out, N, S0 = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
G = '/tmp/genlib'; V = '/tmp/vb'
tmp = f'/tmp/w/cand{S0}'; os.makedirs(tmp, exist_ok=True); os.makedirs(out, exist_ok=True)

def cfg(seed):
    r = random.Random(seed * 7919 + 13)
    c = {'seed': seed, 'rich': r.choice([60, 80, 90, 100])}
    c['fmt'] = r.choice([420] * 4 + [400, 422, 444, 444]); c['bd'] = r.choice([8, 8, 8, 10, 10, 12])
    c['w'] = r.choice([r.randint(1, 40), r.randint(16, 160), r.randint(64, 200), 128, 64, 192]); c['h'] = r.choice([r.randint(1, 40), r.randint(16, 120), r.randint(48, 160), 64, 96])
    c['frames'] = r.choice([3, 4, 5, 6, 8])
    p = lambda k, v, pr: c.__setitem__(k, v) if r.random() < pr else None
    p('intra', 1, .06); p('superres', 1, .2); p('fg', r.choice([50, 90]), .3); p('seg', 70, .2); p('lossless', r.choice([20, 70]), .08)
    p('qm', 70, .2); p('deltaq', 70, .2); p('tiles', 90, .25); p('tg', 80, .2); p('hidden', 40, .25); p('showex', 40, .25); p('hiddenkey', 30, .15)
    p('switch', 25, .1); p('intraonly', 30, .15); p('key', 25, .1); p('sizechg', 50, .15); p('bigchg', 50, .08); p('errres', 40, .1); p('shortref', 60, .15)
    if r.random() < .15: c['scc'] = 1; c['intrabc'] = 80
    p('imv', 70, .1); p('sb128', r.randint(0, 1), .3); p('ohbits', r.choice([3, 4]), .1); p('frameid', 100, .1); p('timing', 100, .1); p('meta', 40, .2); p('pad', 40, .1)
    p('gm', 60, .15); p('compref', 90, .2); p('mvcap', r.choice([2, 6]), .2); p('nocdfupd', 50, .06); p('newseq', 30, .04)
    if r.random() < .06: c['slayers'] = r.choice([2, 3]); c['tlayers'] = r.choice([1, 2]); c['w'] = max(c['w'], 32); c['h'] = max(c['h'], 32)
    elif r.random() < .03: c['tlayers'] = 3
    elif r.random() < .03: c['reduced'] = 1; c['frames'] = 1
    elif r.random() < .02: c['still'] = 1; c['frames'] = 1
    for t in ('t_interintra', 't_masked', 't_warped', 't_dual', 't_oh', 't_jnt', 't_rfmv', 't_fi', 't_ie', 't_cdef', 't_lr'): p(t, r.choice([0, 100]), .06)
    if os.environ.get('EXTRA'):
        for kv in os.environ['EXTRA'].split(): k, v = kv.split('='); c[k] = v
    return c

def run(a, **k): return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=120, **k)
def dav(f, args, exe='vdec_rel', env=None):
    p = run([f'{V}/{exe}', f'file={f}', *args], env=env); return p.returncode, p.stdout.decode()
def hashes(t): return [l.split(' h=')[1][:16] for l in t.splitlines() if l.startswith('P ')]
def ref(f, args): 
    t = run([f'{G}/refdec', f, *args]).stdout.decode().splitlines()
    return None if any(l.startswith('E') for l in t) else [l[-16:] for l in t]

def one(seed):
    c = cfg(seed); f = f'{tmp}/{seed}.obu'
    p = run([f'{G}/gen'] + [f'{k}={v}' for k, v in c.items()] + [f])
    if p.returncode: return seed, None, f'gen{p.returncode}'
    for g in (0, 1):
        if g and not c.get('fg'): continue
        rr = ref(f, [f'grain={g}', 'all=1']); rc, t = dav(f, [f'grain={g}', 'all=1'])
        if rr is None: return seed, None, 'refused by libaom'
        if rr != hashes(t) or rc or '\nR ' in t or '\nV ' in t or t.startswith('R'): return seed, None, 'mismatch'
    env = dict(os.environ, COVOUT=f'{tmp}/{seed}.cov'); dav(f, ['grain=1', 'quiet=1'], 'vdec_cov', env)
    b = open(f'{tmp}/{seed}.cov', 'rb').read(); os.unlink(f'{tmp}/{seed}.cov')
    def bk(x): return 0 if x < 1 else 1 if x < 2 else 2 if x < 4 else 3 if x < 16 else 4 if x < 64 else 5
    feats = {(i << 3) | bk(x) for i, x in enumerate(b) if x}
    return seed, feats, os.path.getsize(f)

res = {}; rej = {}
with cf.ThreadPoolExecutor(8) as ex:
    for s, fe, info in ex.map(one, range(S0, S0 + N)):
        if fe is None: rej[s] = info
        else: res[s] = (fe, info)
print('accepted', len(res), 'rejected', len(rej)); 
from collections import Counter
print(Counter(rej.values()))
edges = set(); 
for fe, _ in res.values(): edges |= {x >> 3 for x in fe}
print('edges hit', len(edges))
# greedy multi-cover: every feature covered up to K times, preferring small files
K = int(os.environ.get('K', 3)); need = Counter(); 
for fe, _ in res.values():
    for x in fe: need[x] += 1
for x in need: need[x] = min(need[x], K)
left = dict(res); chosen = []
maxn = int(os.environ.get('MAX', 600))
import heapq
def gain(fe): return sum(1 for x in fe if need[x] > 0)
heap = [(-gain(fe) / (400 + sz), s) for s, (fe, sz) in left.items()]; heapq.heapify(heap)
while heap and len(chosen) < maxn:
    _, s = heapq.heappop(heap); fe, sz = left[s]; g = gain(fe)
    if g == 0: continue
    sc = -g / (400 + sz)
    if heap and sc > heap[0][0]: heapq.heappush(heap, (sc, s)); continue
    chosen.append(s)
    for x in fe: need[x] -= 1
print('chosen', len(chosen), 'bytes', sum(res[s][1] for s in chosen))
for s in chosen:
    c = cfg(s); os.rename(f'{tmp}/{s}.obu', f'{out}/r{s}.obu'); json.dump(c, open(f'{out}/r{s}.json', 'w'))
json.dump(sorted(edges), open(f'/tmp/w/edges{S0}.json', 'w'))
for f in os.listdir(tmp): os.unlink(f'{tmp}/{f}')
