#!/usr/bin/env python3
"""automut.py SEED N CHECKS FILE[:from-to]...: N random one-token mutants of the files, each judged by the checks; prints the survivors"""
import sys, os, re, random, subprocess, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mut
from automut_sites import sites
seed, cnt, checks = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3].split(',')
rnd = random.Random(seed); S, B = mut.S, mut.B; st = {'caught': 0, 'nobuild': 0, 'missed': 0}
pool = []
for a in sys.argv[4:]:
    f, _, r = a.partition(':'); lo, hi = (map(int, r.split('-')) if r else (1, 10**9)); pool += [(f, *s) for s in sites(f, lo, hi)]
print(len(pool), 'sites', flush=True)
for f, n, old, new in rnd.sample(pool, min(cnt, len(pool))):
    mut.sync(); t = open(f'{S}/{f}').read().split('\n'); assert t[n-1] == old; t[n-1] = new; open(f'{S}/{f}', 'w').write('\n'.join(t))
    env = dict(os.environ, VERIF_REPO=S, VERIF_BUILD=B, VERIF_SEED='1', VERIF_TIER='quick'); r = []
    for c in checks:
        rc, o = mut.sh(f'python3 run.py {c}', mut.R, env)
        if rc == 1 and 'VIOLATION' in o: r = None; break
        r.append(f'{c}:{rc}')
        if rc: r.append(o[-200:].replace('\n', ' '))
    if r is None: st['caught'] += 1
    elif any(not x.endswith(':0') for x in r): st['nobuild'] += 1; print('NOBUILD', f, n, new.strip()[:80], r[-1][-100:], flush=True)
    else: st['missed'] += 1; print(f'SURVIVED {f}:{n}\n  - {old.strip()}\n  + {new.strip()}', flush=True)
print(st, flush=True)
