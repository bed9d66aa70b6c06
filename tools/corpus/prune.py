#!/usr/bin/env python3
"""Authoring-time: drop streams on which the portable and SIMD paths disagree (residual overflow = not conformant)."""
import sys, os, json; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)) + '/../..')
from lib import core
c = core.Check('prune'); c.build('vdec_rel')
for gf in ('gold', 'gold_var'):
    g = json.load(open(f'{core.CORPUS}/{gf}.json')); bad = set()
    jobs = [('vdec_rel', [f'file={core.stream(n)}', 'all=1', f'cpu={m}', f'grain={gr}', 'iflags=%d' % il]) for n in g for m in (0, 1, 3, 7, 15, 31) for gr in (0, 1) for il in ([7] if gf == 'gold' else range(8))]
    res = c.run_jobs(jobs); by = {}
    for (e, a), r in zip(jobs, res): by.setdefault((a[0], a[3], a[4]), set()).add(tuple(core.pkey(l) for l in r.lines('P')))
    bad = {k[0][5 + len(core.CORPUS) + 1:-4] for k, v in by.items() if len(v) > 1}
    print(gf, 'dropping', sorted(bad))
    for b in bad: os.unlink(core.stream(b)); del g[b]
    with open(f'{core.CORPUS}/{gf}.json', 'w') as o: o.write('{\n' + ',\n'.join(json.dumps(k) + ':' + json.dumps(v, separators=(',', ':')) for k, v in sorted(g.items())) + '\n}\n')
