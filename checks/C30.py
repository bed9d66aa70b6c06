from lib.core import *
import json
from lib import hostile
def check(c):
    c.build('vdec_rel')
    c.rule = 'one decode of a corpus stream with an in-loop filter mask; golden result = libaom decoding the twin stream whose headers signal the masked-off filters as off; non-trivial: the masked result differs from the unmasked one; distinct by stream and mask'
    g = json.load(open(CORPUS + '/gold_var.json')); jobs = []; meta = []
    for n in sorted(g):
        for k, want in g[n]['mask'].items():
            m, gr = k.split(',')
            for x in (['cpu=0'], [], ['threads=4', 'delay=0'], ['threads=3', 'delay=1', 'cpu=0'], ['cpu=3', 'alloc=guard']) if c.thorough or gr == '0' else ([], ['threads=4']):
                jobs.append(('vdec_rel', [f'file={stream(n)}', f'iflags={m}', f'grain={gr}', 'timeout=60', *x])); meta.append((n, m, gr, want))
    for r, (n, m, gr, want) in zip(c.run_jobs(jobs), meta):
        what = f'stream {n} filters={m} {" ".join(r.args[4:])}'
        if not c.judge(r, what): continue
        got = [pkey(l) for l in r.lines('P')]
        if got != want or r.lines('R'):
            i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
            c.violation(f'filters {n} {m}', f'{what}: picture {i} is not what signalling those filters off gives', r.out + '\nwant\n' + '\n'.join(want), [stream(n)]); continue
        c.count('pictures_compared', len(want))
        if want != g[n]['mask'][f'7,{gr}']: c.distinct.add((n, m))
    # all filters enabled must equal the default; corpus streams under every mask must not depend on threads and CPU
    names = sorted(gold()); names = c.rng.sample(names, c.pick(150, len(names))); jobs = []; meta = []
    for n in names:
        for m in range(8):
            for x in (['cpu=0'], ['threads=5'], ['cpu=7', 'threads=2']): jobs.append(('vdec_rel', [f'file={stream(n)}', f'iflags={m}', 'grain=0', 'all=1', 'timeout=60', *x])); meta.append((n, m))
    res = c.run_jobs(jobs); by = {}
    for r, k in zip(res, meta):
        if c.judge(r, f'{k} {r.args[5:]}'): by.setdefault(k, []).append(r)
    for (n, m), rs in by.items():
        for r in rs:
            a, b = [pkey(l) for l in r.lines('P')], [pkey(l) for l in rs[0].lines('P')]
            if a != b or (m == 7 and a != gold()[n]['ref']['0,1,0']): c.violation(f'filters {n} {m}', f'stream {n} filters={m}: {r.args[5:]} differs from {rs[0].args[5:]} or from the full result', r.out + rs[0].out, [stream(n)]); break
        else: c.count('corpus_stream_masks')
    c.sample(f'{list(g)[0]} {g[list(g)[0]]["cfg"]}')
    c.assumptions = ['libaom (authoring time) as the reference for the filters-signalled-off twins']
