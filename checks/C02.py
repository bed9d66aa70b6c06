from lib.core import *
from lib import hostile
def trace(r): return [l for l in r.out.splitlines() if l[:2] in ('P ', 'R ', 'X ', 'G ', 'E ')]
def check(c):
    c.build('vdec_msan', 'vdec_rel', 'vdec_asan')
    c.rule = 'one input decoded (a) by the C code under MemorySanitizer, its picture samples, headers and properties being read by the harness, and (b) by the optimised build with heap and picture memory pre-filled with different patterns, all traces compared; non-trivial: pictures or errors returned; distinct by input'
    r = c.rng; g = gold(); names = sorted(g); sm = [n for n in names if small(n)]
    inputs = [(stream(n), n) for n in r.sample(sm, c.pick(500, len(sm)))] + [(stream(n), n) for n in streams('mt')[:c.pick(3, 99)]]
    inputs += hostile.mutants(c, sm, c.pick(1200, 12000)) + hostile.generate(c, c.pick(400, 3000)) + hostile.generate(c, c.pick(80, 1500), 'k', w=32, h=32, seg=60, segkeep=90, frames=10, errres=1, key=1, intraonly=1, rich=30)      # (the last: chains of segmentation maps)
    jobs = []; meta = []
    for f, d in inputs:
        a = [f'file={f}', 'timeout=120', f'seed={r.randrange(1 << 20)}']
        if r.random() < .3: a += [f'threads={r.choice([2, 3, 5])}', f'delay={r.choice([1, 2, 3, 5])}']
        if r.random() < .15: a += [f'iflags={r.randrange(8)}']
        if r.random() < .15: a += ['invis=1']
        if r.random() < .1: a += [f'dec={r.randrange(4)}']
        if r.random() < .15: a += ['play=' + r.choice(['0-$,D,0-$,D', '0-1,F,0-$,D', '1-$,D'])]
        if r.random() < .1: a += ['strict=1']
        if r.random() < .1: a += ['fgapply=1', 'grain=0']
        jobs.append(('vdec_msan', a)); meta.append((f, d))
    for q, (f, d) in zip(c.run_jobs(jobs), meta):
        if not c.judge(q, f'{d} under MemorySanitizer'): continue
        if trace(q): c.distinct.add(f); c.count('msan_runs'); c.count('msan_pictures', len(q.lines('P')))
    inputs += [(stream(n), n) for n in r.sample(names, c.pick(300, len(names)))]
    if not c.thorough: inputs = r.sample(inputs, 1700)
    FILL = [['fill=0', 'picfill=0'], ['fill=255', 'picfill=255'], ['fill=256', 'picfill=256'], ['fill=257', 'picfill=91']]
    jobs = []; meta = []
    for i, (f, d) in enumerate(inputs):
        a = [f'file={f}', 'timeout=60', f'alloc={r.choice(["guard", "pad", "over"])}']; x = r.random()
        if x < .25: a += [f'threads={r.choice([2, 4])}', f'delay={r.choice([2, 3])}']
        elif x < .4: a += ['threads=3', 'delay=1']
        if r.random() < .3: a += ['cpu=' + r.choice('0137')]
        if r.random() < .2: a += ['play=' + r.choice(['0-$,D,0-$,D', '0-1,F,0-$,D', '1-$,D'])]
        if r.random() < .15: a += ['invis=1']
        if r.random() < .1: a += [f'dec={r.randrange(4)}']
        for fl in r.sample(FILL, 3): jobs.append(('vdec_rel', a + fl)); meta.append((i, d, f))
    first = {}
    for q, (i, d, f) in zip(c.run_jobs(jobs), meta):
        if not c.judge(q, f'{d} {" ".join(q.args[2:])}'): continue
        t = trace(q)
        if i not in first: first[i] = q; continue
        if t != trace(first[i]): c.violation('fill differs', f'{d}: {" ".join(q.args[2:])} and {" ".join(first[i].args[2:])} give different results', first[i].out + '\nversus\n' + q.out, [f])
        elif t: c.distinct.add(f); c.count('fill_comparisons')
    c.sample(' '.join(jobs[0][1])); c.sample(' '.join(jobs[-1][1]))
    c.assumptions = ['MemorySanitizer sees the C code only; the assembly is covered by the fill comparison']
