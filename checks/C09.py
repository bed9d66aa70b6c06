from lib.core import *
from lib import hostile
def check(c):
    c.build('vdec_rel', 'vdec_asan')
    c.rule = 'one decode whose pictures are kept (all, or a sliding number of them) and whose samples, parameters, headers, properties and metadata are hashed when returned, again at release and again after the decoder was closed; freed memory is poisoned or unmapped; non-trivial: at least two pictures were held across later calls; distinct by input, history and settings'
    r = c.rng; names = sorted(gold()); sm = [n for n in names if small(n)]
    inputs = [(stream(n), n) for n in r.sample(names, c.pick(500, len(names)))] + hostile.mutants(c, sm, c.pick(400, 9000)) + hostile.generate(c, c.pick(100, 2000))
    jobs = []; meta = []
    for k in range(c.pick(2, 10)):
        for f, d in inputs:
            a = [f'hold={r.choice([1, 2, 3, 5, 8, 1000, 1000, 1000])}']
            if r.random() < .6: a += [f'threads={r.choice([2, 3, 4, 8])}', f'delay={r.choice([0, 1, 2, 3, 8])}']
            if r.random() < .5: a.append('play=' + r.choice(['0-$,D,0-$,D', '0-1,F,0-$,D', '0-$,D,C,0-$,D', '0-1,G,F,F,1-$,D', '0-$', '0-$,D,F,0-$,F', '0-$,D,H,0-$,D,C,0-2']))
            if r.random() < .4: a.append(f'alloc={r.choice(["guard", "neg", "pad", "over"])}')
            if r.random() < .3: a.append('heldfirst=1')
            if r.random() < .3: a.append('grain=0')
            if r.random() < .2: a.append('invis=1')
            if r.random() < .2: a.append('fgapply=1')
            if r.random() < .2: a.append('all=0')
            if r.random() < .3: a.append('poll=' + r.choice(['each', 'lazy', 'rand']))
            if r.random() < .3: a.append('data=create')
            if r.random() < .3: a.append(f'props={r.choice(["def", "sign", "neg"])}')
            ex = 'vdec_asan' if r.random() < .25 and small(d) else 'vdec_rel'
            if ex == 'vdec_rel': a.append('fill=257')
            jobs.append((ex, [f'file={f}', 'timeout=120', f'seed={r.randrange(1 << 20)}', *a])); meta.append(d)
    for q, d in zip(c.run_jobs(jobs), meta):
        if not c.judge(q, f'{d}'): continue
        n = len(q.lines('P')); c.count('pictures_held', n); c.count('pictures_with_t35', sum(' t35=0,' not in l for l in q.lines('P'))); c.count('runs_in_asan', 'asan' in q.exe)
        if n >= 2: c.distinct.add(hash(tuple(q.args)))
    c.sample(' '.join(jobs[0][1])); c.sample(' '.join(jobs[-1][1]))
    c.assumptions = ['a change that is undone before the picture is next examined would not be seen; concurrent writes are C05']
