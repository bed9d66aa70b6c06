from lib.core import *
from lib import hostile
from checks.C01 import settings
from checks.C06 import fields_s, history
def check(c):
    c.build('vdec_rel', 'vdec_edge', 'vdec_asan')
    c.rule = 'one complete use of the library in which every heap block, picture buffer, wrapped packet, user-data reference and thread is entered in a ledger and must have been released exactly once at the end; non-trivial: at least one picture or error was returned; distinct by input, history and settings'
    r = c.rng; names = sorted(gold()); sm = [n for n in names if small(n)]
    inputs = [(stream(n), n) for n in r.sample(names, c.pick(500, len(names)))] + hostile.mutants(c, sm, c.pick(1200, 25000)) + hostile.generate(c, c.pick(300, 6000))
    jobs = []; meta = []
    for k in range(c.pick(3, 12)):
        for f, d in inputs:
            a = [x for x in settings(r)] + [x for x in history(r) if r.random() < .5]
            if r.random() < .3: a.append('heldfirst=1')
            if r.random() < .2: a.append(f'hold={r.choice([3, 1000])}')
            if r.random() < .15: a.append(f'relthreads={r.choice([1, 2])}')
            if r.random() < .1: a.append('fgapply=1')
            if r.random() < .4: a.append(f'props={r.choice(["def", "sign", "neg"])}')
            d2 = {}; [d2.__setitem__(x.split('=')[0], x) for x in a]; a = list(d2.values())
            x = r.random(); ex = 'vdec_rel'
            if x < .08 and small(d): ex = 'vdec_edge'; a = [y for y in a if y.split('=')[0] not in ('threads', 'delay', 'cpu', 'seed')] + sched_args(r)
            jobs.append((ex, [f'file={f}', 'ledger=1', 'timeout=60', f'seed={r.randrange(1 << 20)}', *a])); meta.append(d)
    for q, d in zip(c.run_jobs(jobs), meta):
        if not c.judge(q, f'{d}'): continue
        s = fields_s(q); sched_stats(c, q)
        if s.get('pics', 0) + s.get('errs', 0) > 0: c.distinct.add(hash(tuple(q.args)))
        for k in ('pics', 'errs', 'allocs', 'threads', 'picallocs'): c.count('ledger_' + k, s.get(k, 0))
    c.sample(' '.join(jobs[0][1])); c.sample(' '.join(jobs[-1][1]))
    c.assumptions = ['failing requests: see C11', 'memory the C library keeps for itself is not in the ledger']
