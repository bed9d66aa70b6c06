from lib.core import *
from lib import hostile
PLAYS = ['0-$,D,0-$,D', '0-1,F,0-$,D', '0-2,D,C,0-$,D', '0-1,V,G,F,F,1-$,D', '1-$,D', '0-$,H,F,0-3,D', '0-$', '0-0,C,0-1,F,C,0-$,D', '0-1,G,G,2-$,D,D', '0-0,D,1-1,D,2-$,D', '0-1,F,F,D,0-$,F,D', '0,1,G,G,2,G,G,3-$,D,0-$']
def history(r):
    a = []
    if r.random() < .7: a.append('poll=' + r.choice(['each', 'lazy', 'rand', 'rand']))
    if r.random() < .3: a.append('pk=' + r.choice(['all', 'obu', f'rnd:{r.randrange(99)}']))
    if r.random() < .5: a.append('play=' + r.choice(PLAYS))
    if r.random() < .15: a.append(f'iflags={r.randrange(8)}')
    if r.random() < .1: a.append('invis=1')
    if r.random() < .1: a.append(f'dec={r.randrange(4)}')
    if r.random() < .1: a.append(f'failpic={r.randrange(1, 12)}'); a.append('alloc=pad')
    return a
def check(c):
    c.build('vdec_edge', 'vdec_rel')
    c.rule = 'one complete use of a decoder (open, send, fetch, drain, flush, close) under a scheduler that decides every interleaving and recognises when no thread can run, or on native threads with a watchdog; non-trivial: several threads and at least one API result; distinct by schedule decisions (controlled) or by input and settings (native)'
    r = c.rng; names = [n for n in sorted(gold()) if small(n)]; mt = streams('mt')
    inputs = [(stream(n), n) for n in r.sample(names, c.pick(500, len(names)))] + [(stream(n), n) for n in mt] * c.pick(6, 20)
    inputs += hostile.mutants(c, names, c.pick(700, 12000)) + hostile.generate(c, c.pick(150, 2500), frames=8)
    jobs = []; meta = []
    for k in range(c.pick(2, 12)):
        for f, d in inputs: jobs.append(('vdec_edge', [f'file={f}', 'quiet=1', 'timeout=60', *sched_args(r), *history(r)])); meta.append(d)
    for r_, d in zip(c.run_jobs(jobs), meta):
        if not c.judge(r_, f'{d} under a controlled schedule'): continue
        g = sched_stats(c, r_); s = fields_s(r_)
        if s.get('threads', 0) > 0 and s.get('pics', 0) + s.get('errs', 0) > 0: c.distinct.add(g)
        c.count('pictures', s.get('pics', 0)); c.count('error_returns', s.get('errs', 0))
    jobs = []; meta = []
    for k in range(c.pick(4, 25)):
        for f, d in inputs: jobs.append(('vdec_rel', [f'file={f}', 'quiet=1', 'timeout=20', f'threads={r.choice([1, 2, 3, 4, 8, 16])}', f'delay={r.choice([0, 0, 1, 2, 3, 8])}', f'seed={r.randrange(1 << 20)}', *history(r)])); meta.append(d)
    for r_, d in zip(c.run_jobs(jobs), meta):
        if not c.judge(r_, f'{d} on native threads'): continue
        s = fields_s(r_); c.count('native_runs')
        if s.get('threads', 0) > 0 and s.get('pics', 0) + s.get('errs', 0) > 0: c.distinct.add(hash((r_.args[0], *r_.args[3:])))
    # valid input is never held back for ever: after the drain every picture has come out
    jobs = []; meta = []
    for n in r.sample(sorted(gold()), c.pick(600, 1405)):
        jobs.append(('vdec_edge' if small(n) and r.random() < .5 else 'vdec_rel', [f'file={stream(n)}', 'timeout=60', 'all=1', 'grain=0', f'poll={r.choice(["lazy", "rand", "cli"])}', *(sched_args(r))])); meta.append(n)
    for r_, n in zip(c.run_jobs(jobs), meta):
        if not c.judge(r_, f'{n} drained'): continue
        want = len(gold()[n]['ref']['0,1,0']); got = len(r_.lines('P'))
        if got != want: c.violation('withheld', f'stream {n} {" ".join(r_.args[2:])}: {got} of {want} pictures came out before the drain reported "try again"', r_.out, [stream(n)])
        else: c.count('drained_streams')
    c.sample(' '.join(jobs[0][1])); c.sample(' '.join(jobs[-1][1]))
    c.assumptions = ['the controlled scheduler preempts at synchronisation calls and at basic-block edges, i.e. it explores sequentially consistent interleavings', 'SIMD is off in the controlled runs (threading code is the same)']
def fields_s(r):
    for l in r.lines('S'):
        x = l.split()
        if x[1] == 'pics': return {x[i]: int(x[i + 1]) for i in range(1, len(x) - 1, 2)}
    return {}
