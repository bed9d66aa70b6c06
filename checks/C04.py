from lib.core import *
from lib import hostile
from checks.C06 import fields_s
from checks.C05 import dep_job, judge as race
def content(r): return [re.sub(r'ev=\d+ ', '', pcontent2(l)) for l in r.lines('P')]
def pcontent2(l): return l.split(' ', 3)[3]
CFG = [['threads=2'], ['threads=4'], ['threads=8'], ['threads=3', 'delay=1'], ['threads=6', 'delay=2'], ['threads=8', 'delay=8'], ['threads=16', 'delay=5'], ['threads=2', 'delay=1'], ['threads=13', 'delay=3'], ['threads=32', 'delay=16']]
def check(c):
    c.build('vdec_edge', 'vdec_rel', 'vdec_tsan')
    c.rule = 'one stream decoded single-threaded and under several thread counts, frame delays and (controlled or native) interleavings; every returned picture is compared in samples, size, order, properties, metadata and header hashes; non-trivial: at least one picture compared between the reference run and a multi-threaded run; distinct by stream and by schedule'
    r = c.rng; g = gold(); names = sorted(g); jobs = []; meta = []
    # conformant streams: reference = the single-threaded run, which itself must equal libaom
    for n in names:
        gr = '1' if '0,1,1' in g[n]['ref'] else '0'; base = [f'file={stream(n)}', 'all=1', f'grain={gr}', 'timeout=60']
        jobs.append(('vdec_rel', base + ['threads=1'])); meta.append((n, gr, None))
        for x in r.sample(CFG, c.pick(3, len(CFG))): jobs.append(('vdec_rel', base + x + ([f'poll={r.choice(["lazy", "each", "rand"])}', f'seed={r.randrange(1 << 20)}'] if r.random() < .4 else []))); meta.append((n, gr, x))
        if small(n) and (c.thorough or r.random() < .5):
            for _ in range(c.pick(1, 10)): jobs.append(('vdec_edge', base + sched_args(r))); meta.append((n, gr, 'sched'))
    for n in streams('mt') * c.pick(8, 60): jobs.append(('vdec_edge', [f'file={stream(n)}', 'all=1', 'grain=' + ('1' if '0,1,1' in g[n]['ref'] else '0'), 'timeout=60', *sched_args(r, (3, 4, 5, 8))])); meta.append((n, '1' if '0,1,1' in g[n]['ref'] else '0', 'sched'))
    # tall streams with short motion vectors: rows of a frame are used as soon as its progress allows, while the threads that decode it are held up; fresh picture memory holds noise
    for n in streams('dep') * c.pick(14, 150): jobs.append(('vdec_edge', [f'file={stream(n)}', 'all=1', 'grain=' + ('1' if '0,1,1' in g[n]['ref'] else '0'), 'alloc=pad', 'picfill=256', 'timeout=60', f'threads={r.choice([2, 3, 4, 6])}', f'delay={r.choice([2, 3, 4])}', f'sched={r.randrange(1, 1 << 30)}', f'smode={r.choice([5, 5, 5, 5, 6, 1])}', f'speriod={r.choice([100, 1000, 5000, 20000, 30000])}'])); meta.append((n, '1' if '0,1,1' in g[n]['ref'] else '0', 'sched'))
    ref = {}
    for q, (n, gr, x) in zip(c.run_jobs(jobs), meta):
        what = f'stream {n} {" ".join(q.args[4:])}'
        if not c.judge(q, what): continue
        if q.lines('R'): c.violation(f'rejected {n}', f'{what}: conformant stream rejected', q.out, [stream(n)]); continue
        if x is None:
            if [pkey(l) for l in q.lines('P')] != g[n]['ref'][f'0,1,{gr}']: c.violation(f'reference {n}', f'{what}: single-threaded result is not the libaom result', q.out, [stream(n)]); continue
            ref[n] = q; continue
        if n not in ref: continue
        a, b = content(ref[n]), content(q)
        if a != b:
            i = next((i for i, (u, v) in enumerate(zip(a, b)) if u != v), min(len(a), len(b)))
            c.violation(f'differs {n}', f'{what}: picture {i} differs from the single-threaded result ({len(b)} of {len(a)} pictures)', ref[n].out + '\nversus\n' + q.out, [stream(n)]); continue
        h = sched_stats(c, q); c.distinct.add((n, h or ' '.join(q.args[4:]))); c.count('pictures_compared', len(b)); c.count('multi_threaded_runs')
    # what a frame reads from others must be ordered after their decoding, else some interleaving gives another result
    jobs = [('vdec_tsan', dep_job(r, n)) for n in streams('dep') * c.pick(4, 50)]
    for q in c.run_jobs(jobs):
        if not race(c, q, 'frame threads'): continue
        c.count('runs_under_the_race_detector'); sched_stats(c, q)
    # damaged streams: within frame threading (delay > 1) and without it, nothing may depend on counts, delay or schedule
    hs = hostile.mutants(c, [n for n in names if small(n)], c.pick(500, 9000)) + hostile.generate(c, c.pick(120, 2500), frames=6)
    jobs = []; meta = []; FT = [['threads=2', 'delay=2'], ['threads=8', 'delay=8'], ['threads=5', 'delay=3'], ['threads=16', 'delay=6']]; NT = [['threads=1'], ['threads=4', 'delay=1'], ['threads=9', 'delay=1']]
    for f, d in hs:
        for cls, cf in (('frame threads', r.sample(FT, 3)), ('no frame threads', NT)):
            for x in cf: jobs.append(('vdec_rel', [f'file={f}', 'timeout=60', 'cpu=0', *x])); meta.append((f, d, cls))
            s = [x for x in sched_args(r) if x[:5] != 'delay'] + (['delay=1'] if cls[:2] == 'no' else [f'delay={r.choice([2, 3, 4, 8])}'])
            jobs.append(('vdec_edge', [f'file={f}', 'timeout=60', *s])); meta.append((f, d, cls))
    first = {}
    for q, (f, d, cls) in zip(c.run_jobs(jobs), meta):
        if not c.judge(q, f'damaged {d} {" ".join(q.args[2:])}'): continue
        a = content(q); sched_stats(c, q); k = (f, cls)
        if k not in first: first[k] = (a, q); continue
        if a != first[k][0]: c.violation('damaged differs', f'damaged stream {d}: {" ".join(q.args[2:])} and {" ".join(first[k][1].args[2:])} ({cls}) return different pictures', first[k][1].out + '\nversus\n' + q.out, [f])
        elif a: c.distinct.add(k); c.count('damaged_runs_compared')
    c.sample(' '.join(jobs[0][1])); c.sample(f'{names[0]} {CFG}')
    c.assumptions = ['damaged input: frame-threaded and other decoding are compared only among themselves (they detect a bad frame at different times)']
