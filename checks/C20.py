from lib.core import *
from lib import hostile
from checks.C06 import fields_s
AL = ['guard', 'pad', 'neg', 'negpad', 'over']
def check(c):
    c.build('vdec_rel', 'vdec_asan')
    c.rule = 'one decode into buffers of a custom allocator (exact fit before an inaccessible page, padded strides, strides that change per buffer, negative strides, offset placement) with guard patterns around every plane and row; the request parameters, pointers, cookies and releases are checked and conformant streams must give the golden samples; non-trivial: at least one buffer was requested; distinct by stream and settings'
    r = c.rng; g = gold(); names = sorted(g); jobs = []; meta = []
    for n in names if c.thorough else r.sample(names, 900):
        gr = '1' if '0,1,1' in g[n]['ref'] and r.random() < .7 else '0'
        for al in (AL if c.thorough else r.sample(AL, 2)) + (['padvar'] if gr == '0' else []):
            a = [f'file={stream(n)}', 'all=1', f'grain={gr}', f'alloc={al}', 'exactpad=1', 'timeout=60', f'picfill={r.choice([0, 91, 255, 256])}', f'cpu={r.choice([0, 1, 3, 7, 15, 31])}']
            if r.random() < .4: a += [f'threads={r.choice([2, 3, 6])}', f'delay={r.choice([1, 2, 4])}']
            if r.random() < .3: a += [f'hold={r.choice([2, 1000])}']
            if r.random() < .2 and al != 'padvar': a += ['fgapply=1']
            jobs.append(('vdec_asan' if r.random() < .1 and small(n) else 'vdec_rel', a)); meta.append((n, g[n]['ref'][f'0,1,{gr}']))
    for q, (n, want) in zip(c.run_jobs(jobs), meta):
        if not c.judge(q, f'stream {n} {q.args[3]}'): continue
        got = [pkey(l) for l in q.lines('P')]; c.count('pictures_compared', len(got)); c.count('buffers_requested', fields_s(q).get('picallocs', 0)); c.seen('allocators', q.args[3])
        if got != want or q.lines('R'): c.violation(f'samples {q.args[3]}', f'stream {n} {" ".join(q.args[2:])}: the samples depend on the allocator', q.out + '\nwant\n' + '\n'.join(want), [stream(n)])
        else: c.distinct.add((n, *q.args[2:]))
    # hostile input and failing allocators
    sm = [n for n in names if small(n)]; hs = hostile.mutants(c, sm, c.pick(500, 12000)) + hostile.generate(c, c.pick(120, 3000)) + [(stream(n), n) for n in r.sample(sm, c.pick(150, 900))]
    jobs = []; meta = []
    for f, d in hs:
        a = [f'file={f}', 'timeout=60', f'alloc={r.choice(AL)}', 'exactpad=1', 'ledger=1', f'seed={r.randrange(1 << 20)}']
        if r.random() < .4: a += [f'threads={r.choice([2, 3, 6])}', f'delay={r.choice([1, 2, 4])}']
        if r.random() < .5: a += [f'failpic={r.randrange(1, 9)}']
        if r.random() < .3: a += ['play=' + r.choice(['0-$,D,0-$,D', '0-1,F,0-$,D', '0-2', '0-$,F'])]
        if r.random() < .3: a += ['limit=' + r.choice(['100', '4000', '20000'])]
        if r.random() < .3: a += ['invis=1']
        jobs.append(('vdec_rel', a)); meta.append(d)
    for q, d in zip(c.run_jobs(jobs), meta):
        if not c.judge(q, f'{d} {q.args[2]}'): continue
        s = fields_s(q); c.count('buffers_requested', s.get('picallocs', 0)); c.count('failed_requests', s.get('failed', 0))
        if s.get('failed', 0) and not q.lines('R'): c.violation('failure not reported', f'{d} {" ".join(q.args[2:])}: the allocator failed but no call reported an error', q.out, [q.args[0][5:]])
        if s.get('picallocs', 0): c.distinct.add(hash(tuple(q.args)))
    # the two recorded findings, exercised every time: the padding AVX-512 may over-read, and strides that differ between a picture and its grained copy
    gn = [m for m in names if '0,1,1' in g[m]['ref'] and g[m]['ref']['0,1,1'] != g[m]['ref']['0,1,0']][:c.pick(40, 400)]
    jobs = [('vdec_rel', [f'file={stream(m)}', 'all=1', 'grain=1', 'alloc=padvar', 'timeout=60']) for m in gn]
    for q in c.run_jobs(jobs): c.judge(q, 'strides that change per buffer with film grain')
    for q in c.run_jobs([('vdec_rel', [f'file={stream(m)}', 'all=1', 'grain=0', 'alloc=neg', 'exactpad=1', 'timeout=60']) for m in [n for n in names if g[n]['cfg']['bd'] != 8][:c.pick(150, 2000)]]): c.judge(q, 'negative strides')
    c.sample(' '.join(jobs[0][1])); c.sample(' '.join(jobs[-1][1]))
