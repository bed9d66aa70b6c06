from lib.core import *
from lib import mdl, obu, hostile
def err(q): return '\n'.join(l for l in q.err.splitlines() if 'WARNING: AddressSanitizer failed to allocate' not in l)
def check(c):
    c.build('vargs_nd'); r = c.rng
    c.rule = 'one job of random settings (in and out of range), random invalid calls in the middle of a decode, every pair of thread count and frame delay, or the loggers; the harness checks return codes, caller objects, leaks, output on stdout and stderr, and that the decode is the same as without the invalid calls; distinct by stream, job and seed'
    g = gold(); names = sorted(n for n in g if g[n]['size'] < c.pick(4000, 40000)); jobs = []; what = []
    def sz(n, dam=False):
        p = [obu.join(t) for t in obu.tus(obu.parse(mdl.load(n)))]
        if dam: p = [hostile.mutate(r, x, r.choice(['bitflip', 'hdrflip', 'truncobu', 'trunc']), None) or x if r.random() < .5 else x for x in p]
        f = f'{c.tmp}/{len(jobs)}.sz'; open(f, 'wb').write(obu.packets(p)); return f
    jobs.append(('vargs_nd', ['job=delay', f'seed={r.randrange(1 << 30)}'])); what.append('delay')
    for _ in range(c.pick(150, 3000)): n = r.choice(names); jobs.append(('vargs_nd', ['job=settings', f'file={sz(n, r.random() < .3)}', f'seed={r.randrange(1 << 30)}', f'n={c.pick(25, 60)}'])); what.append(f'settings {n}')
    for _ in range(c.pick(900, 20000)): n = r.choice(names); jobs.append(('vargs_nd', ['job=calls', f'file={sz(n, r.random() < .3)}', f'seed={r.randrange(1 << 30)}', f'threads={r.choice([1, 1, 2, 4])}', f'delay={r.choice([0, 1, 2, 3])}', f'grain={r.choice([0, 1])}', f'all={r.choice([0, 1])}', f'invis={r.choice([0, 1])}', f'log={r.choice([0, 1])}'])); what.append(f'calls {n}')
    for _ in range(c.pick(60, 800)):
        n = r.choice(names); f = sz(n, True); t = r.choice([1, 1, 3])
        for l in (2, 1, 0): jobs.append(('vargs_nd', ['job=log', f'file={f}', f'log={l}', f'threads={t}'])); what.append(f'log {n}')
    res = c.run_jobs(jobs)
    msgs = None
    for (ex, a), w, q in zip(jobs, what, res):
        if a[0] == 'job=log' and 'log=2' in a: msgs = None
        if not c.judge(q, w): continue
        f = [x[5:] for x in a if x.startswith('file=')]; m = dict(zip(*[iter((q.lines('S') or ['S'])[-1].split()[1:])] * 2)); log1 = 'log=1' in a and a[0] == 'job=log'
        if err(q) and not log1: c.violation('stderr', f'{w}: the library wrote to stderr: {err(q)[:300]}', ' '.join(a) + '\n' + q.err, f); continue
        if a[0] == 'job=log' and 'log=2' in a: msgs = [l[2:] for l in q.lines('L')]
        if log1 and msgs is not None and sorted(q.err.splitlines()) != sorted(msgs): c.violation('default logger', f'{w}: the default logger wrote {q.err.splitlines()[:3]} to stderr, a caller\'s logger got {msgs[:3]}', q.out + q.err, f); continue
        for k in ('bad', 'good', 'calls', 'log', 'pics', 'errs'):
            if k in m: c.count({'bad': 'invalid_settings', 'good': 'valid_settings', 'calls': 'invalid_calls', 'log': 'log_messages', 'pics': 'pictures', 'errs': 'error_returns'}[k], int(m[k]))
        c.distinct.add(' '.join(a))
    for j in jobs[:1] + jobs[1:3] + jobs[200:202]: c.sample(' '.join(j[1]))
