from lib.core import *
from lib import hostile
from checks.C06 import fields_s
def check(c):
    c.build('vdec_rel', 'vdec_asan')
    c.rule = 'one decode whose input packets lie write-protected directly in front of an inaccessible page and become inaccessible when released; the data window and ownership are checked at every call; non-trivial: at least one packet was sent; distinct by input, packetisation and settings'
    r = c.rng; names = sorted(gold()); sm = [n for n in names if small(n)]
    inputs = [(stream(n), n) for n in r.sample(names, c.pick(500, len(names)))] + hostile.mutants(c, sm, c.pick(1100, 25000)) + hostile.generate(c, c.pick(250, 5000))
    jobs = []; meta = []
    for k in range(c.pick(2, 10)):
        for f, d in inputs:
            a = [f'pk={r.choice(["tu", "tu", "all", "obu", "rnd:%d" % r.randrange(99)])}', f'poll={r.choice(["cli", "each", "lazy", "rand"])}']
            if r.random() < .06: n = r.choice([1, 2, 3, 7, 50]); a[0] = 'pk=list:' + ','.join([str(n)] * 60)
            if r.random() < .5: a += [f'threads={r.choice([2, 3, 8])}', f'delay={r.choice([0, 1, 2, 4])}']
            if r.random() < .4: a.append('play=' + r.choice(['0-$,D,0-$,D', '0-1,F,0-$,D', '0-2', '0-$,F', '1-$,D', '0-1,G,F,F,1-$,D', '0-1,C,0-3,D']))
            if r.random() < .2: a.append('cpu=0')
            if r.random() < .1: a.append('limit=3000')
            if r.random() < .15: a.append('strict=1')
            if r.random() < .15: a.append(f'op={r.randrange(4)}')
            if r.random() < .1: a.append('ud=0')
            if r.random() < .2: a.append(f'empties={r.choice([5, 30, 80])}')
            if r.random() < .2: a.append(f'props={r.choice(["def", "sign", "neg"])}')
            ex = 'vdec_asan' if r.random() < .2 and small(d) else 'vdec_rel'
            a.append('guard=1' if ex == 'vdec_rel' or r.random() < .5 else 'data=' + r.choice(['create', 'wrap']))
            jobs.append((ex, [f'file={f}', 'quiet=1', 'timeout=120', f'seed={r.randrange(1 << 20)}', *a])); meta.append(d)
    for q, d in zip(c.run_jobs(jobs), meta):
        if not c.judge(q, f'{d}'): continue
        s = fields_s(q); c.count('packets', s.get('packets', 0)); c.count('pictures', s.get('pics', 0)); c.count('error_returns', s.get('errs', 0))
        if s.get('packets', 0): c.distinct.add(hash(tuple(q.args)))
    c.sample(' '.join(jobs[0][1])); c.sample(' '.join(jobs[-1][1]))
