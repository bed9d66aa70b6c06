from lib.core import *
from lib import mdl, obu, hostile
def check(c):
    c.build('vmulti_rel', 'vmulti_tsan'); r = c.rng; g = gold()
    c.rule = 'one process with 2 to 12 decoders opened, used and closed at the same time by as many threads (each with its own stream, settings, allocator and logger; the first use of the library is concurrent too), every decoder\'s record compared with the same decoder alone in a process; in part of the runs under ThreadSanitizer; non-trivial: at least two decoders were open at once; distinct by the set of workers'
    names = sorted(n for n in g if g[n]['size'] < c.pick(2500, 12000)); files = {}
    def pkts(key, data, mode):
        try: o = obu.parse(data); p = [x for x in mdl.group(r, o, mode)]; b = [obu.join(x) for x in p]
        except Exception: b = [data]
        f = f'{c.tmp}/{len(files)}.sz'; open(f, 'wb').write(obu.packets([x for x in b if x])); files[f] = key; return f
    def line():
        n = r.choice(names); d = mdl.load(n); mode = r.choice(['tu', 'tu', 'obu', 'all'])
        if r.random() < .2: d = hostile.mutate(r, d, r.choice(['bitflip', 'bytes', 'dropobu', 'trunc']), None); n += '*'
        th = r.choice([1, 1, 2, 2, 3]); a = [f'file={pkts(n, d, mode)}', f'threads={th}', f'rounds={r.choice([1, 1, 2, 3])}', f'poll={r.randrange(2)}', f'alloc={r.randrange(2)}']
        if r.random() < .5: a.append(f'delay={r.choice([1, 1, 2])}')
        if r.random() < .4: a.append(f'grain={r.randrange(2)}')
        if r.random() < .2: a.append(f'iflags={r.randrange(8)}')
        if r.random() < .2: a.append(f'dec={r.randrange(4)}')
        if r.random() < .2: a.append('strict=1')
        if r.random() < .2: a.append(f'all={r.randrange(2)}')
        if r.random() < .15: a.append('limit=' + str(r.choice([100, 5000])))
        if r.random() < .2: a.append('probe=1')
        if r.random() < .15: a.append('stop=' + str(r.randrange(4)))
        if r.random() < .15: a.append('flush=1')
        # (what follows damage depends on the number of threads and on when pictures are taken, so damaged streams are decoded one frame at a time)
        if n.endswith('*'): a = [x for x in a if not x.startswith(('threads', 'delay'))] + ['threads=1']
        return ' '.join(a)
    lines = [line() for _ in range(c.pick(400, 4000))]; jobs = []
    for i, l in enumerate(lines): f = f'{c.tmp}/s{i}'; open(f, 'w').write(l); jobs.append(('vmulti_rel', [f'spec={f}', 'timeout=60']))
    solo = {}
    for q, l in zip(c.run_jobs(jobs), lines):
        if c.judge(q, 'one decoder alone'): solo[l] = [x for x in q.out.split('\n')[1:-2]]
    ok = [l for l in lines if l in solo]; jobs = []; meta = []
    for i in range(c.pick(460, 6000)):
        ts = r.random() < .35; k = r.choice([2, 2, 3, 4] if ts else [2, 3, 4, 6, 8, 12]); ls = [r.choice(ok) for _ in range(k)] if r.random() < .8 else [r.choice(ok)] * k
        f = f'{c.tmp}/m{i}'; open(f, 'w').write('\n'.join(ls)); jobs.append(('vmulti_tsan' if ts else 'vmulti_rel', [f'spec={f}', f'skew={r.choice([0, 0, 100, 3000, 100000])}', f'pass={r.randrange(2)}', f'seed={r.randrange(1 << 20)}', 'timeout=100'])); meta.append(ls)
    for q, ls in zip(c.run_jobs(jobs, workers=6), meta):
        d = '\n'.join(ls)
        if q.rc == 66: c.violation(f'race {crash_sig(q)}', f'{len(ls)} decoders at once: {crash_sig(q)}', d + q.err[-6000:]); continue
        if not c.judge(q, f'{len(ls)} decoders at once'): continue
        s = fields(q.lines('S')[-1]); parts = q.out.split('\nS ')[0].split('W ')[1:]; good = 1
        for i, (p, l) in enumerate(zip(parts, ls)):
            got = [x for x in p.split('\n')[1:] if x]; want = [x for x in solo[l] if x]; c.count('decoders_compared'); c.count('pictures_compared', sum(x[0] == 'P' for x in got))
            if got != want:
                good = 0; x = next((k for k, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
                c.violation('differs from alone', f'decoder {i} of {len(ls)} does not behave as it does alone: {(got + ["nothing"])[x] if x < len(got) else "nothing"} instead of {want[x] if x < len(want) else "nothing"}', d + '\n' + l + '\n--- got\n' + '\n'.join(got) + '\n--- alone\n' + '\n'.join(want), [l.split()[0][5:]])
        c.count('open_at_once', int(s['peak']) >= 2); c.count('pictures_released_elsewhere', int(s['handed'])); c.count('decoders_opened', int(s['opens'])); c.seen('peak', int(s['peak']))
        if q.exe.endswith('tsan'): c.count('runs_under_tsan')
        if good and int(s['peak']) >= 2: c.distinct.add(tuple(ls))
    c.sample(lines[0]); c.sample(' | '.join(meta[0]))
