from lib.core import *
from lib import mdl, obu, av1
BUILDS = {'vdec_rls': (8, 10, 12), 'vdec_b8': (8,), 'vdec_b16': (10, 12), 'vdec_edge': (8, 10, 12)}
def check(c):
    c.build(*BUILDS); r = c.rng; g = gold()
    c.rule = 'one decode of a sequence of corpus streams by a library built with other options (released form without assertions and with trimmed function tables, 8-bit only without logging, high bit depth only, without assembly); what the build supports is compared with the golden samples, what it does not must be refused with ENOPROTOOPT and leave the rest intact; distinct by streams, build and settings'
    names = sorted(n for n in g if g[n]['size'] < c.pick(5000, 100000) and '0,1,0' in g[n]['ref'] and g[n]['ref']['0,1,0'] and not mdl.is_lay(n) and len({x.split()[2] for x in g[n]['ref']['0,1,0']}) == 1 and len({o.payload[:1] + bytes(av1.sequence(o.payload)['hbd'] for _ in '1') for o in mdl.parsed(n) if o.type == obu.SEQ}) == 1)
    depth = {n: int(g[n]['ref']['0,1,0'][0].split()[2][1:]) for n in names}; jobs = []; meta = []; by = {d: [n for n in names if depth[n] == d] for d in (8, 10, 12)}
    for i in range(c.pick(2600, 40000)):
        ex = r.choice(['vdec_rls', 'vdec_rls', 'vdec_b8', 'vdec_b8', 'vdec_b16', 'vdec_b16', 'vdec_edge']); sup = BUILDS[ex]; gr = r.choice(['0', '1'])
        ns = [r.choice(by[r.choice((8, 10, 12))] or names) for _ in range(r.choice([1, 1, 2, 3]))]; T = [obu.tus(mdl.parsed(n)) for n in ns]
        f, P = mdl.case(c, str(i), [t for x in T for t in x])
        a = [f'file={f}', 'pk=sz:', f'grain={gr}', 'timeout=60', f'poll={r.choice(["each", "cli", "lazy"])}'] + mdl.thr(r, .5) + ([f'cpu={r.choice([0, 1, 3, 7, 15, 31])}'] if r.random() < .4 else []) + (['ledger=1'] if r.random() < .3 else [])
        jobs.append((ex, a)); meta.append((ns, [len(x) for x in T], sup, gr, f))
    for (ex, a), q, (ns, ln, sup, gr, f) in zip(jobs, c.run_jobs(jobs), meta):
        what = f'{ex[5:]} build: {"+".join(f"{n} ({depth[n]} bit)" for n in ns)}'
        if not c.judge(q, what): continue
        # packets of unsupported streams; what is reported there
        lo = 0; want = []; bad = set()
        for n, k in zip(ns, ln):
            if depth[n] in sup: want += g[n]['ref'].get(f'0,1,{gr}') or g[n]['ref']['0,1,0']
            else: bad |= set(range(lo, lo + k))
            lo += k
        got = [pkey(l) for l in q.lines('P')]
        if got != want:
            i = next((i for i, (x, y) in enumerate(zip(got, want)) if x != y), min(len(got), len(want)))
            c.violation(f'pictures {ex}', f'{what}: picture {i} is {got[i] if i < len(got) else "missing"}, should be {want[i] if i < len(want) else "none"}', ' '.join(q.args) + '\n' + q.out, [f]); continue
        R = q.lines('R'); X = [(int(fields(l)['ts']) - 1000) // 10 for l in q.lines('X')]
        if any(k not in bad for k in X): c.violation(f'supported refused {ex}', f'{what}: an error was reported for a supported stream', ' '.join(q.args) + '\n' + q.out, [f]); continue
        if bad and not any(int(l.split()[2]) == -92 for l in R): c.violation(f'unsupported {ex}', f'{what}: the unsupported stream was not refused with ENOPROTOOPT: {R[:2]}', ' '.join(q.args) + '\n' + q.out, [f]); continue
        if not bad and R: c.violation(f'error {ex}', f'{what}: {R[0]}', q.out, [f]); continue
        c.distinct.add((ex, f)); c.count('pictures_compared', len(want)); c.seen('builds', ex[5:]); c.count('refused_streams', sum(depth[n] not in sup for n in ns))
    for j in jobs[:4]: c.sample(j[0] + ' ' + ' '.join(j[1]))
