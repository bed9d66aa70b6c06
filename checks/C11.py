from lib.core import *
LEVEL = 'fault_enumeration'
CF = [['threads=1'], ['threads=4', 'delay=3'], ['threads=3', 'delay=1'], ['threads=2', 'delay=2', 'alloc=pad'], ['threads=1', 'data=create'], ['threads=1', 'alloc=pad', 'pk=obu'], ['threads=3', 'delay=3', 'data=create', 'pk=all'], ['threads=1', 'alloc=pad'], ['threads=8', 'delay=8'], ['threads=1', 'op=0', 'all=0']]
PLAY = 'play=0-$,D,O,F,0-$,D'
def totals(q):
    for l in q.lines('S'):
        x = l.split()
        if x[1] == 'pics': return {x[i]: int(x[i + 1]) for i in range(1, len(x) - 1, 2)}
    return {}
def judge_fault(c, q, n, half, what):
    """faults are armed up to the point where the driver prints '- faults off', then flush and decode everything again"""
    if not c.judge(q, what): return
    t = q.out.split('- faults off')
    if len(t) < 2:
        if 'R open' in t[0]: c.count('open_refused'); c.distinct.add((n, what)); return
        c.violation('no-second-pass', f'{what}: the run ended early', q.out); return
    failed = not t[1].lstrip().startswith('(failed 0')
    p1 = [pkey(l) for l in t[0].splitlines() if l[:2] == 'P ']; p2 = [pkey(l) for l in t[1].splitlines() if l[:2] == 'P ']
    R = [l for l in t[0].splitlines() if l[:2] == 'R ']
    if p2 != half:
        c.violation(f'second-pass {what.split(" fail")[0]}', f'{what}: after the failed request the decoder was flushed, and then decoded the same stream to something else ({len(p2)} of {len(half)} pictures)', q.out, [stream(n)]); return
    if not failed:
        c.count('not_reached')
        if p1 != half or R: c.violation('unfailed', f'{what}: nothing failed but the result is wrong', q.out, [stream(n)])
        return
    c.count('failures_injected'); c.distinct.add((n, what))
    if p1 != half and not R:
        c.violation(f'silent {"frame" if len(p1) == len(half) else "drop"}', f'{what}: a request failed, {len(p1)} of {len(half)} pictures came out, they are not the right ones, and no call reported an error', q.out, [stream(n)]); return
    bad = [l for l in R if 'res=0' in l]
    if R: c.count('reported')
    else: c.count('tolerated')
def check(c):
    c.build('vdec_rel', 'vdec_asan', 'vdec_edge')
    c.rule = 'one resource request (heap block, picture buffer or thread; counted in program order) fails, then the stream is drained, the decoder flushed, the same stream decoded again, and everything closed with a full resource account; non-trivial: the failure was really injected; distinct by stream, settings and request number'
    r = c.rng; g = gold()
    pool = [n for n in sorted(g) if g[n]['size'] < 2500 and n.split('/')[0] in ('base', 'lay', 'gop', 'anim', 'mt', 'tiles')] or sorted(g)
    names = r.sample(pool, min(len(pool), c.pick(24, 220))) + streams('mt')[:c.pick(2, 9)]
    base = [(n, cf, [f'file={stream(n)}', 'timeout=30', 'ledger=1', 'all=1', PLAY, *[x for x in cf if x[:4] != 'all=' or True]]) for n in names for cf in (CF if c.thorough else CF[:5] if r.random() < .5 else r.sample(CF, 4))]
    jobs = []; meta = []
    for (n, cf, a), q in zip(base, c.run_jobs([('vdec_rel', x[2] + ['fail=100000000']) for x in base])):
        if not c.judge(q, f'{n} {" ".join(cf)} without a failure'): continue
        s = totals(q); full = [pkey(l) for l in q.lines('P')]; half = full[:len(full) // 2]
        if full[len(full) // 2:] != half: c.violation('repeat', f'{n} {" ".join(cf)}: the two passes differ without any failure', q.out, [stream(n)]); continue
        N = s['allocs'] // 2 + 10; ks = list(range(1, N))
        lim = c.pick(60, 600)
        if len(ks) > lim: ks = sorted(set(ks[:lim // 3] + r.sample(ks, 2 * lim // 3)))
        ex = lambda: 'vdec_asan' if r.random() < .25 else 'vdec_rel'
        for k in ks: jobs.append((ex(), a + [f'fail={k}'])); meta.append((n, half, f'{n} {" ".join(cf)} fail={k}'))
        if any(x[:5] == 'alloc' for x in cf):
            for k in range(1, min(s['picallocs'] // 2 + 1, 40)): jobs.append((ex(), a + [f'failpic={k}'])); meta.append((n, half, f'{n} {" ".join(cf)} failpic={k}'))
        for k in range(1, s['threads'] + 1): jobs.append((ex(), a + [f'failthread={k}'])); meta.append((n, half, f'{n} {" ".join(cf)} failthread={k}'))
        # several requests in a row, and the same failure under chosen interleavings
        for k in r.sample(ks, min(len(ks), c.pick(3, 20))): jobs.append((ex(), a + [f'fail={k}', f'faillen={r.choice([2, 3, 10, 100])}'])); meta.append((n, half, f'{n} {" ".join(cf)} fail={k}+'))
        if 'threads=1' not in cf:
            sa = [x for x in sched_args(r) if x.split('=')[0] not in ('threads', 'delay')]
            for k in r.sample(ks, min(len(ks), c.pick(8, 60))): jobs.append(('vdec_edge', a + sa + [f'fail={k}'])); meta.append((n, half, f'{n} {" ".join(cf)} fail={k} scheduled'))
    # every allocation site, by site (not by order), with several threads and chosen interleavings
    sn = r.sample(pool, min(len(pool), c.pick(3, 40)))
    sb = []
    for n in sn:
        th = r.choice([2, 3, 4]); cf = [f'threads={th}', f'delay={r.choice([2, th, 8])}']
        sb.append((n, cf, [f'file={stream(n)}', 'timeout=30', 'ledger=1', 'all=1', PLAY, *cf]))
    for (n, cf, a), q in zip(sb, c.run_jobs([('vdec_edge', x[2] + ['fail=100000000', 'sites=1']) for x in sb])):
        if not c.judge(q, f'{n} {" ".join(cf)} without a failure'): continue
        full = [pkey(l) for l in q.lines('P')]; half = full[:len(full) // 2]
        for l in q.lines('S'):
            x = l.split()
            if x[1] != 'site': continue
            c.count('sites'); cnt = int(x[4]); ks = sorted({1, 2, (cnt + 1) // 2} | ({r.randint(1, cnt)}))
            for k in ks:
                if k > cnt: continue
                for _ in range(c.pick(2, 12)):
                    sa = [y for y in sched_args(r) if y.split('=')[0] not in ('threads', 'delay')] if r.random() < .8 else []
                    jobs.append(('vdec_edge', a + sa + [f'failsite={x[2]}', f'fail={k}'])); meta.append((n, half, f'{n} {" ".join(cf)} site {x[2]} fail={k}'))
    for q, (n, half, what) in zip(c.run_jobs(jobs), meta): judge_fault(c, q, n, half, what); sched_stats(c, q)
    for j in jobs[:2] + jobs[-2:]: c.sample(' '.join(j[1]))
    c.assumptions = ['requests made by the C library on its own behalf are not failed', 'with several threads, request k is whichever request comes k-th in that run']
