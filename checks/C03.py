from lib.core import *
def check(c):
    c.build('vdec_rel', 'vdec_edge')
    c.rule = 'one decode of a corpus stream (generated from the AV1 syntax, accepted only where libaom decoded it); non-trivial: at least one picture compared sample by sample (hash) with the libaom result; distinct by stream and grain setting'
    g = gold(); jobs = []; meta = []; r = c.rng
    for n in sorted(g):
        for k, want in g[n]['ref'].items():
            op, al, gr = k.split(',')
            jobs.append(('vdec_rel', [f'file={stream(n)}', f'op={op}', f'all={al}', f'grain={gr}', 'timeout=60'])); meta.append((n, k, want))
            if g[n]['size'] < c.pick(4000, 10 ** 6) and (c.thorough or r.random() < .35): jobs.append(('vdec_edge', jobs[-1][1])); meta.append((n, k, want))     # built without assembly
            if c.thorough:
                for cpu in (0, 1, 3, 7, 15): jobs.append(('vdec_rel', jobs[-1][1][:4] + [f'cpu={cpu}'])); meta.append((n, k, want))
    for r, (n, k, want) in zip(c.run_jobs(jobs), meta):
        what = f'stream {n} op,all,grain={k}'
        if not c.judge(r, what): continue
        bad = r.lines('R')
        if bad: c.violation(f'rejected {n}', f'{what}: conformant stream rejected: {bad[0]}', r.out, [stream(n)]); continue
        got = [pkey(l) for l in r.lines('P')]
        if got != want:
            i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
            c.violation(f'pixels {n}', f'{what}: picture {i} of {len(want)} is {got[i] if i < len(got) else "missing"}, the specification gives {want[i] if i < len(want) else "none"}', r.out + '\nwant\n' + '\n'.join(want), [stream(n)]); continue
        c.distinct.add((n, k)); c.count('pictures_compared', len(want)); c.seen('formats', ' '.join(want[0].split()[1:3]))
    for n in list(g)[:3]: c.sample(f'{n} {g[n]["cfg"]} -> {list(g[n]["ref"].values())[0][:2]}')
    c.assumptions = ['libaom 3.8.2 (authoring time) is the reference decoder; streams where it and the specification could differ (residual overflow) were not kept']
