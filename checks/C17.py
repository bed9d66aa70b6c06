from lib.core import *
from lib import mdl, obu, av1
def strip(l): x = l.split(' '); return ' '.join(x[4:])
def check(c):
    c.build('vdec_rel', 'vdec_asan', 'vdec_edge'); r = c.rng
    c.rule = 'one stream decoded with film grain applied by the decoder and again without, with the public grain call on every returned picture; both compared picture by picture under several thread counts and CPU masks, and the source pictures compared with the grainless decode; non-trivial: at least one picture whose samples grain changed; distinct by stream'
    g = gold(); names = sorted(n for n in g if g[n]['size'] < c.pick(60000, 1 << 30) and any(o.type == obu.SEQ and av1.sequence(o.payload)['fg'] for o in obu.parse(mdl.load(n))[:4]))
    plain = sorted(set(g) - set(names)); src = [(n, stream(n)) for n in names] + [(n, stream(n)) for n in r.sample(plain, 40)]
    from lib import hostile
    src += [(f'generated {cf}', f) for f, cf in hostile.generate(c, c.pick(250, 6000), fg=90)]
    jobs = []; meta = []
    for n, f in src:
        lay = n.startswith('lay/'); base = [f'file={f}', 'all=1', f'invis={r.choice([0, 0, 1])}', 't35=1', 'timeout=60']; v = []
        inv = base[2] == 'invis=1' or n.startswith('generated'); cpu0 = r.choice([0, 1, 3, 7, 15, 31])   # hidden frames that are never shown and generated streams may hold residuals whose result the specification leaves open
        v.append(('vdec_rel', base + ['grain=1', f'cpu={cpu0}'])); v.append(('vdec_rel', base + ['grain=0', 'fgapply=1', f'cpu={cpu0}']))
        for _ in range(c.pick(3, 10)):
            ex = r.choice(['vdec_rel'] * 5 + (['vdec_asan'] if inv else ['vdec_asan', 'vdec_edge']))
            t = sched_args(r) if ex == 'vdec_edge' else mdl.thr(r, .7)
            v.append((ex, base + [f'grain={r.choice([0, 1])}', 'fgapply=1', f'cpu={cpu0 if inv else r.choice([0, 1, 3, 7, 15, 31])}', f'alloc={r.choice(["def", "pad", "guard", "neg"])}', f'hold={r.choice([0, 0, 4])}'] + t))
        meta.append((n, f, len(jobs), len(v))); jobs += v
    res = c.run_jobs(jobs)
    for n, f, k, m in meta:
        R = res[k:k + m]; what = f'stream {n}'
        if not all([c.judge(q, f'{what} {" ".join(q.args[4:])}') for q in R]): continue
        if any(q.lines('R') for q in R): c.count('streams_with_errors'); continue
        on, off = R[0], R[1]; P1, P0 = [strip(l) for l in on.lines('P')], [strip(l) for l in off.lines('P')]; bad = None
        for q in R[1:]:
            P, G = [strip(l) for l in q.lines('P')], [l.split(' ', 1)[1] for l in q.lines('G')]; w = ' '.join(q.args[5:])
            gr = 'grain=1' in q.args; ref = P1 if gr else P0
            for i in range(max(len(P), len(ref))):
                if i >= len(P) or i >= len(ref) or P[i] != ref[i]: bad = (w, f'picture {i} is "{P[i] if i < len(P) else "missing"}", the first run gave "{ref[i] if i < len(ref) else "none"}"'); break
            if bad: break
            if not gr:
                # the standalone application gives what the decoder gives, except for running data of the call (none)
                for i, x in enumerate(P1):
                    y = G[i] if i < len(G) else 'missing'
                    if x != y: bad = (w, f'picture {i}: applying grain to the returned picture gives "{y}", the decoder with grain gives "{x}"'); break
            if bad: break
            c.count('pictures_compared', len(P)); sched_stats(c, q)
        if bad: c.violation(f'grain {n if not n.startswith("gen") else "generated"}', f'{what} {bad[0]}: {bad[1]}', '\n'.join(' '.join(q.args) + '\n' + q.out for q in R[:3]), [f]); continue
        ch = sum(x != y for x, y in zip(P1, P0)); c.count('pictures_changed_by_grain', ch)
        if ch: c.distinct.add(f)
    for j in jobs[:4]: c.sample(' '.join(j[1]))
