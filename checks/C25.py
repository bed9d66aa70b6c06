from lib.core import *
from lib import mdl, obu, av1, oracle
def per_frame(os_, m):
    """one packet per frame: everything up to and including the data that completes it"""
    out = [[]]; left = 0
    for o in os_:
        out[-1].append(o); n = len(m.frames), len(m.out); m.obu(o, 0)
        if (len(m.frames), len(m.out)) != n: out.append([])
    return [p for p in out if p]
def check(c):
    c.build('vdec_rel', 'vdec_edge'); r = c.rng
    c.rule = 'one decode with one complete frame per packet and one attempt to fetch a picture after each; non-trivial: the arrival of at least two pictures was compared with the reported frame delay; distinct by stream and settings'
    g = gold(); names = sorted(n for n in g if g[n]['size'] < c.pick(20000, 200000)); jobs = []; meta = []
    names = [n for n in names if len(list(g[n]['ref'].values())[0]) > 2]; long = [n for n in names if len(list(g[n]['ref'].values())[0]) > 8]
    for i in range(c.pick(900, 30000)):
        n = r.choice(names if r.random() < .3 else long); os_ = obu.parse(mdl.load(n)); iv = r.choice([0, 0, 1]); rep = r.choice([1, 1, 2, 3])
        m = av1.Model(invis=iv); pk = per_frame(os_ * rep, m); f, P = mdl.case(c, str(i), pk)
        lo, hi = r.choice([(0, 0), (0, 1), (0, 3), (1, 0), (1, 1), (1, 5), (2, 0), (2, 1), (2, 2), (2, 9), (3, 0), (3, 2), (4, 0), (4, 1), (4, 3), (4, 4), (5, 0), (6, 5), (8, 0), (8, 7), (9, 8), (10, 0), (16, 1), (16, 16), (17, 0), (26, 0), (37, 0), (50, 0), (r.randint(1, 20), r.randint(0, 20))])
        a = [f'file={f}', 'pk=sz:', 'poll=cli', f'threads={lo}', f'delay={hi}', 'showdelay=1', 'all=1', f'invis={iv}', f'grain={r.choice([0, 1])}', 'timeout=60']
        ex = 'vdec_rel'
        if r.random() < .25 and g[n]['size'] < 5000 and lo <= 8: ex = 'vdec_edge'; a += [f'sched={r.randrange(1, 1 << 30)}', f'smode={r.randrange(3)}', f'speriod={r.choice([100, 1000, 5000])}']
        jobs.append((ex, a)); meta.append((n, P, lo, hi, iv, f))
    for q, (n, P, lo, hi, iv, f) in zip(c.run_jobs(jobs), meta):
        what = f'{n} threads={lo} delay={hi}'
        if not c.judge(q, what): continue
        if q.lines('R'): c.violation('error', f'{what}: {q.lines("R")[0]}', q.out, [f]); continue
        d = next(int(l.split()[2]) for l in q.lines('S') if l.startswith('S delay')); c.seen('reported_delays', d)
        if not 1 <= d <= 256 or hi and d > hi or lo and d > lo: c.violation('delay value', f'{what}: the reported frame delay is {d}', q.out); continue
        m = oracle.model_run(P, invis=iv); exp = m.outputs(); lag = []
        got = [fields(l) for l in q.lines('P')]
        if len(got) != len(exp): c.violation('count', f'{what}: {len(got)} pictures of {len(exp)}', q.out, [f]); continue
        last = len(P) - 1; bad = None
        for k, (p, x) in enumerate(zip(exp, got)):
            at, need = int(x['pkt']), p['pkt'] + (d if d > 1 else 0)
            if int(x['ts']) != 1000 + 10 * p['pkt']: bad = f'picture {k} is not the one of packet {p["pkt"]}'; break
            if at > need and need <= last or d == 1 and at != p['pkt']: bad = f'picture {k} of frame {p["pkt"]} was returned after frame {at}, the reported delay is {d}'; break
            if need <= last: lag.append(at - p['pkt'])
        if bad: c.violation('late picture', f'{what}: {bad}', ' '.join(q.args) + '\n' + q.out, [f]); continue
        if len(lag) > 1: c.distinct.add((f, lo, hi)); c.count('pictures_timed', len(lag)); c.seen('observed_delays', max(lag)); sched_stats(c, q)
    layers(c, r, g)
    for j in jobs[:3] + jobs[-2:]: c.sample(' '.join(j[1]))
    c.assumptions = ['each packet carries one complete frame; one attempt to fetch a picture per packet']
def layers(c, r, g):
    """only the highest layer wanted, a delay of one: the picture of the operating point's highest layer is there at once"""
    lay = sorted(n for n in g if mdl.is_lay(n) and g[n]['size'] < c.pick(20000, 200000)); jobs = []; meta = []
    for i in range(c.pick(300, 3000)):
        n = r.choice(lay); op = r.randrange(5); f, P = mdl.case(c, f'l{i}', obu.tus(obu.parse(mdl.load(n))))
        jobs.append(('vdec_rel', [f'file={f}', 'pk=sz:', 'poll=each', 'all=0', f'op={op}', f'grain={r.choice([0, 1])}', 'timeout=60'] + r.choice([['threads=1'], ['threads=3', 'delay=1']]))); meta.append((n, op, P, f))
    for q, (n, op, P, f) in zip(c.run_jobs(jobs), meta):
        what = f'{n} op={op}, highest layer only'
        if not c.judge(q, what): continue
        if q.lines('R'): c.count('layer_runs_with_errors'); continue
        exp = oracle.model_run(P, op=op, all_layers=0).outputs(); got = [fields(l) for l in q.lines('P')]
        if len(got) != len(exp): c.violation('layer count', f'{what}: {len(got)} pictures of {len(exp)}', q.out, [f]); continue
        for k, (p, x) in enumerate(zip(exp, got)):
            if p['h']['sid'] == p['maxsid'] and int(x['pkt']) != p['pkt']: c.violation('late layer', f'{what}: picture {k}, of the highest layer in packet {p["pkt"]}, was returned after packet {x["pkt"]}', ' '.join(q.args) + '\n' + q.out, [f]); break
        else:
            if len(got) > 1: c.distinct.add((f, op)); c.count('layer_pictures_timed', len(got))
