from lib.core import *
from lib import mdl, obu, hostile, av1
from checks import C23
def after(q, k):
    """everything the run reported after its k-th flush"""
    L = q.out.split('\n'); n = 0; out = []
    for l in L:
        if l == '- flush': n += 1; out = []; continue
        if n >= k and l[:2] in ('P ', 'R ', 'X ', 'E ', 'T ') or l[:2] in ('HS', 'HF'):
            x = l.split(' ')
            if x[0] == 'P': l = ' '.join(x[3:])          # without the running number and the packet being sent meanwhile
            elif x[0] == 'R': l = ' '.join(x[:3])
            out.append(l)
    return out
def check(c):
    c.build('vdec_rel', 'vdec_asan', 'vdec_edge'); r = c.rng
    c.rule = 'one decode that flushes the decoder at one or more random points of other streams (valid and damaged) and then decodes a stream from its start; everything it reports from there on was compared with a newly opened decoder of the same settings; non-trivial: data was in flight or decoded before the flush and at least one picture compared; distinct by bytes, flush points and settings'
    g = gold(); names = sorted(n for n in g if g[n]['size'] < c.pick(9000, 60000)); lay = [n for n in names if mdl.is_lay(n)]; jobs = []; meta = []
    timed = [n for n in names if any(av1.sequence(o.payload)['opi_bits'] for o in obu.parse(mdl.load(n))[:3] if o.type == obu.SEQ)]
    N = c.pick(1500, 30000); mut = hostile.mutants(c, names, N // 3, stack=True)
    def packs(d, mode):
        try: return [obu.join(p) for p in mdl.group(r, obu.parse(d), mode)]
        except (ValueError, IndexError): return [d]
    for i in range(N):
        pre = []; play = ''; al = r.choice([0, 1]); mode = lambda: r.choice(['tu', 'tu', 'obu', 'rnd', 'all'] if al else ['tu', 'tu', 'all'])
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            k = r.random(); d = mdl.load(r.choice(names)) if k < .6 else open(r.choice(mut)[0], 'rb').read() if k < .9 else b''
            p = packs(d, mode()) if d else []; p = [x for x in p if x]; n = r.randint(1, len(p)) if p else 0
            p = p[:n]
            if n and k < .6 and r.random() < .4:                               # sequence headers that only change the operating parameters, before the last units or alone at the end
                d = mdl.load(r.choice(timed)); p = packs(d, 'tu')[:r.randint(1, 3)]; s = next((o for o in obu.parse(d) if o.type == obu.SEQ), None)
                for _ in range(r.choice([1, 2])): p.insert(r.randint(1, len(p)), obu.join([C23.edit(r, s, c)]))
                n = len(p)
            if n: play += r.choice(['', '', 'L,']) + f'{len(pre)}-{len(pre) + n - 1},'
            pre += p; play += r.choice(['', '', 'G,', 'D,', 'V,', 'G,G,']) + r.choice(['F,', 'F,', 'F,F,', 'F,V,F,', 'F,D,F,']); post0 = r.choice(['', 'V,', 'X,', 'V,X,'])
        k = r.random(); bn = r.choice(lay if k < .12 and lay else names); d = mdl.load(bn)
        if r.random() < .15: d = open(r.choice(mut)[0], 'rb').read(); bn = 'mutant'
        post = [x for x in packs(d, mode()) if x]
        f = f'{c.tmp}/{i}.sz'; open(f, 'wb').write(obu.packets(pre + post))
        a = [f'file={f}', 'pk=sz:', f'op={r.choice([0, 0, r.randrange(4)])}', f'all={al}', f'invis={r.choice([0, 0, 1]) if al else 0}', f'grain={r.choice([0, 1])}', f'poll={r.choice(["each", "lazy", "cli"]) if al else "each"}', 'hdr=1', 't35=1', f'dec={r.choice([0, 0, 0, 0, 1, 2, 3])}', f'strict={r.choice([0, 0, 1])}', f'seed={i}', 'timeout=60'] + (['ledger=1'] if r.random() < .5 else []) + mdl.thr(r, .6)
        ex = r.choice(['vdec_rel'] * 8 + ['vdec_asan', 'vdec_edge'])
        if ex == 'vdec_edge': a = [x for x in a if not x.startswith(('threads', 'delay'))] + sched_args(r)
        jobs.append((ex, a + [f'play={play}K,{post0}{len(pre)}-$,D'])); jobs.append((ex, a + [f'play={post0}{len(pre)}-$,D'])); meta.append((bn, play, f))
    res = c.run_jobs(jobs)
    for i, (bn, play, f) in enumerate(meta):
        q, w = res[2 * i], res[2 * i + 1]
        if not (c.judge(q, f'{bn} after flushes') and c.judge(w, f'{bn} fresh')): continue
        a, b = after(q, play.count('F')), after(w, 0)
        if a != b:
            k = next((k for k, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
            c.violation('not like new', f'{bn} after play={play}: report {k} after the flush is "{a[k][:300] if k < len(a) else "missing"}", a new decoder gives "{b[k][:300] if k < len(b) else "nothing"}"', ' '.join(q.args) + '\n' + q.out + '\nnew decoder\n' + w.out, [f]); continue
        if any(" h=" in x for x in b): c.distinct.add(f)
        c.count('flushes', play.count('F')); c.count('reports_compared', len(b)); c.count('streams_with_errors_before', 'R ' in q.out.split('- flush')[0]); sched_stats(c, q)
    for j in jobs[:2] + jobs[-4:-2]: c.sample(' '.join(j[1]))
