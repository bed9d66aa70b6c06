from lib.core import *
from lib import mdl, obu, hostile, av1
KINDS = ['bitflip', 'bytes', 'hdrflip', 'hdrflip', 'trunc', 'truncobu', 'dropobu', 'dupobu', 'swapobu', 'tilerand', 'sizeerr', 'zero', 'insert', 'obutype', 'drop', 'drop', 'seqmix', 'foreign']
def key(l): x = l.split(' '); i = next(k for k, t in enumerate(x) if t.startswith('cll=')); return ' '.join(x[4:i])     # samples, size, properties, headers
def check(c):
    c.build('vdec_rel', 'vdec_asan', 'vdec_edge'); r = c.rng
    c.rule = 'one decode of valid packets, then damaged or lost packets, then a stream starting with a sequence header and a key frame; pictures of packets before the damage and after the restart were compared with the undamaged decode, and packets reported as failing must not yield a picture; non-trivial: pictures on either side compared and the damage changed something; distinct by bytes and settings'
    g = gold(); names = sorted(n for n in g if g[n]['size'] < c.pick(9000, 60000) and not mdl.is_lay(n)); jobs = []; meta = []
    start = []                                                     # streams whose first temporal unit shows a key frame (and so resets every reference)
    for n in names:
        m = av1.Model(); t = obu.tus(obu.parse(mdl.load(n)))[0]
        for o in t: m.obu(o, 0)
        if m.frames and m.frames[0]['h']['ft'] == av1.KEY and m.frames[0]['shown']: start.append(n)
    for i in range(c.pick(2200, 50000)):
        A = r.choice(names); B = A if r.random() < .35 else r.choice(start)
        if B not in start: continue
        pa = [obu.join(t) for t in obu.tus(obu.parse(mdl.load(A)))]
        if r.random() < .3: A2 = r.choice(names); pa += [obu.join(t) for t in obu.tus(obu.parse(mdl.load(A2)))]
        pb = [obu.join(t) for t in obu.tus(obu.parse(mdl.load(B)))]
        d0 = r.randrange(len(pa)); dam = list(pa); kinds = []
        for k in sorted({d0} | {r.randrange(d0, len(pa)) for _ in range(r.choice([0, 0, 1, 2, 5]))}):
            kd = r.choice(KINDS); kinds.append(kd)
            if kd == 'drop': dam[k] = b'\x12\x00'                   # a lone temporal delimiter stands for the lost packet
            elif kd == 'foreign': x = obu.tus(obu.parse(mdl.load(r.choice(names)))); dam[k] = obu.join(r.choice(x))
            else: dam[k] = hostile.mutate(r, pa[k], kd, mdl.load(r.choice(names))) or b'\x12\x00'
        if dam == pa: continue
        f, f0 = f'{c.tmp}/{i}.sz', f'{c.tmp}/{i}.ok.sz'; open(f, 'wb').write(obu.packets(dam + pb))
        # the undamaged run has packets of the same lengths so that all properties agree
        open(f0, 'wb').write(obu.packets(pa + pb))
        a = ['pk=sz:', 'all=1', f'op={r.choice([0, 0, 0, 1, 2, 31])}', f'invis={r.choice([0, 0, 1])}', f'grain={r.choice([0, 1])}', f'poll={r.choice(["each", "lazy", "cli", "rand"])}', f'strict={r.choice([0, 0, 1])}', 'timeout=60'] + mdl.thr(r, .6)
        ex = r.choice(['vdec_rel'] * 8 + ['vdec_asan', 'vdec_edge'])
        if ex == 'vdec_edge': a = [x for x in a if not x.startswith(('threads', 'delay'))] + sched_args(r)
        jobs += [(ex, [f'file={f}'] + a), ('vdec_rel', [f'file={f0}'] + [x for x in a if not x.startswith(('threads', 'delay', 'sched', 'smode', 'speriod', 'spurious'))] + (['cpu=0'] if ex == 'vdec_edge' else []))]; meta.append((A, B, d0, len(pa), kinds, f, f0, dam + pb, pa + pb))
    res = c.run_jobs(jobs)
    def offs(pk):
        o = 0; t = []
        for p in pk: t.append(o + 4); o += 4 + len(p)
        return t
    for i, (A, B, d0, n, kinds, f, f0, dp, gp) in enumerate(meta):
        q, w = res[2 * i], res[2 * i + 1]; what = f'{A} damaged from packet {d0} ({"+".join(kinds)}), then {B}'
        if not (c.judge(q, what) and c.judge(w, what)): continue
        if w.lines('R'): c.count('undamaged_reports_error'); continue
        od, og = offs(dp), offs(gp)
        def split(res, off):
            a, b = [], []
            for l in res.lines('P'):
                k = (int(fields(l)['ts']) - 1000) // 10; t = key(l).replace(f' off={100000 + off[k]} ', ' ')
                if k < d0: a.append(t)
                elif k >= n: b.append(t)
            return a, b
        (a1, b1), (a0, b0) = split(q, od), split(w, og)
        for nm, x, y in (('before the damage', a1, a0), ('after the restart', b1, b0)):
            if x != y:
                k = next((k for k, (s, t) in enumerate(zip(x, y)) if s != t), min(len(x), len(y)))
                c.violation(f'pictures {nm}', f'{what}: picture {k} {nm} is "{x[k] if k < len(x) else "missing"}", without damage "{y[k] if k < len(y) else "none"}"', ' '.join(q.args) + '\n' + q.out + '\nundamaged\n' + w.out, [f, f0]); break
        else:
            # a packet with a single frame that is reported as failing must not also yield a picture
            bad = {l.split()[1] for l in q.lines('X')}; c.count('error_returns', len(q.lines('R'))); c.count('pictures_before', len(a0)); c.count('pictures_after', len(b0))
            pk = {}
            for l in q.lines('P'): pk.setdefault('ts=' + fields(l)['ts'], []).append(l)
            for t in bad & set(pk):
                k = (int(t[3:]) - 1000) // 10
                try: ty = [o.type for o in obu.parse(dp[k])]
                except (ValueError, IndexError): continue
                if ty.count(obu.FRAME) == 1 and ty[-1] == obu.FRAME and set(ty) <= {obu.TD, obu.SEQ, obu.FRAME}: c.violation('failed frame returned', f'{what}: packet {k} holds one frame, which was reported as failing and returned', ' '.join(q.args) + '\n' + q.out, [f]); break
            if q.lines('P') != w.lines('P') and (a0 or b0): c.distinct.add(f)
            sched_stats(c, q)
    for j in jobs[:2] + jobs[-4:-2]: c.sample(' '.join(j[1]))
    tilegroups(c, g)
def tilegroups(c, g):
    """a frame of which a tile group is missing, repeated, out of order or has a wrong range is reported and never returned"""
    r = c.rng; cand = []
    for n in sorted(n for n in g if g[n]['size'] < c.pick(20000, 100000) and not mdl.is_lay(n)):
        m = av1.Model(); os_ = mdl.parsed(n); fr = {}
        for i, o in enumerate(os_):
            f = m.fh; m.obu(o, i)
            if o.type == obu.FRAME: h = m.hdr_of[id(o)]; fr.setdefault(id(h), (h, []))[1].append(i)
            elif o.type == obu.TILE_GRP: fr.setdefault(id(f), (f, []))[1].append(i)
        x = [v for v in fr.values() if len(v[1]) > 1 and v[0]['show']]
        if x: cand.append((n, os_, x))
    jobs = []; meta = []
    for i in range(c.pick(500, 8000)):
        n, os_, x = r.choice(cand); h, ix = r.choice(x); O = list(os_); T = [k for k in ix if os_[k].type == obu.TILE_GRP]
        what = r.choice(['repeated', 'missing', 'swapped', 'range', 'range'])
        if what == 'repeated':
            T = [k for k in T if k != ix[-1]]
            if not T: continue
            k = r.choice(T); O.insert(k, O[k]); bad = set(range(ix[0], ix[-1] + 2))
        elif what == 'missing': k = r.choice(ix); O[k] = obu.Obu(15, b'\x80'); bad = set(range(ix[0], ix[-1] + 1))
        elif what == 'swapped':
            if len(T) < 2: continue
            k = r.randrange(len(T) - 1); a, b = T[k], T[k + 1]; O[a], O[b] = O[b], O[a]; bad = set(range(ix[0], ix[-1] + 1))
        else:       # one more group before one of the others, with a range that does not fit there
            k = r.choice(T); b = av1.Bits(os_[k].payload); nb = h['lc'] + h['lr']; nt = h['ntiles']
            if not b.f(1): continue
            s0 = b.f(nb); a, z = r.randrange(1 << nb), r.randrange(1 << nb)
            if r.random() < .5: a = s0; z = r.randrange(s0) if s0 else 0
            if not s0 or a == s0 and z >= a: continue        # (before the first group it is reported, but does no harm)
            v = (1 << 2 * nb | a << nb | z) << (-(1 + 2 * nb) % 8); O.insert(k, obu.Obu(obu.TILE_GRP, v.to_bytes((1 + 2 * nb + 7) // 8, 'big') + bytes(r.randrange(256) for _ in range(r.randint(1, 40))), os_[k].ext)); bad = set(range(ix[0], ix[-1] + 2))
        f = f'{c.tmp}/tg{i}.sz'; open(f, 'wb').write(obu.packets([o.write() for o in O]))
        jobs.append((r.choice(['vdec_rel'] * 4 + ['vdec_asan']), [f'file={f}', 'pk=sz:', 'all=1', f'strict={r.choice([0, 1])}', f'poll={r.choice(["each", "lazy", "cli", "rand"])}', 'timeout=60'] + mdl.thr(r, .4))); meta.append((n, what, bad, f, ix))
    for q, (n, what, bad, f, ix) in zip(c.run_jobs(jobs), meta):
        w = f'{n}: a tile group {what} (packets {min(bad)} to {max(bad)})'
        if not c.judge(q, w): continue
        pk = [(int(fields(l)['ts']) - 1000) // 10 for l in q.lines('P')]; er = [(int(fields(l)['ts']) - 1000) // 10 for l in q.lines('X')]
        if bad & set(pk): c.violation('incomplete frame returned', f'{w}: the frame was returned all the same', ' '.join(q.args) + '\n' + q.out, [f]); continue
        if what != 'missing' and not q.lines('R'): c.violation('tile group error not reported', f'{w}: no call reported an error', ' '.join(q.args) + '\n' + q.out, [f]); continue
        c.distinct.add(f); c.count('broken_tile_groups')
