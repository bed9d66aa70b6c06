from lib.core import *
from lib import mdl, obu, av1, reframe
def put(b, pos, n, v):
    x = int.from_bytes(b, 'big'); k = 8 * len(b) - pos - n; return (x & ~(((1 << n) - 1) << k) | v << k).to_bytes(len(b), 'big')
def content(r): return [pcontent(l).split(' ev=')[0] if ' ev=' in l else pcontent(l) for l in r.lines('P')]
def pics(q): return [(int(fields(l)['ts']), pkey(l)) for l in q.lines('P')]
def trailing_pos(o, m):
    """position of the trailing one bit of an OBU that the decoder parses to its end"""
    if o.type == obu.SEQ: return av1.sequence(o.payload)['end']
    h = m.hdr_of.get(id(o))
    if o.type == obu.FRAME_HDR and h: return h['bits']
    if o.type == obu.METADATA:
        t, p = obu.leb(o.payload, 0)
        return 8 * p + {1: 32, 2: 192}[t] if t in (1, 2) else None
def candidates(os_, m, kind, refs_at):
    """indices of OBUs the violation can be planted in"""
    out = []
    for i, o in enumerate(os_):
        h = m.hdr_of.get(id(o))
        if kind == 'forbidden bit' or kind == 'forbidden bit in padding' and i: out.append(i)
        elif kind[:8] == 'trailing':
            p = trailing_pos(o, m)
            if p is not None and p < 8 * len(o.payload): out.append(i)
        elif kind == 'intra-only refreshing all' and h and not h['se'] and h['ft'] == av1.INTRA and h['rff'] != 255 and not (h['err'] and h['s']['oh']): out.append(i)
        elif kind in ('zero time scale', 'zero tick') and o.type == obu.SEQ and av1.sequence(o.payload)['timing']: out.append(i)
        elif kind == 'zero decoding tick' and o.type == obu.SEQ and av1.sequence(o.payload)['dmi']: out.append(i)
        elif kind == 'identity matrix' and o.type == obu.SEQ: s = av1.sequence(o.payload); s['cdp'] and s['layout'] != 3 and (s['pri'], s['trc']) != (1, 13) and out.append(i)
        elif kind == 'show of a frame not to be shown' and o.type == obu.TD and i and refs_at[i][0] and any(refs_at[i][1]): out.append(i)
        elif kind == 'show of a shown key frame' and o.type == obu.TD and i and refs_at[i][0] and any(refs_at[i][2]): out.append(i)
        elif kind == 'second show of a hidden key frame' and o.type == obu.TD and i and refs_at[i][0] and any(refs_at[i][3]): out.append(i)
        elif kind == 'garbage after tile data' and (o.type in (obu.FRAME, obu.TILE_GRP)): out.append(i)
        elif kind == 'no sequence header' and o.type == obu.SEQ and i <= 2: out.append(i)
        elif kind == 'no frame header' and o.type == obu.FRAME_HDR and h and not h['se'] and i + 1 < len(os_): out.append(i)
    return out
KINDS = ['forbidden bit', 'forbidden bit', 'forbidden bit in padding', 'trailing one missing', 'trailing bit set', 'trailing byte added', 'trailing zeros', 'intra-only refreshing all', 'zero time scale', 'zero tick', 'zero decoding tick',
         'identity matrix', 'show of a frame not to be shown', 'show of a frame not to be shown', 'show of a shown key frame', 'second show of a hidden key frame', 'garbage after tile data', 'garbage after tile data', 'zeros after tile data', 'no sequence header', 'no frame header']
ALWAYS = ('no sequence header', 'no frame header'); NEVER = ('trailing zeros', 'zeros after tile data')
def check(c):
    c.build('vdec_rel', 'vdec_asan', 'vdec_edge'); r = c.rng; g = gold(); names = sorted(g)
    c.rule = 'conformant streams: one decode with a drawn combination of strictness, logger, polling, extra drains and threads compared with the plain decode (itself compared with libaom\'s result); violations: one breach of a listed requirement planted in a valid stream, decoded strictly (must be reported for its packet, earlier pictures intact) and leniently (pictures as without it); non-trivial: pictures compared, or an error reported for the right packet; distinct by stream, settings and breach'
    jobs = []; meta = []
    for n in names:
        if not small(n) and not c.thorough and r.random() < .6: continue
        gr = '1' if '0,1,1' in g[n]['ref'] else '0'; lay = mdl.is_lay(n); base = [f'file={stream(n)}', 'all=1', f'grain={gr}', 'timeout=60']
        jobs.append(('vdec_rel', base)); meta.append((n, gr, 0))
        for _ in range(c.pick(2, 8)):
            k = obu.tus(mdl.parsed(n)); play = r.choice(['0-$,D', '0-$,D', '0-$,D,D,G', 'G,0-$,D,G,D', 'each'])
            if play == 'each': play = ','.join(x for i in range(len(k)) for x in ([str(i)] + [r.choice(['G', 'D', 'V', 'GG', ''])])).replace('GG', 'G,G').replace(',,', ',').rstrip(',') + ',D'
            a = [f'strict={r.choice([1, 1, 0])}', f'log={r.choice([0, 1, 2])}', f'poll={r.choice(["cli", "each", "lazy", "rand"])}', f'play={play}', f'seed={r.randrange(1 << 20)}'] + mdl.thr(r, .5) + ([f'empties={r.choice([5, 30, 80])}'] if r.random() < .3 else [])
            if r.random() < .15: a.append(f'relthreads={r.choice([1, 2])}')
            ex = 'vdec_edge' if r.random() < .08 and small(n, 9000) else 'vdec_rel'
            if ex == 'vdec_edge': a = [x for x in a if not x.startswith(('threads', 'delay', 'relthreads'))] + sched_args(r)
            jobs.append((ex, base + a)); meta.append((n, gr, 1))
    ref = {}
    for q, (n, gr, k) in zip(c.run_jobs(jobs), meta):
        what = f'{n} {" ".join(q.args[3:])}'
        if not c.judge(q, what): continue
        if q.lines('R'): c.violation('rejected', f'{what}: conformant stream rejected: {q.lines("R")[0]}', q.out, [stream(n)]); continue
        if not k:
            if [pkey(l) for l in q.lines('P')] != g[n]['ref'][f'0,1,{gr}']: c.violation('reference', f'{n}: the plain decode is not libaom\'s', q.out, [stream(n)]); continue
            ref[n] = content(q); continue
        if n not in ref: continue
        x = content(q)
        if x != ref[n]:
            i = next((i for i, (u, v) in enumerate(zip(x, ref[n])) if u != v), min(len(x), len(ref[n])))
            c.violation('differs', f'{what}: picture {i} differs from the plain decode ({len(x)} of {len(ref[n])} pictures)', q.out + '\nplain\n' + '\n'.join(ref[n]), [stream(n)]); continue
        c.distinct.add((n, ' '.join(q.args[3:]))); c.count('conformant_runs'); c.count('pictures_compared', len(x))
    # planted breaches
    names = [n for n in names if g[n]['size'] < c.pick(9000, 60000) and not mdl.is_lay(n)]; jobs = []; meta = []; pool = {}
    for i in range(c.pick(1500, 30000)):
        kind = r.choice(KINDS); ck = {'zeros after tile data': 'garbage after tile data'}.get(kind, kind)
        for _ in range(40):
            n = r.choice(names if kind not in pool or r.random() < (.3 if kind[:6] != 'second' else .1) or len(pool[kind]) < 5 else pool[kind]); os_ = obu.parse(mdl.load(n)); m = av1.Model(); refs_at = {}
            for j, o in enumerate(os_):
                s = m.seq; ok = s and not s['reduced'] and not s['fid'] and not (s['dmi'] and not s['epi']); refs_at[j] = (ok, [x is not None and not x['skip'] and not x['showable'] and x['ft'] != av1.KEY for x in m.refs], [x is not None and not x['skip'] and x['ft'] == av1.KEY and (not x['showable'] or 'reshown' in x) for x in m.refs], [x is not None and 'reshown' in x for x in m.refs])
                m.obu(o, 0)
            cand = candidates(os_, m, ck, refs_at)
            if cand: break
        else: continue
        pool.setdefault(kind, []).append(n); k = r.choice(cand); o = os_[k]; new = list(os_); raw = {}
        h = m.hdr_of.get(id(o)); p = o.payload; gr = 0; follow = 'same'
        if kind == 'forbidden bit': raw[id(o)] = 0x80
        elif kind == 'forbidden bit in padding': x = obu.Obu(r.choice([15, 15, 9, 14]), b'\x80'); new.insert(k, x); raw[id(x)] = 0x80
        elif kind[:8] == 'trailing':
            t = trailing_pos(o, m); e = 8 * len(p)
            if kind == 'trailing one missing': p2 = put(p, t, 1, 0)
            elif kind == 'trailing zeros': p2 = p + bytes(r.choice([1, 2, 9, 40]))
            elif kind == 'trailing bit set' and e - t > 1: p2 = put(p, r.randrange(t + 1, e), 1, 1)
            else: p2 = p + bytes(r.choice([0, 0, 1, 7, 30])) + bytes([r.choice([1, 128, 255])]) + bytes(r.choice([0, 0, 3]))
            new[k] = obu.Obu(o.type, p2, o.ext)
        elif kind == 'intra-only refreshing all': new[k] = obu.Obu(o.type, put(p, h['rffp'], 8, 255), o.ext); follow = 'prefix'
        elif kind in ('zero time scale', 'zero tick', 'zero decoding tick', 'identity matrix'):
            follow = 'same'
            for j, x in enumerate(new):                              # in every copy of the header: a change would start a new sequence
                if x.type != obu.SEQ: continue
                s = av1.sequence(x.payload)
                if kind[:4] == 'zero' and not (s['dmi'] if 'dec' in kind else s['timing']) or kind[:4] == 'iden' and not (s['cdp'] and s['layout'] != 3 and (s['pri'], s['trc']) != (1, 13)): follow = None; break
                pos, w = {'zero tick': (s.get('nuit_pos'), 32), 'zero time scale': (s.get('nuit_pos', 0) + 32, 32), 'zero decoding tick': (s.get('nuidt_pos'), 32), 'identity matrix': (s['mtrx_pos'], 8)}[kind]
                new[j] = obu.Obu(x.type, put(x.payload, pos, w, 0), x.ext)
            if not follow: continue
            k = next(j for j, x in enumerate(new) if x.type == obu.SEQ)
        elif kind[:4] == 'show' or kind[:6] == 'second':
            li = 2 if 'shown key' in kind else 3 if 'second' in kind else 1; sl = r.choice([j for j in range(8) if refs_at[k][li][j]]); new.insert(k, obu.Obu(obu.FRAME_HDR, bytes([0x80 | sl << 4 | 8]))); follow = 'extra' if li == 1 else 'prefix'; h = None
        elif kind == 'garbage after tile data': new[k] = obu.Obu(o.type, p + r.choice([b'\x01', b'\x80', b'\xff\x00', b'\x00\x00\x80', bytes(9) + b'\x10']), o.ext); follow = 'prefix'
        elif kind == 'zeros after tile data': new[k] = obu.Obu(o.type, p + bytes(r.choice([1, 2, 3, 8, 30])), o.ext)
        elif kind == 'no sequence header': new = [x for x in os_ if x.type != obu.SEQ]; follow = 'none'
        elif kind == 'no frame header': del new[k]; follow = 'prefix'
        show = kind[:4] == 'show' or kind[:6] == 'second'; mode = r.choice(['tu', 'tu', 'obu', 'rnd']) if not show else 'tu'
        def write(l): return b''.join(bytes([w[0] | raw.get(id(x), 0)]) + w[1:] for x in l for w in [x.write()])
        P0 = mdl.group(r, os_, mode if mode != 'rnd' else 'tu'); P1 = mdl.group(r, new, mode)
        if mode == 'rnd': P0 = obu.tus(os_)
        f0, f1 = mdl.case(c, f'b{i}a', P0)[0], mdl.case(c, f'b{i}b', P1, write)[0]
        bad = [x for x in new if not any(x is y for y in os_)]
        if raw: bad = [x for x in new if id(x) in raw]
        if kind == 'no frame header': bad = [new[k]]                  # what follows cannot be interpreted
        if kind == 'no sequence header': bad = [x for x in new if x.type in (obu.FRAME, obu.FRAME_HDR)]
        pk = next(j for j, l in enumerate(P1) if any(x is y for x in l for y in bad[:1]))
        th = mdl.thr(r, .4); a = ['pk=sz:', 'all=1', 'grain=0', f'poll={r.choice(["cli", "each", "lazy"])}', 'timeout=60'] + th
        # pictures expected from packets before the breach: frames completed by OBUs that precede it
        mm = av1.Model()
        try:
            for x in new:
                if any(x is y for y in bad[:1]): break
                mm.obu(x, 0)
        except Exception: continue
        ex = r.choice(['vdec_rel'] * 7 + ['vdec_asan'])
        jobs += [('vdec_rel', [f'file={f0}', 'pk=sz:', 'all=1', 'grain=0', 'strict=1', 'timeout=60']), (ex, [f'file={f1}', 'strict=1'] + a), (ex, [f'file={f1}', 'strict=0'] + a)]
        meta.append((n, kind, follow, pk, len(mm.out), f1, bool(th), mode))
    res = c.run_jobs(jobs)
    for i in range(0, len(res), 3):
        n, kind, follow, pk, before, f1, mt, mode = meta[i // 3]; q0, qs, ql = res[i:i + 3]; what = f'{kind} in {n} ({mode}{" threads" if mt else ""})'
        if not all(c.judge(q, what) for q in (q0, qs, ql)): continue
        if q0.lines('R'): c.violation('rejected', f'{what}: the stream without the breach is rejected', q0.out, [q0.args[0][5:]]); continue
        k0, ks, kl = ([k for _, k in pics(q)] for q in (q0, qs, ql)); d = ' '.join(qs.args) + '\nwithout the breach\n' + q0.out + '\nstrict\n' + qs.out + '\nlenient\n' + ql.out; files = [f1, q0.args[0][5:]]
        if kind in NEVER:
            if ks != k0 or kl != k0 or qs.lines('R') or ql.lines('R'): c.violation(f'{kind} matter', f'{what}: what is allowed was rejected or changed the pictures', d, files)
            else: c.count('allowed_padding_accepted'); c.distinct.add(f1)
            continue
        # strict: reported for the packet, nothing before it affected
        if not qs.lines('R'): c.violation(f'accepted {kind}', f'{what}: not rejected with strict compliance', d, files); continue
        if kind not in ('garbage after tile data',) and qs.lines('X')[0].split()[1] != f'ts={1000 + 10 * pk}': c.violation(f'wrong packet {kind}', f'{what}: the error was reported for {qs.lines("X")[0]}, the breach is in packet {pk}', d, files); continue
        if ks[:before] != k0[:before]: c.violation(f'earlier pictures {kind}', f'{what}: pictures that precede the breach changed or are missing with strict compliance', d, files); continue
        if kind == 'no sequence header' and (ks or kl or not ql.lines('R')): c.violation('picture without a sequence header', f'{what}: {len(ks)} and {len(kl)} pictures came out', d, files); continue
        if (kind[:4] == 'show' or kind[:6] == 'second') and ks != k0: c.violation('show strict', f'{what}: a rejected request to show changed other pictures', d, files); continue
        # lenient
        if kl[:before] != k0[:before]: c.violation(f'earlier pictures lenient {kind}', f'{what}: pictures that precede the breach changed or are missing', d, files); continue
        if follow == 'same' and (kl != k0 or ql.lines('R')): c.violation(f'lenient {kind}', f'{what}: without strict compliance the pictures are not those of the undamaged stream: {ql.lines("R")[:1]}', d, files); continue
        if follow == 'extra' and (len(kl) != len(k0) + 1 or kl[:before] + kl[before + 1:] != k0 or ql.lines('R')): c.violation(f'lenient {kind}', f'{what}: without strict compliance other pictures than the repeated one changed', d, files); continue
        if kind in ALWAYS and not ql.lines('R'): c.violation(f'accepted {kind}', f'{what}: accepted', d, files); continue
        c.distinct.add(f1); c.count('breaches_rejected'); c.count('rejected: ' + kind); c.count('lenient_pictures', len(kl))
    for x in jobs[:4] + jobs[-4:]: c.sample(' '.join(x[1]))
