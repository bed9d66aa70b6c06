from lib.core import *
from lib import mdl, obu, av1, hostile
ENOENT, EINVAL = -2, -22
def walk(b):
    """[(type, payload)] of the OBUs in b, None when the data is not a sequence of whole OBUs; only what precedes the damage is listed"""
    out = []; p = 0
    while p < len(b):
        h = b[p]; p += 1 + (h >> 2 & 1)
        if p > len(b): return out, 1
        n = len(b) - p
        if h & 2:
            v = 0
            for i in range(9):
                if i == 8 or p >= len(b): return out, 1
                x = b[p]; p += 1; v |= (x & 127) << 7 * i
                if not x & 128: break
            if v > 0xffffffff or v > len(b) - p: return out, 1
            n = v
        out.append((h >> 3 & 15, b[p:p + n])); p += n
    return out, 0
def expect(b):
    """(return code, text): what the property demands of the standalone parser"""
    o, bad = walk(b); t = None
    for ty, p in o:
        if ty != obu.SEQ: continue
        try: s = av1.sequence(p)
        except av1.Bad: return EINVAL, None
        if s['end'] + 1 > 8 * len(p): return EINVAL, None            # no room for the trailing bit
        t = av1.seq_text(s)
    if bad: return EINVAL, None
    return (0, t) if t is not None else (ENOENT, None)
def bits(b): return ''.join(f'{x:08b}' for x in b)
def unbits(s): s += '0' * (-len(s) % 8); return bytes(int(s[i:i + 8], 2) for i in range(0, len(s), 8))
def flip(r, p, n):
    p = bytearray(p)
    for _ in range(n):
        if p: p[r.randrange(len(p))] ^= 1 << r.randrange(8)
    return bytes(p)
def check(c):
    c.build('vargs_nd'); r = c.rng
    c.rule = 'one buffer given to the standalone parser (in a block of its exact size, twice, with different previous contents of the output) and, as a packet, to a fresh decoder; result code and header compared with an independent parser of the specification and with the header of the picture the decoder returns; distinct by bytes'
    g = gold(); names = sorted(n for n in g if g[n]['size'] < c.pick(6000, 60000)); pool = []
    for n in names:
        for o in obu.parse(mdl.load(n)):
            if o.type == obu.SEQ: pool.append(o.payload)
    pool = sorted(set(pool)); tus = []
    for n in r.sample(names, min(len(names), c.pick(500, 1298))):
        for t in obu.tus(obu.parse(mdl.load(n))):
            if any(o.type == obu.SEQ for o in t): tus.append(t); break
    def payload():
        k = r.random(); p = r.choice(pool)
        if k < .2: return p
        if k < .4: return flip(r, p, r.choice([1, 1, 2, 3, 6]))
        if k < .6: b = bits(p); i = r.randrange(len(b)); return unbits(b[:i] + ''.join(r.choice('01') for _ in range(r.randrange(8, 300))))
        if k < .7: return p[:r.randrange(len(p) + 1)]
        if k < .75: return p + bytes(r.randrange(256) for _ in range(r.randrange(1, 9)))
        b = ''.join(r.choice('01') for _ in range(r.choice([100, 300, 1200]))); b = r.choice(['000', '001', '010', '000', '000']) + r.choice(['00', '00', '10', '11']) + b[5:]      # fields at random
        if b[4] == '0':
            tim, ep = r.random() < .4, 0; x = '1' if tim else '0'
            if tim:
                x += ''.join(r.choice('01') for _ in range(64)); ep = r.random() < .4; x += '1' if ep else '0'
                if ep: k = r.choice([0, 1, 5, 16, 31, 32]); x += '0' * k + '1' + ''.join(r.choice('01') for _ in range(k if k < 32 else 0))
                dm = r.random() < .5; x += '1' if dm else '0'
                if dm: x += ''.join(r.choice('01') for _ in range(47))
            dd = r.choice('01'); x += dd; nop = r.choice([0, 0, 1, 2, 5, 31]); x += f'{nop:05b}'
            for _ in range(nop + 1):
                x += r.choice([f'{0:012b}', f'{r.randrange(4096) | 257:012b}', f'{r.randrange(4096):012b}' if r.random() < .05 else f'{0x101:012b}']); lvl = r.randrange(32); x += f'{lvl:05b}'
                if lvl > 7: x += r.choice('01')
                if tim and dm:
                    y = r.choice('01'); x += y
                    if y == '1': n = int(x[1 + 64 + 1 + (2 * k + 1 if ep and k < 32 else 33 if ep else 0) + 1:][:5], 2) + 1; x += ''.join(r.choice('01') for _ in range(2 * n + 1))
                if dd == '1':
                    y = r.choice('01'); x += y
                    if y == '1': x += ''.join(r.choice('01') for _ in range(4))
            b = b[:5] + x + b[5:205]
        return unbits(b)
    def seq():
        p = payload(); e = r.choice([None, None, None, r.randrange(256)]); return obu.Obu(obu.SEQ, p, e).write(lebn=r.choice([0, 0, 0, 2, 5, 8]))
    def other():
        k = r.random()
        if k < .3: return b'\x12\x00'
        if k < .8: return obu.Obu(r.choice([0, 4, 5, 6, 3, 7, 8, 9, 14, 15, 5]), bytes(r.randrange(256) for _ in range(r.choice([0, 1, 3, 20]))), r.choice([None, None, r.randrange(256)])).write(lebn=r.choice([0, 0, 3, 8]))
        return r.choice(r.choice(tus)).write()
    bufs = [(obu.join(t), 1) for t in tus]
    for _ in range(c.pick(24000, 600000)):
        k = r.random()
        if k < .35: b = seq()
        elif k < .6: b = b''.join(other() if r.random() < .5 else seq() for _ in range(r.randrange(1, 6)))
        elif k < .7: b = b''.join(other() for _ in range(r.randrange(0, 3))) + bytes([r.choice([8, 8, 8, 10, 0x0c, 0x0e, 0x88])]) + (bytes([r.randrange(256)]) if r.random() < .3 else b'') + payload()
        elif k < .8: b = seq() + b''.join(other() for _ in range(r.randrange(0, 3))); b = b[:r.randrange(1, len(b) + 1)]
        elif k < .9:
            t = list(r.choice(tus)); i = next(i for i, o in enumerate(t) if o.type == obu.SEQ); p = t[i].payload
            try: s = av1.sequence(p)
            except av1.Bad: continue
            fb = s['free_bits'] + s['opi_bits']; x = list(bits(p))
            for q, n in fb:
                for j in range(q, q + n):
                    if r.random() < .4: x[j] = r.choice('01')
            if s['timing']: x[fb[0][0]] = '1'
            t[i] = obu.Obu(obu.SEQ, unbits(''.join(x)), t[i].ext); b = obu.join(t)
        else: b = hostile.mutate(r, obu.join(r.choice(tus)), r.choice(['bitflip', 'bytes', 'trunc', 'truncobu', 'dropobu', 'dupobu', 'swapobu', 'sizeerr', 'obutype', 'insert']), None)
        if b and len(b) < 20000: bufs.append((b, 0))
    jobs = []; grp = []
    for i in range(0, len(bufs), 100):
        f = f'{c.tmp}/{i}.sz'; open(f, 'wb').write(obu.packets([b for b, _ in bufs[i:i + 100]])); jobs.append(('vargs_nd', ['job=seq', f'file={f}', f'dec={r.choice([1, 1, 2, 9])}'])); grp.append(bufs[i:i + 100])
    res = c.run_jobs(jobs)
    for q, bs, (_, a) in zip(res, grp, jobs):
        f = a[1][5:]
        if not c.judge(q, 'standalone sequence header'): continue
        Q = [l.split(' ', 3) for l in q.lines('Q')]; D = [l.split(' ', 4) for l in q.lines('D')]
        if len(Q) != len(bs) or len(D) != len(bs): c.violation('harness', f'{len(Q)} results for {len(bs)} buffers', q.out, [f]); continue
        for (b, _), x, d in zip(bs, Q, D):
            rc, t = expect(b); got = int(x[2]); gt = x[3] if len(x) > 3 else ''; hx = b[:200].hex()
            c.count({0: 'accepted', ENOENT: 'not_found'}.get(got, 'rejected')); o, bad = walk(b); ns = sum(y == obu.SEQ for y, _ in o)
            if ns > 1 and got == 0: c.count('several_headers')
            if (got == 0) != (rc == 0) or (got == ENOENT) != (rc == ENOENT): c.violation('result', f'{hx} returned {got}, should be {rc}', hx, [f]); break
            if got == 0 and gt != t: c.violation('header', f'{hx}: returned header differs from the coded one: {oracle_diff(t, gt)}', hx + '\n' + gt + '\n' + t, [f]); break
            er, np, dt = int(d[2]), int(d[3]), d[4] if len(d) > 4 else ''
            # the decoder: refuses data with an invalid header, accepts the header alone, and uses it for the picture
            if all(y in (obu.SEQ, obu.TD, obu.PADDING) for y, _ in o):
                c.count('compared_with_decoder_verdict')
                if (er == 0) != (got == 0 or got == ENOENT): c.violation('verdict', f'{hx}: the parser returns {got}, the decoder {er}', hx, [f]); break
            if np and ns == 1 and got == 0:
                c.count('compared_with_picture')
                if dt != gt: c.violation('adopted header', f'{hx}: the picture carries another header: {oracle_diff(gt, dt)}', hx + '\n' + gt + '\n' + dt, [f]); break
            c.distinct.add(b)
    for j in jobs[:3]: c.sample(' '.join(j[1]) + ' ' + bufs[0][0][:40].hex())
def oracle_diff(a, b):
    from lib.oracle import diff_text
    return diff_text(a, b)
