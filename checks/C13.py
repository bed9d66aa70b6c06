from lib.core import *
from lib import mdl, obu, av1, oracle, reframe
def rb(r, n): return bytes(r.randrange(256) for _ in range(n))
def metadata(r, ext, big):
    k = r.choice([1, 1, 2, 2, 4, 4, 4, 4])
    if k == 1: p = rb(r, 4) + b'\x80'
    elif k == 2: p = rb(r, 24) + b'\x80'
    else:
        cc = r.choice([0xB5, 0xFF, 0, r.randrange(256)]); n = r.choice([1, 1, 2, 3, 8, 30, 200, 5000 if big else 40])
        body = rb(r, n)
        if r.random() < .3: body = body[:-1] + r.choice([b'\0', b'\x80', b'\x80\0', b'\0\0\0'])       # payloads that look like trailing bits
        p = bytes([cc]) + (rb(r, 1) if cc == 255 else b'') + body + b'\x80'
    if r.random() < .15: p += bytes(r.randint(1, 5))                                                      # trailing zero bytes
    return obu.Obu(obu.METADATA, obu.wleb(k, r.choice([0, 0, 2])) + p, ext)
def check(c):
    c.build('vdec_rel', 'vdec_asan'); r = c.rng
    c.rule = 'one decode of a corpus stream with metadata OBUs inserted at random places, whose pictures were compared (content light level, mastering display, every T.35 message byte by byte) with an independent model of the stream; non-trivial: at least one picture carried metadata; distinct by stream bytes'
    g = gold(); names = sorted(n for n in g if g[n]['size'] < c.pick(8000, 100000)); jobs = []; meta = []
    lay = [n for n in names if mdl.is_lay(n)]; ids = [n for n in names if not mdl.is_lay(n)]
    for i in range(c.pick(2600, 60000)):
        ly = r.random() < .15 and lay; n = r.choice(lay if ly else ids); op, al, iv = mdl.lay_args(r, bool(ly), bool(ly)); os_ = obu.parse(mdl.load(n))
        for _ in range(r.choice([0, 0, 1, 1, 2])):
            n2 = n if r.random() < .4 else r.choice(lay if ly else ids); os_ = os_ + obu.parse(mdl.load(n2))
        if not ly and r.random() < .4:
            mm = av1.Model(op=op)
            for o in os_: mm.obu(o, 0)
            os_ = reframe.rewrite(r, os_, mm.hdr_of, True, False)
        out = []; dens = r.choice([.1, .3, .7])
        for o in os_:
            if o.type != obu.TD:
                while r.random() < dens: out.append(metadata(r, r.choice([o.ext, o.ext, o.ext, None, r.randrange(3) << 5 | r.randrange(3) << 3]) if ly else None, r.random() < .05))
            out.append(o)
        while r.random() < .3: out.append(metadata(r, None, False))
        f, P = mdl.case(c, str(i), mdl.group(r, out, r.choice(['tu', 'tu', 'tus'] if not al else ['tu', 'obu', 'rnd', 'all'])))
        a = [f'file={f}', 'pk=sz:', 't35=1', f'grain={r.choice([0, 1])}', f'poll={r.choice(["each", "lazy", "cli", "rand"])}' if al else 'poll=each', 'ledger=1', f'hold={r.choice([0, 0, 2, 100])}', f'strict={r.choice([0, 0, 1])}', 'timeout=60'] + mdl.model_args(op, al, iv) + mdl.thr(r, .5)
        if r.random() < .2: a.append('fgapply=1')
        jobs.append(('vdec_asan' if r.random() < .1 and g[n]['size'] < 4000 else 'vdec_rel', a)); meta.append((n, P, op, al, iv, f))
    for q, (n, P, op, al, iv, f) in zip(c.run_jobs(jobs), meta):
        m = mdl.judge(c, q, P, op, al, iv, 'count meta', f'{n} with metadata inserted', [f])
        if m:
            k = sum(bool(p['t35']) for p in m.out); c.count('pictures_with_t35', k); c.count('t35_messages', sum(len(p['t35']) for p in m.out)); c.count('pictures_with_cll', sum(p['cll'] is not None for p in m.out)); c.count('pictures_with_mdcv', sum(p['mdcv'] is not None for p in m.out))
            if any(p['t35'] or p['cll'] or p['mdcv'] for p in m.out): c.distinct.add(f)
    for j in jobs[:3] + jobs[-3:]: c.sample(' '.join(j[1]))
