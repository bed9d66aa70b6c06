from lib.core import *
from lib import mdl, obu, av1, hostile
ERANGE, EINVAL = -34, -22
def resize(r, ob):
    """declare other maximum dimensions in every sequence header"""
    w, h = r.choice([(65536, 65536), (65536, 65536), (65535, 65535), (65536, 32768), (1, 65536), (65536, 1), (46341, 46341), (65536, 49152), (r.randint(1, 65536), r.randint(1, 65536)), (r.randint(1, 300), r.randint(1, 300))]); out = []
    for o in ob:
        if o.type == obu.SEQ:
            s = av1.sequence(o.payload); b = ''.join(f'{x:08b}' for x in o.payload); p = s['size_pos']
            b = b[:p] + f'{15:04b}{15:04b}{w - 1:016b}{h - 1:016b}' + b[p + 8 + s['wb'] + s['hb']:s['end']] + '1'; b += '0' * (-len(b) % 8)
            o = obu.Obu(o.type, bytes(int(b[i:i + 8], 2) for i in range(0, len(b), 8)), o.ext)
        out.append(o)
    return out
def verdicts(ob, L):
    """{index: error} of the OBUs a decoder with limit L rejects for their size; None: a picture above any sensible size is let through"""
    m = av1.Model(limit=L); bad = {}; lost = False; sizes = []; unsure = set()
    for i, o in enumerate(ob):
        if o.type == obu.TILE_GRP and lost: bad[i] = EINVAL; continue
        if o.type in (obu.FRAME, obu.FRAME_HDR): lost = False
        try: m.obu(o, i)
        except av1.TooBig as e: h = e.args[0]; bad[i] = ERANGE; unsure |= {i} if h['ft'] in (av1.INTER, av1.SWITCH) and (any(m.refs[x] is None for x in h['ref']) or h['s']['fid']) else set(); m.fh = None; sizes.append(e.args[0]['uw'] * e.args[0]['h']); lost = o.type != obu.FRAME; continue
        except (av1.Bad, IndexError, KeyError, TypeError, ValueError): unsure.add(i); m.fh = None; continue
        h = m.hdr_of.get(id(o))
        if h and not h['se']: sizes.append(h['uw'] * h['h'])
    return bad, sizes, unsure
def content(l): return ' '.join(l.split(' ')[4:])
def check(c):
    c.build('vdec_rel', 'vdec_asan', 'vdec_edge'); r = c.rng
    c.rule = 'one decode with a frame size limit, compared with a decode without limit of the same OBUs in which the frames above the limit (by an independent header parser) are replaced with padding; error codes, error properties, pictures requested from the allocator and the largest request are checked; non-trivial: some frame is above the limit or exactly at it; distinct by stream and limit'
    g = gold(); src = [(n, mdl.load(n)) for n in r.sample(sorted(n for n in g if g[n]['size'] < c.pick(9000, 80000)), c.pick(350, 1200))]
    for f, cf in hostile.generate(c, c.pick(250, 4000), 'z', sizechg=60, superres=1, frames=5) + hostile.generate(c, c.pick(150, 2000), 'b', bigchg=60, tg=80, tiles=60, frames=5) + hostile.generate(c, c.pick(60, 500), 'l', slayers=2, w=64, h=48):
        src.append((f'generated {cf}', open(f, 'rb').read()))
    jobs = []; meta = []
    for k, (n, d) in enumerate(src):
        try: ob = obu.parse(d)
        except ValueError: continue
        for v in range(c.pick(3, 8)):
            o = ob
            if r.random() < .3:
                try: o = resize(r, ob)
                except (av1.Bad, IndexError): continue
            _, sizes, _ = verdicts(o, 0)
            if not sizes: continue
            a = r.choice(sizes); L = r.choice([a, a, a - 1, a - 1, a + 1, max(sizes), max(sizes) - 1, max(1, a // 2), r.randint(1, 2 * a), 1, 0xffffffff, 0x7fffffff, 0x80000000])
            if not 1 <= L <= 0xffffffff: L = r.choice([0xffffffff, 0x80000000, 1])
            bad, sizes, unsure = verdicts(o, L)
            if any(x <= L and x > 4_000_000 for x in sizes): L = 3_000_000; bad, sizes, unsure = verdicts(o, L)
            if o is not ob: unsure |= set(bad)                            # the rest of these headers no longer fits and may be refused for that
            big = max(sizes) > 4_000_000                              # never decode those without a limit
            f, f0 = f'{c.tmp}/{k}.{v}.sz', f'{c.tmp}/{k}.{v}.ok.sz'
            pk = [x.write() for x in o]; po = [pad(len(pk[i])) if i in bad else pk[i] for i in range(len(pk))]
            open(f, 'wb').write(obu.packets(pk)); open(f0, 'wb').write(obu.packets(po))
            ex = r.choice(['vdec_rel'] * 6 + ['vdec_asan', 'vdec_edge']); t = mdl.thr(r, .5) if ex == 'vdec_rel' else sched_args(r) if ex == 'vdec_edge' else []
            b = ['pk=sz:', 'all=1', f'invis={r.choice([0, 1])}', f'grain={r.choice([0, 1])}', 'tracealloc=1', f'alloc={r.choice(["guard", "pad", "neg"])}', 'ledger=1', 'timeout=60']
            jobs += [(ex, [f'file={f}', f'limit={L}'] + b + t), (ex if ex == 'vdec_rel' else 'vdec_rel' if ex == 'vdec_asan' else ex, [f'file={f0}', f'limit={2 * 10 ** 8 if unsure or big else 0}'] + b + ([] if ex == 'vdec_asan' else t))]; meta.append((n, L, bad, sizes, unsure, f, f0))
    res = c.run_jobs(jobs)
    for i, (n, L, bad, sizes, unsure, f, f0) in enumerate(meta):
        q, w = res[2 * i], res[2 * i + 1]; what = f'{n} limit {L}'
        if not (c.judge(q, what) and c.judge(w, what)): continue
        rep = lambda key, msg: c.violation(key, f'{what}: {msg}', ' '.join(q.args) + '\n' + q.out + '\nwithout the oversized frames\n' + w.out, [f, f0])
        R = {}; err = {}
        last = None
        for l in q.lines('RX'):
            x = l.split()
            if x[0] == 'R' and x[1] == 'send': last = int(x[3][4:]); R.setdefault(last, int(x[2]))
            elif x[0] == 'R': last = None
            elif last is not None: err.setdefault(last, fields(l)); last = None
        first = min((k for k in R if k not in bad), default=1 << 30)        # from the first frame that fails otherwise the references may differ from the parser's
        k = next((k for k in bad if R.get(k) != bad[k] and not ((k in unsure or k > first) and R.get(k) == EINVAL)), None)
        if k is not None: rep('not rejected', f'packet {k} belongs to a frame above the limit and returned {R.get(k, 0)}, should be {bad[k]}'); continue
        k = next((k for k in R if R[k] == ERANGE and k not in bad and k not in unsure), None)
        if k is not None: rep('wrongly rejected', f'packet {k} holds no frame above the limit and is rejected for its size'); continue
        k = next((k for k in bad if k in err and err[k]['ts'] != str(1000 + 10 * k)), None)
        if k is not None: rep('error properties', f'the rejection of packet {k} reports the properties of ts={err[k]["ts"]}, packet {k} has ts={1000 + 10 * k}'); continue
        a, b = [content(l) for l in q.lines('P')], [content(l) for l in w.lines('P')]
        if a != b:
            k = next((k for k, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b))); rep('pictures', f'picture {k} is "{a[k] if k < len(a) else "missing"}", without the oversized frames "{b[k] if k < len(b) else "none"}"'); continue
        A = [l for l in q.lines('A')]; x = next((l for l in A if eval(l.split()[2].replace('x', '*')) > L), None)
        if x: rep('allocated', f'a picture above the limit is requested from the allocator: {x}'); continue
        mx = [int(re.search(r'maxreq (\d+)', y.out).group(1)) for y in (q, w)]
        if mx[0] > max(mx[1], 1 << 16) * (4 if any(t.startswith('threads') for t in q.args) else 1): rep('large allocation', f'largest memory request is {mx[0]} bytes, {mx[1]} without the oversized frames'); continue
        c.count('oversized_frames', sum(v == ERANGE for v in bad.values())); c.count('pictures_compared', len(a)); c.count('frames_exactly_at_the_limit', sum(x == L for x in sizes)); c.count('picture_allocations', len(A)); sched_stats(c, q)
        if bad or L in sizes: c.distinct.add(f)
    for j in jobs[:4]: c.sample(' '.join(j[1]))
def pad(n):
    """a padding OBU of n bytes in all"""
    if n == 1: return bytes([obu.PADDING << 3])
    k = next(k for k in range(1, 6) if n - 1 - k < 1 << 7 * k)
    return bytes([obu.PADDING << 3 | 2]) + obu.wleb(n - 1 - k, k) + bytes(n - 1 - k)
