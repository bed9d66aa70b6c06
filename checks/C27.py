from lib.core import *
from lib import mdl, obu, cli, av1
MUX = {'ivf': 'ivf', 'annexb': 'annexb', 'section5': 'section5'}
def check(c):
    c.build('vcli_rel', 'vcli_asan', 'vcli_msan'); r = c.rng; g = gold()
    c.rule = 'one run of the command-line tool over a stream stored in one container (sizes written with different LEB128 lengths, OBUs with and without size fields, frame units split or not, any rate and timestamps), detected or forced; packets given to the library, pictures, header of the y4m output and progress lines compared with the stream; distinct by container bytes and options'
    names = sorted(n for n in g if g[n]['size'] < c.pick(6000, 60000) and '0,1,0' in g[n]['ref']); runs = []
    exe = lambda: 'vcli_rel' if r.random() < .8 else r.choice(['vcli_asan', 'vcli_msan'])
    inc = [1]
    def forms(n, T):
        k = len(T); out = []
        mode = r.choice(['inc', 'gap', 'off', 'same', 'back', 'huge', 'dup', 'dip'])
        ts = {'inc': list(range(k)), 'gap': [i * i * 7 + i for i in range(k)], 'off': [10 ** 9 + 3 * i for i in range(k)], 'same': [5] * k, 'back': [100 - i for i in range(k)], 'huge': [(1 << 62) + 11 * i for i in range(k)], 'dup': (lambda j: [10 + 10 * i - 10 * (i > j) for i in range(k)])(r.randrange(k)), 'dip': (lambda j: [10 + 10 * i - 15 * (i > j) for i in range(k)])(r.randrange(k))}[mode]
        inc[0] = all(y > x for x, y in zip(ts, ts[1:])); even = lambda i, t: (t if t < 1 << 63 else t - (1 << 64)) if inc[0] else i * (ln // k)         # evenly spaced ones replace those that do not increase
        tb = r.choice([(25, 1), (30000, 1001), (1, 1), (60, 1), (90000, 3003), (0xffffffff, 1), (1, 0xffffffff), (0xfffffffb, 0xffffffef), (1000, 0), (0, 1), (24000, 1001)]); ln = r.choice([k, k, k, 1, 2 * k, 0, 1000, 0xffffffff])
        b, info = cli.ivf(T, ts, tb, ln, w=r.randrange(65536), h=r.randrange(65536)); out.append(('ivf', b, [(len(p), cli.vhash(p), even(i, t), o) for i, (o, t, p) in enumerate(info)], cli.ivf_rate(tb, k, ln)))
        sp = r.random() < .7; b, info = cli.annexb(T, r, split=sp, sized=r.choice([None, None, True, False]), lebn=r.random() < .4); out.append(('annexb', b, [(len(p), cli.vhash(p), None, None) for p in info], (25, 1)))
        if r.random() < .3: T = [[obu.Obu(o.type, o.payload, o.ext) for o in t] for t in T]
        b, info = cli.section5(T); out.append(('section5', b, [(len(p), cli.vhash(p), None, None) for p in info], (25, 1)))
        return out
    def name(ct): return r.choice({'ivf': ['x.ivf', 'x.obu', 'x'], 'annexb': ['x.obu', 'x.ivf', 'noext'], 'section5': ['x.obu', 'x.annexb', 'y.mkv']}[ct])
    for n in r.sample(names, min(len(names), c.pick(330, 5000))):
        T = obu.tus(mdl.parsed(n)); big = 0
        for _ in range(r.choice([0] * 6 + [1, 1, 2])):                           # large units (any size the containers can state)
            t = r.choice(T); z = [i for i, o in enumerate(t) if o.type in (obu.FRAME, obu.FRAME_HDR)]; big = 1
            t.insert(r.randint(max(z) + 1, len(t)) if z and t[max(z)].type == obu.FRAME and r.random() < .7 else 1 if t is not T[0] else len(t), obu.Obu(obu.PADDING, bytes([r.randrange(1, 256)]) * r.choice([127, 128, 16383, 16384, 32767, 32768, 40000, 65535, 65536, 70000, 300000, 1 << 21, 3 << 20])))
        gr = '1' if '0,1,1' in g[n]['ref'] and r.random() < .5 else '0'
        if not T or T[0][0].type != obu.TD: continue
        for ct, b, pk, rate in forms(n, T):
            f = name(ct); forced = r.random() < .4; a = ['-i', f, '-o', 'o.y4m', '--muxer', 'yuv4mpeg2', '--filmgrain', gr] + (['--demuxer', ct] if forced else []) + (['--threads', r.choice(['1', '2', '4'])] if r.random() < .8 else [])
            runs.append(cli.prepare(c, exe(), {f: b}, a, note=('ok', n, ct, pk, rate, g[n]['ref'][f'0,1,{gr}'], len(T), b)))
            # the same file cut short: what precedes the damage is delivered unchanged
            if r.random() < .3 and 60 < len(b) < 100000:
                z = r.randrange(1, len(b)); runs.append(cli.prepare(c, exe(), {f: b[:z]}, ['-i', f, '-o', 'o.y4m', '--filmgrain', gr, '--demuxer', ct, '--threads', '1'], note=('cut', n, ct, [(x[0], x[1], x[2] if inc[0] else None, x[3]) for x in pk], rate, g[n]['ref'][f'0,1,{gr}'], len(T), b[:z])))
            # a size that exceeds the unit around it: nothing from there on is delivered
            if ct == 'annexb' and r.random() < .4 and len(b) < 100000:
                x, at = cli.annexb_over(T, r); runs.append(cli.prepare(c, exe(), {f: x}, ['-i', f, '-o', 'o.y4m', '--filmgrain', gr, '--demuxer', ct, '--threads', '1'], note=('over', n, ct, T, at, g[n]['ref'][f'0,1,{gr}'], len(T), x)))
    # not AV1, not a known container, or the wrong one
    small = sorted(n for n in names if g[n]['size'] < 3000)
    for i in range(c.pick(150, 3000)):
        n = r.choice(small); T = obu.tus(mdl.parsed(n)); k = r.choice(['fourcc', 'sig', 'noise', 'forced', 'forced', 'empty', 'text', 'missing', 'version', 'name', 'nofirst', 'nohead', 'zeros', 'short']); f = 'x.ivf'; a = []; fl = None; b = cli.ivf(T)[0]
        if k == 'fourcc': b = cli.ivf(T, fourcc=r.choice([b'VP90', b'VP80', b'av01', b'AV02', b'AV1\0']))[0]; a = r.choice([[], ['--demuxer', 'ivf']])
        elif k == 'sig': b = cli.ivf(T, sig=r.choice([b'DKIV', b'RIFF', b'dkif', b'\x1aE\xdf\xa3']))[0]; a = r.choice([[], ['--demuxer', 'ivf']])
        elif k == 'version': b = cli.ivf(T, version=r.choice([1, 256]), hdr=32)[0]
        elif k == 'noise': b = bytes(r.randrange(128, 256) for _ in range(r.choice([1, 10, 100, 5000])))
        elif k == 'zeros': b = bytes(r.choice([1, 12, 40, 2048, 4000]))
        elif k == 'short': b = b[:r.randrange(1, 32)]; a = r.choice([[], ['--demuxer', 'ivf']])
        elif k == 'forced': x, y = r.sample(['ivf', 'annexb', 'section5'], 2); b = {'ivf': cli.ivf(T)[0], 'annexb': cli.annexb(T)[0], 'section5': cli.section5(T)[0]}[x]; a = ['--demuxer', y]
        elif k == 'empty': b = b''; a = r.choice([[], ['--demuxer', r.choice(['ivf', 'annexb', 'section5'])]])
        elif k == 'text': b = b'hello world, this is not a video file\n' * r.choice([1, 100])
        elif k == 'missing': fl = {}; a = r.choice([[], ['--demuxer', r.choice(['ivf', 'annexb', 'section5'])]])
        elif k == 'name': a = ['--demuxer', r.choice(['mkv', '', 'IVF', 'ivf ', 'obu', 'section', 'section55'])]
        elif k == 'nofirst': b = cli.section5([t[1:] for t in T])[0]; a = r.choice([[], ['--demuxer', 'section5']])
        elif k == 'nohead': b = cli.ivf([])[0] if r.random() < .5 else cli.ivf([[obu.Obu(obu.TD, b'')]])[0]
        runs.append(cli.prepare(c, r.choice(['vcli_rel', 'vcli_asan', 'vcli_msan', 'vcli_msan']), {f: b} if fl is None else {}, ['-i', f, '-o', 'o.y4m', *a], note=('bad', k, ' '.join(a), b)))
    cli.execute(c, runs)
    for u in runs:
        q = u.q; nt = u.note
        if nt[0] == 'bad':
            if not c.judge(q, f'not a supported file ({nt[1]}) {nt[2]}', allow_rc=(0, 1)): continue
            c.count('rejections'); c.seen('rejected_kinds', nt[1])
            if q.rc == 0 or q.lines('P') or u.files: c.violation(f'bad file accepted {nt[1]}', f'a file that is not a supported one ({nt[1]}, {nt[2]}) is not rejected: exit status {q.rc}, files {sorted(u.files)}', cli.show(u), [u.dir + '/x.ivf'])
            else: c.distinct.add(hash((nt[1], nt[2], nt[3])))
            cli.clean(u); continue
        kind, n, ct, pk, rate, want, nt_, b = nt; what = f'{ct} {n}'; fl = [f'{u.dir}/{f}' for f in u.inputs]
        if not c.judge(q, f'{ct} {kind}', allow_rc=(0,) if kind == 'ok' else (0, 1)): cli.clean(u); continue
        P = [p['key'] for p in cli.pics(u)]; S = cli.packets(u); c.count('pictures_compared', len(P)); c.count('packets_compared', len(S)); c.seen('containers', ct + (' forced' if '--demuxer' in u.args else ' detected'))
        def same(a, e): return len(a) == len(e) and all(x[:2] == y[:2] and (y[2] is None or x[2] == y[2]) and (y[3] is None or x[3] == y[3]) for x, y in zip(a, e))
        if kind == 'over':
            w = cli.annexb(pk, None, split=True, sized=False)[1][:rate]
            if [x[:2] for x in S] != [(len(x), cli.vhash(x)) for x in w] or P != want[:len(P)]: c.violation(f'contradicting sizes {ct}', f'{what}: the size of OBU {rate} exceeds its unit; packets delivered: {len(S)}', cli.show(u), fl)
            else: c.distinct.add(hash(b)); c.count('contradicting_sizes')
            cli.clean(u); continue
        if kind == 'cut':
            if P != want[:len(P)]:
                # the packet that is cut is never delivered, so every picture is one of the whole stream's
                c.violation(f'cut {ct}', f'{what}: a file cut short gives pictures the whole one does not have', cli.show(u) + '\nwant ' + '\n'.join(want), fl)
            elif not same(S[:-1] if ct == 'section5' else S, pk[:max(0, len(S) - (ct == 'section5'))]):      # (a unit cut between two of its OBUs is a shorter unit)
                c.violation(f'cut packets {ct}', f'{what}: a file cut short delivers other packets than the whole one', cli.show(u) + f'\nwant {pk}', fl)
            elif ct == 'ivf' and len(S) != sum(o + 12 + sz <= len(b) for sz, _, _, o in pk): c.violation(f'cut lost {ct}', f'{what}: a file cut short lost complete frames', cli.show(u) + f'\nwant {pk}', fl)
            else: c.distinct.add(hash(b)); c.count('cut_files')
            cli.clean(u); continue
        if not same(S, pk): c.violation(f'packets {ct}', f'{what}: the packets delivered are not those stored (sizes, bytes, timestamps, offsets)', cli.show(u) + '\nwant ' + '\n'.join(map(str, pk)), fl)
        elif P != want: c.violation(f'pictures {ct}', f'{what}: the pictures differ from those of the stream', cli.show(u) + '\nwant ' + '\n'.join(want), fl)
        else:
            y = cli.data(u, 'o.y4m') or b''; hd = y.split(b'\n')[0].decode('latin1').split(); F = next((x for x in hd if x[0] == 'F'), '')
            pr = [l for l in q.err.replace('\r', '\n').split('\n') if l.startswith('Decoded')]
            if F != f'F{rate[0]}:{rate[1]}': c.violation(f'rate {ct}', f'{what}: the output states {F}, the container {rate[0]}:{rate[1]}', cli.show(u), fl)
            elif len(pr) != len(P) or any(not l.startswith(f'Decoded {i + 1}/{nt_} frames') for i, l in enumerate(pr)): c.violation(f'count {ct}', f'{what}: progress reports do not state picture i of {nt_} temporal units', cli.show(u), fl)
            else: c.distinct.add(hash((b, tuple(u.args)))); c.seen('rates', rate)
        cli.clean(u)
    c.sample(' '.join(runs[0].args)); c.sample(f'{runs[-1].note[1]}: {" ".join(runs[-1].args)}')
