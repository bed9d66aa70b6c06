from lib.core import *
from lib import mdl, obu, cli, av1
import hashlib, math
FILT = {'none': 0, 'deblock': 1, 'nodeblock': 6, 'cdef': 2, 'nocdef': 5, 'restoration': 4, 'norestoration': 3, 'all': 7}
DECT = {'all': 0, 'reference': 1, 'intra': 2, 'key': 3}
MASK = {'sse2': 1, 'ssse3': 3, 'sse41': 7, 'avx2': 15, 'avx512icl': 31, 'none': 0, '0': 0, '-1': 0xffffffff, '0x7': 7}
SS = [['mono', 'mono10', 'mono12'], [None, '420p10', '420p12'], ['422', '422p10', '422p12'], ['444', '444p10', '444p12']]
def y4m_head(p, rate):
    a, b = p['h'] * p['rw'], p['w'] * p['rh']; d = math.gcd(a, b); hb = {8: 0, 10: 1, 12: 2}[p['bpc']]
    s = {1: '420mpeg2', 2: '420'}.get(p['chr'], '420jpeg') if p['lay'] == 1 and not hb else SS[p['lay']][hb]
    return f'YUV4MPEG2 W{p["w"]} H{p["h"]} F{rate[0]}:{rate[1]} Ip A{a // d}:{b // d} C{s}\n'.encode()
def content(fmt, ps, bs, rate, xx):
    if fmt == 'yuv': return b''.join(bs)
    if fmt == 'yuv4mpeg2': return y4m_head(ps[0], rate) + b''.join(b'FRAME\n' + b for b in bs)
    if fmt == 'md5': return hashlib.md5(b''.join(bs)).hexdigest().encode() + b'\n'
    if fmt == 'xxh3': return xx.encode() + b'\n'
def file_name(pat, p, n):
    """%n %w %h with an optional width, padded with zeros"""
    return re.sub(r'%(\d*)([nwh])', lambda m: str({'n': n, 'w': p['w'], 'h': p['h']}[m.group(2)]).zfill(int(m.group(1)[-30:].lstrip("0")[:5] or 0) if len(m.group(1).lstrip("0")) < 5 else 9999), pat)
def siting(r, T):
    """another chroma sample position in every sequence header"""
    v = r.randrange(4)
    for t in T:
        for i, o in enumerate(t):
            if o.type != obu.SEQ: continue
            k = av1.sequence(o.payload).get('chr_pos'); b = bytearray(o.payload)
            if k is None: continue
            for j in (0, 1): b[k + j >> 3] = b[k + j >> 3] & ~(128 >> (k + j & 7)) | (v >> 1 - j & 1) << 7 - (k + j & 7)
            t[i] = obu.Obu(o.type, bytes(b), o.ext)
def damage(r, T):
    """corrupts the headers or data of some frames (not their sizes)"""
    fr = [(t, i) for t in T for i, o in enumerate(t) if o.type in (obu.FRAME, obu.FRAME_HDR, obu.TILE_GRP) and len(o.payload) > 1]
    for t, i in r.sample(fr, min(len(fr), r.choice([1, 1, 2]))):
        b = bytearray(t[i].payload); k = r.randrange(3)
        if k == 0: b[r.randrange(min(6, len(b)))] ^= 1 << r.randrange(8)
        elif k == 1: b[r.randrange(len(b))] = r.randrange(256)
        else: b = b[:r.randrange(1, len(b))]
        t[i] = obu.Obu(t[i].type, bytes(b), t[i].ext)
    return bool(fr)
EXT = {'yuv': 'yuv', 'yuv4mpeg2': 'y4m', 'md5': 'md5', 'xxh3': 'xxh3', 'null': 'null'}
def check(c):
    c.build('vcli_rel', 'vcli_asan', 'vcli_msan'); r = c.rng; g = gold()
    c.rule = 'one run of the command-line tool with a monitor at the library interface; output files and their names, hashes, exit status, settings handed to the library and releases compared with the pictures the library returned and with the golden samples; distinct by stream, container and options'
    names = sorted(n for n in g if g[n]['size'] < c.pick(5000, 60000) and '0,1,0' in g[n]['ref']); runs = []
    longer = sorted(n for n in g if n.startswith(('long/', 'mt/')) and g[n]['size'] < c.pick(20000, 200000) and '0,1,0' in g[n]['ref']) or names
    exe = lambda: 'vcli_rel' if r.random() < .85 else r.choice(['vcli_asan', 'vcli_msan'])
    for _ in range(c.pick(2400, 20000)):
        n = r.choice(names if r.random() < .9 else longer); T = obu.tus(mdl.parsed(n)); k = len(T); dmg = r.random() < .15 and damage(r, T)
        if r.random() < .15: siting(r, T)
        ct = r.choice(['ivf', 'annexb', 'section5']); tb = r.choice([(25, 1), (30000, 1001), (60, 1)])
        b, info = cli.ivf(T, tb=tb) if ct == 'ivf' else cli.annexb(T, r) if ct == 'annexb' else cli.section5(T); rate = tb if ct == 'ivf' else (25, 1)
        fmt = r.choice(['yuv', 'yuv', 'yuv4mpeg2', 'yuv4mpeg2', 'md5', 'xxh3', 'null']); how = r.choice(['ext', 'name', 'frame', 'pat', 'stdout', 'verify'] if fmt in ('md5', 'xxh3') else ['ext', 'name', 'frame', 'pat', 'stdout'])
        a = ['-i' if r.random() < .8 else '--input', 'in']; w = {}; o = None
        pat = lambda: ''.join(r.choice(['a', '_', '-', 'f%w', '%', '%%', '%h', '%3w', '%05h', 'x']) for _ in range(r.randrange(4))) + r.choice(['%n', '%5n', '%03n', '%1n', '%12n', '%040n', '%60n', '%0n']) + r.choice(['', '%wx%h', '_%q', '-%n', '%'])
        if how == 'ext': o = r.choice(['o', 'o.b', '.x.y', 'd.1/o', 'a%wb', '%', 'a%h_%3w']) + '.' + EXT[fmt]
        elif how == 'name': o = r.choice(['o', 'out.yuv', 'o.y4m', 'x%n.z', '%5n', 'a b']); a += ['--muxer', fmt]
        elif how == 'frame': o = r.choice([pat(), 'one.' + EXT[fmt], 'f%w.y', pat()]); a += ['--muxer', 'frame' + fmt]
        elif how == 'pat': o = pat() + '.' + EXT[fmt]
        elif how == 'stdout': o = '-'; a += ['--muxer', fmt]
        if o and not (how in ('name', 'stdout') and fmt == 'null' and r.random() < .5): a += [r.choice(['-o', '--output']), o]
        elif o: o = None
        if how == 'ext' and o.startswith('d.1/'): w['mkdir'] = 'd.1'
        # library settings
        S = dict(threads=0, delay=0, grain=1, op=0, all=1, limit=0, strict=1, invis=0, iflags=7, dec=0); free = r.random() < .35
        if how in ('name', 'stdout', 'verify') and fmt in ('md5', 'xxh3'): S['grain'] = 0          # documented default
        gr = None
        if r.random() < .5 or how in ('ext', 'pat', 'frame') and fmt in ('md5', 'xxh3'): S['grain'] = r.randrange(2); a += ['--filmgrain', str(S['grain'])]
        if r.random() < .7: S['threads'] = r.choice([1, 2, 3, 8]); a += ['--threads', str(S['threads'])]
        if r.random() < .3: S['delay'] = r.choice([1, 2, 3]); a += ['--framedelay', str(S['delay'])]
        neg = r.random() < .15
        if neg: a += ['--negstride']
        if free:
            if r.random() < .3: S['op'] = r.randrange(4); a += ['--oppoint', str(S['op'])]
            if r.random() < .3: S['all'] = r.randrange(2); a += ['--alllayers', str(S['all'])]
            if r.random() < .3: S['strict'] = r.randrange(2); a += ['--strict', str(S['strict'])]
            if r.random() < .3: S['invis'] = r.randrange(2); a += ['--outputinvisible', str(S['invis'])]
            if r.random() < .3: x = r.choice(sorted(FILT)); S['iflags'] = FILT[x]; a += ['--inloopfilters', x]
            if r.random() < .3: x = r.choice(sorted(DECT)); S['dec'] = DECT[x]; a += ['--decodeframetype', x]
            if r.random() < .3: x, y = r.choice([(10000, 10000), (65536, 1), (4000000, 0), (300, 200)]); S['limit'] = x * y if y else x; a += ['--sizelimit', f'{x}x{y}' if y else str(x)]
        mk = None
        if r.random() < .2: mk = r.choice(sorted(MASK)); a += ['--cpumask', mk]
        lim = sk = None
        if r.random() < .3: lim = r.choice([0, 1, 2, 3, k, k + 5, 9, 10, 12]); a += [r.choice(['-l', '--limit']), str(lim)]
        if r.random() < .25: sk = r.choice([0, 1, 1, 2, max(0, len(info) - 1)]); a += [r.choice(['-s', '--skip']), str(sk)]
        quiet = r.random() < .2
        if quiet: a += ['-q']
        ft = r.random() < .15
        if ft: a += ['--frametimes', 'ft.txt']
        if r.random() < .1: a += r.choice([['--realtime'], ['--realtime', '30'], ['--realtime=60000/1001'], ['--realtime', '25/1', '--realtimecache', '3']])
        op = []
        if how == 'stdout': op += ['stdout=std.out']
        ver = None
        if how == 'verify': ver = r.choice(['good', 'good', 'upper', 'flip', 'flip', 'flip', 'short', 'other', 'long', 'junk'])
        sig = r.choice([1, 2]) if r.random() < .06 else None
        if sig: op += [f'sigat={sig}']
        runs.append([n, T, ct, b, info, rate, fmt, how, o, a, w, S, neg, free, mk, lim, sk, quiet, ft, op, ver, sig, dmg])
    # hashes for --verify come from a first run of the same options with a plain sample file
    first = []
    for x in runs:
        if x[7] == 'verify': first.append((x, cli.prepare(c, 'vcli_rel', {'in': x[3]}, x[9] + ['--muxer', 'yuv', '-o', 'o.yuv'] + ([] if '--filmgrain' in x[9] else ['--filmgrain', '0']), [q for q in x[19] if not q.startswith('stdout')])))
    cli.execute(c, [u for _, u in first]); good = {}
    for x, u in first:
        good[id(x)] = (hashlib.md5(cli.dump(u)).hexdigest() if x[6] == 'md5' else cli.done(u).get('x', '0' * 32), len(cli.pics(u))); cli.clean(u)
    prep = []
    for x in runs:
        n, T, ct, b, info, rate, fmt, how, o, a, w, S, neg, free, mk, lim, sk, quiet, ft, op, ver, sig, dmg = x
        if ver:
            h, npic = good[id(x)]; p = r.randrange(32)
            if ver == 'upper': h = h.upper()
            elif ver == 'flip': h = h[:p] + f'{int(h[p], 16) ^ r.randrange(1, 16):x}' + h[p + 1:]
            elif ver == 'short': h = h[:r.randrange(32)]
            elif ver == 'other': h = hashlib.md5(h.encode()).hexdigest()
            elif ver == 'long': h = h + r.choice(['0', 'abc', ' ', 'x.yuv'])
            elif ver == 'junk': h = h[:p] + r.choice('g-+ .') + h[p + 1:]
            a = a + ['--verify', h] + (['--muxer', fmt] if fmt != 'md5' or r.random() < .5 else [])
        u = cli.prepare(c, exe(), {'in': b}, a, op, note=x)
        if w: os.mkdir(u.dir + '/' + w['mkdir']); os.chmod(u.dir + '/' + w['mkdir'], 0o777)
        prep.append(u)
    cli.execute(c, prep)
    for u in prep:
        n, T, ct, b, info, rate, fmt, how, o, a, w, S, neg, free, mk, lim, sk, quiet, ft, op, ver, sig, dmg = u.note; q = u.q; fl = [u.dir + '/in']
        what = f'{n} ({ct}) {" ".join(u.args)}'; bad = lambda k, m, d='': c.violation(k, f'{what}: {m}', cli.show(u) + '\n' + d, fl)
        if not c.judge(q, f'the tool with {how} {fmt}', allow_rc=(0, 1)): cli.clean(u); continue
        P = cli.pics(u); st = cli.settings(u); z = cli.done(u); D = cli.dump(u); bs = []; pos = 0
        for p in P: bs.append(D[pos:pos + p['bytes']]); pos += p['bytes']
        first_seq = sk or 0; ns = [(len(x[2]) if ct == 'ivf' else len(x)) for x in info]
        if sk:                                         # skipped packets, then those before a sequence header
            pk = [x[2] if ct == 'ivf' else x for x in info]
            while first_seq < len(pk) and not any(y.type == obu.SEQ for y in obu.parse(pk[first_seq])): first_seq += 1
        c.seen('formats', f'{fmt} {how}'); c.count('pictures_compared', len(P))
        def done():
            if st is None: return first_seq < len(info) and bad('not opened', 'the decoder was not opened')
            for k, v in S.items():
                if int(st[k]) != v: return bad(f'setting {k}', f'the library was opened with {k}={st[k]}, not {v}')
            if mk is not None and [l for l in q.lines('M')] != [f'M {MASK[mk]}']: return bad('cpu mask', f'CPU mask: {q.lines("M")}')
            if any(bool(p['neg']) != neg for p in P): return bad('strides', 'the requested stride sign was not used')
            # which packets and pictures
            pk = [(s, h) for s, h, _, _ in cli.packets(u)]; want = [((len(x[2]), cli.vhash(x[2])) if ct == 'ivf' else (len(x), cli.vhash(x))) for x in info][first_seq:]
            errs = [l for l in q.lines('G') if l.split()[1] != '-22'] + [x for x in cli.sent(u) if x[4] not in (0, -11, -22)]
            toolong = o is not None and (how == 'frame' or how == 'pat') and P and any(len(file_name(o, p, i)) > 255 for i, p in enumerate(P))
            if pk != want[:len(pk)]: return bad('packets', f'packets other than those from {first_seq} on were decoded')
            if not lim and not sig and not errs and not toolong and pk != want: return bad('packets missing', f'only {len(pk)} of the {len(want)} packets from {first_seq} on were decoded')
            if dmg: c.count('damaged_streams', 1); c.count('error_returns', len(q.lines('G')) + sum(x[4] not in (0, -11) for x in cli.sent(u)))
            elif not free and not sk:
                e = g[n]['ref'].get(f'0,1,{S["grain"]}') or g[n]['ref']['0,1,0']; e = e[:lim] if lim else e
                if sig: e = e[:len(P)]
                if [p['key'] for p in P] != e: return bad('pictures', 'the pictures are not the first ones of the stream', '\n'.join(e))
            if lim and len(P) > lim: return bad('limit', f'{len(P)} pictures with --limit {lim}')
            if sig and len(P) > sig + 1: return bad('interrupt', f'{len(P)} pictures after an interrupt at {sig}')
            # exit status
            ok = bool(P) and not (sig and len(P) >= sig and not (lim and len(P) >= lim and 0))
            hs = good[id(u.note)][0] if ver else None
            if ver in ('flip', 'short', 'other', 'long', 'junk'): ok = False
            if errs: ok = False
            if sig and len(P) < sig: pass
            elif sig and lim and len(P) == lim: pass
            elif (q.rc == 0) != ok: return bad(f'exit status {how} {ver or ""}', f'exit status {q.rc} with {len(P)} pictures' + (f', verify {ver} ({hs})' if ver else ''))
            # what was written
            exp = {}
            per = how in ('frame', 'pat') and (how == 'frame' or '%' in o)
            if P and fmt != 'null' and how != 'verify':
                if per:
                    for i, p in enumerate(P): exp[file_name(o, p, i)] = content(fmt, [p], [bs[i]], rate, p['x'])
                else: exp['std.out' if how == 'stdout' else o] = content(fmt, P, bs, rate, z.get('x'))
            got = {k: cli.data(u, k) for k in u.files if k != 'ft.txt'}
            if how == 'stdout': exp.setdefault('std.out', b'')
            if {os.path.normpath(k) for k in exp} != set(got): return bad(f'files {how}', f'files written: {sorted(got)[:6]}, expected {sorted(exp)[:6]}')
            for k, v in exp.items():
                if got[os.path.normpath(k)] != v: return bad(f'content {fmt} {how}', f'{k}: the bytes written ({len(got[os.path.normpath(k)])}) do not represent the pictures returned ({len(v)})', repr(v[:300]) + '\n' + repr(got[os.path.normpath(k)][:300]))
            if quiet and re.search('^Decoded|^dav1d [^ ]* - by', q.err, re.M): return bad('quiet', 'messages with --quiet')
            if ft and P:
                t = (cli.data(u, 'ft.txt') or b'').decode().split()
                if not (quiet and rate[0] == 0) and (len(t) != len(P) or not all(x.isdigit() and int(x) < 1e13 for x in t)): return bad('frame times', f'{len(t)} frame times {t[:5]} for {len(P)} pictures')
            if q.rc == 0 and (z['pics'] != z['released'] or z['packets'] != z['freed'] or z['opened'] != z['closed']): return bad('release', 'not everything was released: ' + ' '.join(f'{k}={v}' for k, v in z.items()))
            c.distinct.add(hash((n, *u.args)))
            if ver: c.count('verifications')
            if sig: c.count('interrupts')
            if sk: c.count('skips')
            if lim: c.count('limits')
        done(); cli.clean(u)
    # output that cannot be written
    runs = []; big = [n for n in sorted(g) if g[n]['size'] < 20000 and '0,1,0' in g[n]['ref']]
    for _ in range(c.pick(220, 3000)):
        n = r.choice(big); T = obu.tus(mdl.parsed(n)); fmt = r.choice(['yuv', 'yuv4mpeg2', 'md5', 'xxh3']); k = r.choice(['full', 'full', 'stdfull', 'nodir', 'isdir', 'denied', 'fsize', 'frames', 'noext', 'badmux', 'badext']); a = ['-i', 'in', '--muxer', fmt]; op = []; mk = None
        if k == 'full': a += ['-o', '/dev/full']
        elif k == 'stdfull': a += ['-o', '-']; op = ['stdout=/dev/full']
        elif k == 'nodir': a += ['-o', 'no/such/dir']
        elif k == 'isdir': a += ['-o', 'dd']; mk = 0o777
        elif k == 'denied': a += ['-o', 'dd/o']; mk = 0o500
        elif k == 'fsize': a += ['-o', 'o']; op = [f'fsize={r.choice([0, 1, 20, 100, 1000, 5000])}']
        elif k == 'frames': a[3] = 'frame' + fmt; a += ['-o', 'o%n']; op = [f'fsize={r.choice([0, 1, 20, 100, 1000, 5000])}']
        elif k == 'noext': a = ['-i', 'in', '-o', r.choice(['noext', 'a.b/c', '.hidden', 'x.', 'y', '..', 'q.y-v'])]
        elif k == 'badmux': a[3] = r.choice(['y4m', 'frame', 'framey4m', '', 'YUV', 'md', 'md55', 'null2', 'frameframeyuv']); a += ['-o', 'o.yuv']
        elif k == 'badext': a = ['-i', 'in', '-o', 'o.' + r.choice(['yuv4mpeg2', 'mkv', 'y4', 'YUV', 'md5sum', 'y4mm'])]
        if r.random() < .4: a += ['--threads', '2']
        u = cli.prepare(c, exe(), {'in': cli.section5(T)[0]}, a, op, note=(n, k, fmt), dump=False); runs.append(u)
        if mk: os.mkdir(u.dir + '/dd'); os.chmod(u.dir + '/dd', mk)
    cli.execute(c, runs)
    for u in runs:
        n, k, fmt = u.note; q = u.q; what = f'{n} {" ".join(u.args)} ({k} {" ".join(u.opts[1:])})'
        if not c.judge(q, f'output failure {k}', allow_rc=(0, 1)): cli.clean(u); continue
        P = cli.pics(u); fs = next((int(x[6:]) for x in u.opts if x.startswith('fsize=')), None)
        if k in ('fsize', 'frames'):
            need = [len(content(fmt, [p], [b'\0' * p['bytes']], (25, 1), '0' * 32)) for p in P]
            tot = len(content(fmt, P, [b'\0' * p['bytes'] for p in P], (25, 1), '0' * 32)) if P else 0
            ok = bool(P) and (max(need) <= fs if k == 'frames' else tot <= fs)
        else: ok = False
        c.seen('write_failures', k); c.count('failed_outputs', not ok)
        if (q.rc == 0) != ok: c.violation(f'unreported write failure {k} {fmt}', f'{what}: exit status {q.rc}, output {"complete" if ok else "not written completely"}', cli.show(u))
        else: c.distinct.add((n, *u.args, *u.opts[1:]))
        cli.clean(u)
    c.sample(' '.join(prep[0].args)); c.sample(' '.join(runs[0].args))
