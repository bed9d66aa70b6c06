from lib.core import *
from lib import mdl, obu, cli, hostile
from checks.C28 import file_name
BIG = [0, 1, 2, 3, 5, 127, 128, 255, 2047, 2048, 2049, 16383, 16384, 0x7fff, 0xffff, 0x7fffff0, 0x7ffffff0, 0x7ffffffd, 0x7ffffffe, 0x7fffffff, 0x80000000, 0x80000001, 0x80000010, 0x80000800, 0xfffffff0, 0xfffffffd, 0xfffffffe, 0xffffffff, 0x100000000, 1 << 40, (1 << 56) - 1]
def leb(r, v): return obu.wleb(v, r.choice([0, 0, 0, 4, 8]))
def hostile_file(r, T, other):
    """a container with wrong sizes, headers and payloads"""
    k = r.choice(['ivf', 'ivf', 'annexb', 'annexb', 'section5', 'section5', 'mut', 'mut', 'probe5', 'probeb', 'probeb', 'raw'])
    sz = lambda v: v if r.random() < .7 else r.choice([r.choice(BIG), max(0, v + r.choice([-2, -1, 1, 2, 40, 1 << 31, 1 << 32]))])
    if k == 'ivf':
        o = bytearray(cli.ivf([], tb=(r.choice(BIG) & 0xffffffff, r.choice(BIG) & 0xffffffff), length=r.choice(BIG) & 0xffffffff, hdr=r.choice([32, 32, 32, 0, 65535]))[0])
        for t in T: b = obu.join(t); o += struct_le(sz(len(b)) & 0xffffffff, 4) + struct_le(r.choice([0, 1, r.getrandbits(64), r.getrandbits(20), (1 << 64) - 1]), 8) + b
        if r.random() < .3: o = o[:r.randrange(len(o) + 1)]
        return bytes(o), k
    if k == 'annexb':
        o = bytearray()
        for t in T:
            fu = bytearray()
            for x in t: b = x.write(size_field=r.random() < .3); fu += leb(r, sz(len(b))) + b
            fu = leb(r, sz(len(fu))) + fu; o += leb(r, sz(len(fu))) + fu
        if r.random() < .3: o = o[:r.randrange(len(o) + 1)]
        return bytes(o), k
    if k == 'section5':
        o = bytearray()
        for t in T:
            for x in t: h = x.write(size_field=False); h = h[:2 if x.ext is not None else 1]; o += bytes([h[0] | (2 if r.random() < .95 else 0)]) + h[1:] + leb(r, sz(len(x.payload))) + x.payload
        if r.random() < .3: o = o[:r.randrange(len(o) + 1)]
        return bytes(o), k
    def hdr(ty, ext=None, size=1): return bytes([ty << 3 | (4 if ext is not None else 0) | 2 * size]) + (bytes([ext]) if ext is not None else b'')
    if k == 'probe5':      # aims at the recognition of Section 5 files
        o = hdr(2, r.choice([None, 0])) + leb(r, 0)
        for _ in range(r.randrange(1, 8)): v = r.choice(BIG); o += hdr(r.choice([1, 1, 5, 15, 3, 6, 9]), r.choice([None, None, 9])) + leb(r, v) + bytes(r.randrange(256) for _ in range(min(v, r.choice([0, 3, 2100]))))
        return o + bytes(r.choice([0, 0, 10, 4000])), k
    if k == 'probeb':      # and of Annex B files
        m = r.choice(BIG); n = max(0, m - r.randrange(0, 12)) if r.random() < .7 else r.choice(BIG); p = max(0, n - r.randrange(0, 12)) if r.random() < .5 else r.choice(BIG)
        td = hdr(2, r.choice([None, 0]), r.choice([0, 1, 1])); td += leb(r, 0) if td[0] & 2 else b''
        o = leb(r, m) + leb(r, n) + leb(r, r.choice([p, len(td)])) + td
        for _ in range(r.randrange(0, 6)): v = r.choice(BIG); o += leb(r, v) + hdr(r.choice([1, 1, 5, 15, 3, 6]), r.choice([None, None, 9]), r.choice([0, 1])) + leb(r, r.choice(BIG)) + bytes(r.choice([0, 1, 5, 1000]))
        return o + bytes(r.choice([0, 0, 10, 4000])), k
    if k == 'raw':
        return bytes(r.randrange(256) if r.random() < .5 else r.choice([0, 0x12, 0x0a, 0x32, 0x10]) for _ in range(r.choice([1, 2, 5, 11, 12, 13, 31, 32, 33, 60, 2047, 2048, 2049, 5000]))), k
    b = r.choice([lambda: cli.ivf(T)[0], lambda: cli.annexb(T, r)[0], lambda: cli.section5(T)[0]])()
    return hostile.mutate(r, b, r.choice(['bitflip', 'bytes', 'insert', 'bitflip', 'bytes', 'trunc']), other), k
def struct_le(v, n): return v.to_bytes(n, 'little')
JUNK = ['', ' ', '0', '-1', '1', '2', '7', '255', '256', '257', '4294967295', '4294967296', '4294967297', '18446744073709551615', '99999999999999999999999', '-4294967295', '0x', '0x10', '0xffffffff', '0xfffffffffffffffff', '1x', 'x1', '1x1', '0x0x0', '65536x65536', '4294967295x1', '4294967296x4294967296', '1e9', 'nan', 'inf', '-inf', '-0', '1/0', '0/0', '1/-1', '25/', '/25', '1/1/1', '1e-300', '1e300', '1e308/1e-308', '.5', 'abc', 'none', 'all', '%n', '%s%s%s%n', '%', 'a' * 300, 'A' * 5000, '\xff\xfe', 'key', 'frame', 'md5', '+1', ' 1', '1 ', '010', '08']
def options(r):
    a = []; v = lambda good: r.choice(good) if r.random() < .55 else r.choice(JUNK)
    def num(*g): return v([str(x) for x in g])
    for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4, 6])):
        k = r.randrange(24)
        def opt(n, x): return [f'--{n}={x}'] if r.random() < .3 else [f'--{n}', x]
        if k == 0: a += opt('threads', num(0, 1, 2, 3, 8, 16))
        elif k == 1: a += opt('framedelay', num(0, 1, 2, 3, 256))
        elif k == 2: a += opt('filmgrain', num(0, 1))
        elif k == 3: a += opt('oppoint', num(0, 1, 31, 32))
        elif k == 4: a += opt('alllayers', num(0, 1))
        elif k == 5: a += opt('sizelimit', v(['0', '100', '64x64', '10000x1', '0x0', '1x', 'x']))
        elif k == 6: a += opt('strict', num(0, 1, 2))
        elif k == 7: a += opt('cpumask', v(['sse2', 'ssse3', 'sse41', 'avx2', 'avx512icl', 'none', '0', '-1', '0x1f', '0xff']))
        elif k == 8: a += ['--negstride']
        elif k == 9: a += opt('outputinvisible', num(0, 1))
        elif k == 10: a += opt('inloopfilters', v(['none', 'deblock', 'nocdef', 'all', '5', '0x3', '8']))
        elif k == 11: a += opt('decodeframetype', v(['all', 'reference', 'intra', 'key', '3', '4']))
        elif k == 12: a += r.choice([['--limit', num(0, 1, 2, 100)], ['-l', num(1)], ['-l' + num(0, 2)]])
        elif k == 13: a += r.choice([['--skip', num(0, 1, 2, 100)], ['-s', num(1)]])
        elif k == 14: a += ['-q']
        elif k == 15: a += opt('frametimes', r.choice(['ft', 'no/dir/x', 'ft', '/dev/full', '.', 'in']) if 0 else r.choice(['ft', 'no/dir/x', 'ft', '/dev/full', '.']))
        elif k == 16: a += r.choice([['--realtime'], ['--realtime=' + v(['30', '60000/1001', '25/1', '1e6'])], ['--realtime', v(['30', '60000/1001', '25/1'])]])
        elif k == 17: a += opt('realtimecache', num(0, 1, 10))
        elif k == 18: a += opt('demuxer', v(['ivf', 'annexb', 'section5']))
        elif k == 19: a += opt('verify', r.choice(['0' * 32, 'f' * 32, '', 'x', '0' * 31, '0' * 33, 'g' * 32, '\xff' * 32, '0' * 5000]))
        elif k == 20: a += r.choice([['-v'], ['--version'], ['--help'], ['-h'], ['-?'], ['--nosuch'], ['-'], ['extra'], ['--'], ['--in', 'in'], ['--thr', '2'], ['--o', 'x.yuv'], ['-x'], ['-i'], ['--input']]) if r.random() < .3 else []
        elif k == 21: a += opt('muxer', v(['md5', 'xxh3', 'yuv', 'yuv4mpeg2', 'null', 'framemd5', 'frameyuv', 'frame', 'framenull', 'framexxh3', 'frameyuv4mpeg2']))
        elif k == 22: a += ['-i', r.choice(['in', 'nosuch', '.', '', '/dev/null'])]
        else: a += ['--negstride', '-q']
    return a
def output(r):
    k = r.random()
    if k < .35: return r.choice(['o.yuv', 'o.y4m', 'o.md5', 'o.xxh3', '/dev/null', 'o.null'])
    if k < .45: return r.choice(['abc', 'o', '', '.', '..', '-', 'x.', 'a' * 254, 'b' * 300, 'c' * 250 + '.yuv', './' * 600 + 'o.yuv', './' * 500 + 'f%n.yuv', 'Z', '%', 'yuv'])
    s = ''.join(r.choice(['a', '%', '%%', '%n', '%w', '%h', '%5n', '%05w', '%20n', '%0n', '%99n', '%31n', '%32h', '%1000n', '%1024n', '%123456789w', '%2147483647n', '%2147483648n', '%4294967297n', '%99999999999999999999n', '%' + '0' * 28 + 'n', '%' + '0' * 29 + 'h', '%' + '1' * 40 + 'n', '%d', '%s', '%p', '%-5n', '%.3n', '%5', '%*n', '.x', '-', 'q']) for _ in range(r.randrange(1, 6)))
    return s + r.choice(['', '.yuv', '.y4m', '.md5', '.yuv'])
def check(c):
    c.build('vcli_asan', 'vcli_nd', 'vcli_msan', 'vcli_rel'); r = c.rng; g = gold()
    c.rule = 'one run of the command-line tool, under a sanitizer build and as an unprivileged user in a scratch directory, over a hostile container file or with hostile options (every argument in a block of its exact size); non-trivial: all; distinct by file and options'
    names = sorted(n for n in g if g[n]['size'] < 2500); runs = []
    for i in range(c.pick(3000, 80000)):
        T = obu.tus(mdl.parsed(r.choice(names)))[:r.choice([1, 2, 8])]; b, k = hostile_file(r, T, mdl.load(r.choice(names)))
        a = ['-i', 'in', '-q', '-o', r.choice(['/dev/null', 'o.md5', 'o.yuv', 'o.y4m', '/dev/null'])] + (['--demuxer', r.choice(['ivf', 'annexb', 'section5'])] if r.random() < .4 else []) + ['--threads', r.choice(['1', '1', '1', '2', '3'])]
        if r.random() < .2: a += ['--skip', r.choice(['1', '2', '5'])]
        if r.random() < .1: a += ['--strict', '0']
        if r.random() < .1: a += ['--limit', '1']
        if r.random() < .1: a += ['--sizelimit', '64x64']
        runs.append((r.choice(['vcli_asan', 'vcli_asan', 'vcli_asan', 'vcli_msan', 'vcli_nd']), b, a, k, None))
    for i in range(c.pick(2500, 60000)):
        T = obu.tus(mdl.parsed(r.choice(names)))[:3]; b = r.choice([cli.ivf, cli.annexb, cli.section5])(T)[0]; a = options(r); o = None
        if r.random() < .95: a = ['-i', 'in'] + a
        if r.random() < .95: o = output(r); a += r.choice([['-o', o], ['--output=' + o]]) if o or r.random() < .5 else ['-o', o]
        runs.append((r.choice(['vcli_nd', 'vcli_nd', 'vcli_nd', 'vcli_msan' if not any(k in x for x in a for k in ('delay', 'oppoint', 'thr', 'limit', 'frametype', 'strict', 'filters', 'grain')) else 'vcli_nd']), b, a, 'options', o))
    for p in range(0, len(runs), 2000):
        us = [cli.prepare(c, e, {'in': b}, a, dump=False, note=(k, o)) for e, b, a, k, o in runs[p:p + 2000]]; cli.execute(c, us)
        for u, (e, b, a, k, o) in zip(us, runs[p:p + 2000]):
            q = u.q; d = cli.show(u); fl = [u.dir + '/in']; c.seen('kinds', k)
            if c.judge(q, f'{k}', allow_rc=(0, 1)):
                P = cli.pics(u); c.count('pictures', len(P)); c.count(f'exit_{q.rc}'); ex = {'ft'}
                if k == 'options':
                    outs = {o} | {x[9:] for x in a if x.startswith('--output=')} | {'x.yuv'} - {None}
                    for x in outs - {None}:
                        ex.add(os.path.normpath(x))
                        for n, p_ in enumerate(P): ex.add(os.path.normpath(file_name(x, p_, n)))
                else: ex |= {'o.md5', 'o.yuv', 'o.y4m'}
                w = {os.path.normpath(f) for f in u.files} - ex
                if open(u.dir + '/in', 'rb').read() != b: c.violation(f'input changed {k}', f'{" ".join(a)}: the input file was changed', d)
                elif w: c.violation(f'other files {k}', f'{" ".join(a)}: wrote {sorted(w)[:4]}, which was not asked for', d)
                else: c.distinct.add(hash((b, *a)))
            cli.clean(u)
    c.sample(' '.join(runs[0][2])); c.sample(' '.join(runs[-1][2]))
