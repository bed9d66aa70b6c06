"""Hostile workloads: deterministic mutants of corpus streams, and generated streams with legal headers and
random entropy-coded data."""
import os, random, subprocess
from . import obu, core, build
def gen_exe():
    """the unsteered stream generator (uses only dav1d's public header structures)"""
    out = f'{build.B}/bin/gen_plain'; d = build.ROOT + '/tools/gen'; lk = build.lock(); build.sync()
    inc = [f'-I{build.SRC}/include', '-I' + d]
    src = [f'{d}/gen.cpp', f'{d}/avgen.hpp', f'{build.SRC}/include/dav1d/headers.h']
    key = repr([build.fh(s) for s in src])
    if not os.path.exists(out) or not os.path.exists(out + '.stamp') or open(out + '.stamp').read() != key:
        os.makedirs(f'{build.B}/bin', exist_ok=True)
        rc, t = build.run(['g++', '-std=c++17', '-O1', *inc, f'{d}/gen.cpp', '-o', out])
        if rc: raise build.BuildError(t[-2000:])
        open(out + '.stamp', 'w').write(key)
    lk.close(); return out
def gcfg(r, small=True):
    c = {'rich': r.choice([30, 60, 100]), 'fmt': r.choice([420, 420, 400, 422, 444]), 'bd': r.choice([8, 8, 10, 12]), 'w': r.choice([r.randint(1, 40), r.randint(16, 160), 64, 128]), 'h': r.choice([r.randint(1, 40), r.randint(16, 160), 64]), 'frames': r.choice([2, 3, 4])}
    p = lambda k, v, pr: c.__setitem__(k, v) if r.random() < pr else None
    p('intra', 1, .06); p('superres', 1, .2); p('fg', r.choice([50, 90]), .3); p('seg', 70, .2); p('lossless', r.choice([20, 70]), .08)
    p('qm', 70, .2); p('deltaq', 70, .2); p('tiles', 90, .25); p('tg', 80, .2); p('hidden', 40, .25); p('showex', 40, .25); p('hiddenkey', 30, .15)
    p('switch', 25, .1); p('intraonly', 30, .15); p('key', 25, .1); p('sizechg', 50, .2); p('bigchg', 50, .1); p('errres', 40, .1); p('shortref', 60, .15)
    if r.random() < .15: c['scc'] = 1; c['intrabc'] = 80
    p('sb128', r.randint(0, 1), .3); p('frameid', 100, .1); p('timing', 100, .1); p('meta', 40, .2); p('pad', 40, .1); p('gm', 60, .15); p('compref', 90, .2); p('newseq', 30, .08)
    if 'seg' in c and r.random() < .5: c['segkeep'] = 80; c['frames'] += 2
    if r.random() < .06: c['slayers'] = r.choice([2, 3]); c['tlayers'] = r.choice([1, 2]); c['w'] = max(c['w'], 32); c['h'] = max(c['h'], 32)
    return c
def generate(c, n, tag='g', **fix):
    """n random-tile streams, names returned; deterministic in the check's seed"""
    exe = gen_exe(); out = []; jobs = []
    for i in range(n):
        cf = gcfg(c.rng); cf.update(fix); cf['seed'] = c.rng.randrange(1 << 30); f = f'{c.tmp}/{tag}{i}.obu'
        jobs.append(([exe] + [f'{k}={v}' for k, v in cf.items()] + [f], f, cf))
    import concurrent.futures as cfu
    with cfu.ThreadPoolExecutor(build.NPROC) as ex: rcs = list(ex.map(lambda j: subprocess.run(j[0], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60).returncode, jobs))
    return [(f, cf) for (_, f, cf), rc in zip(jobs, rcs) if rc == 0 and os.path.exists(f)]
KINDS = ['bitflip', 'bytes', 'hdrflip', 'hdrflip', 'trunc', 'truncobu', 'dropobu', 'dupobu', 'swapobu', 'tilerand', 'tilegrp', 'splice', 'sizeerr', 'zero', 'insert', 'obutype', 'seqmix']
def mutate(r, data, kind, other=None):
    b = bytearray(data)
    if kind == 'bitflip':
        for _ in range(r.choice([1, 1, 2, 4, 10])): i = r.randrange(len(b)); b[i] ^= 1 << r.randrange(8)
        return bytes(b)
    if kind == 'bytes':
        for _ in range(r.choice([1, 2, 4, 8])): b[r.randrange(len(b))] = r.choice([0, 255, 128, 127, r.randrange(256)])
        return bytes(b)
    if kind == 'trunc': return bytes(b[:r.randrange(1, len(b) + 1)])
    if kind == 'zero':
        i = r.randrange(len(b)); n = r.randint(1, 40); b[i:i + n] = bytes(min(n, len(b) - i)); return bytes(b)
    if kind == 'insert': i = r.randrange(len(b)); return bytes(b[:i] + bytes(r.randrange(256) for _ in range(r.randint(1, 9))) + b[i:])
    try: o = obu.parse(data)
    except Exception: return mutate(r, data, 'bitflip')
    k = r.randrange(len(o)); cand = [i for i, x in enumerate(o) if x.type in (obu.SEQ, obu.FRAME, obu.FRAME_HDR, obu.TILE_GRP) and x.payload]
    if kind == 'hdrflip' and cand:
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            x = o[r.choice(cand)]; p = bytearray(x.payload); i = r.randrange(min(len(p), 28)); p[i] ^= 1 << r.randrange(8); x.payload = bytes(p)
    elif kind == 'truncobu' and cand:
        x = o[r.choice(cand)]; x.payload = x.payload[:r.randrange(len(x.payload))]
    elif kind == 'dropobu': del o[k]
    elif kind == 'dupobu': o.insert(r.randrange(len(o) + 1), o[k])
    elif kind == 'swapobu' and len(o) > 1: j = r.randrange(len(o)); o[k], o[j] = o[j], o[k]
    elif kind == 'tilerand' and cand:
        x = o[r.choice(cand)]; p = bytearray(x.payload)
        if len(p) > 24:
            for i in range(r.randrange(20, len(p)), len(p)): p[i] = r.randrange(256)
        x.payload = bytes(p)
    elif kind == 'sizeerr':
        out = bytearray()
        for i, x in enumerate(o):
            h = x.write()
            if i == k: n = len(x.payload); n2 = max(0, n + r.choice([-2, -1, 1, 2, 100, 1 << 20, 1 << 28, (1 << 32) - n - 1])); h = h[:1 + (x.ext is not None)] + obu.wleb(n2) + x.payload
            out += h
        return bytes(out)
    elif kind == 'tilegrp':
        t = [i for i, x in enumerate(o) if x.type == obu.TILE_GRP]
        if not t: return mutate(r, data, 'hdrflip')
        for _ in range(r.choice([1, 1, 2])):
            i = r.choice(t); what = r.randrange(5)
            if what == 0: o.insert(i + r.randrange(2), o[i])
            elif what == 1: o[i] = obu.Obu(15, b'\x80')
            elif what == 2: j = r.choice(t); o[i], o[j] = o[j], o[i]
            else:       # start and end of the group; in place, or as one more group
                p = bytearray(o[i].payload)
                if p:
                    p[0] = r.choice([p[0] ^ 1 << r.randrange(8), r.randrange(256), p[0] & 127, 255, 128])
                    x = obu.Obu(obu.TILE_GRP, p, o[i].ext)
                    if what == 3: o[i] = x
                    else: o.insert(i, x)
    elif kind == 'obutype': o[k].type = r.randrange(16)
    elif kind in ('splice', 'seqmix') and other:
        try: q = obu.parse(other)
        except Exception: return mutate(r, data, 'bitflip')
        if kind == 'splice': o = o[:k] + q[r.randrange(len(q)):]
        else:
            s = [x for x in q if x.type == obu.SEQ]
            if s: o.insert(k, s[0])
    elif cand: return mutate(r, data, 'bitflip')
    return obu.join(o) or data
def mutants(c, names, n, tag='m', kinds=KINDS, stack=True):
    out = []; raw = {}
    def get(nm):
        if nm not in raw: raw[nm] = open(core.stream(nm), 'rb').read()
        return raw[nm]
    for i in range(n):
        nm = c.rng.choice(names); d = get(nm); k = c.rng.choice(kinds); d = mutate(c.rng, d, k, get(c.rng.choice(names))); ks = k
        while stack and c.rng.random() < .25: k = c.rng.choice(kinds); d = mutate(c.rng, d, k, get(c.rng.choice(names))) if d else d; ks += '+' + k
        if not d: continue
        f = f'{c.tmp}/{tag}{i}.obu'; open(f, 'wb').write(d); out.append((f, f'{nm}:{ks}'))
    return out
