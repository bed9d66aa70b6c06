"""Containers (written from their specifications, independent of dav1d's readers) and runs of the monitored command-line tool."""
import os, struct, shutil
from fractions import Fraction
from . import obu, core
M64 = (1 << 64) - 1
def mix(h, v): h = ((h ^ v) * 0x9E3779B97F4A7C15) & M64; return h ^ h >> 29
def vhash(b, h=0):
    n = len(b) // 8
    for v in struct.unpack(f'<{n}Q', b[:8 * n]): h = mix(h, v)
    for x in b[8 * n:]: h = mix(h, 0x100 + x)
    return f'{h:016x}'
# ---------------- containers ----------------
def ivf(tus, ts=None, tb=(25, 1), length=None, fourcc=b'AV01', version=0, hdr=32, w=64, h=64, sig=b'DKIF'):
    """-> bytes, [(offset, ts, payload)]"""
    p = [t if isinstance(t, bytes) else obu.join(t) for t in tus]; ts = ts or list(range(len(p)))
    o = bytearray(sig + struct.pack('<HH', version, hdr) + fourcc + struct.pack('<HHIIII', w, h, tb[0], tb[1], len(p) if length is None else length, 0)); info = []
    for x, t in zip(p, ts): info.append((len(o), t, x)); o += struct.pack('<IQ', len(x), t & M64) + x
    return bytes(o), info
def annexb(tus, r=None, split=True, sized=None, lebn=0):
    """-> bytes, [obu bytes]; frame units end after a frame's last OBU when split"""
    o = bytearray(); info = []; L = (lambda: r.choice([0, 0, 0, 2, 4, 8])) if r and lebn else (lambda: 0)
    for t in tus:
        fus = [[]]; seen = 0
        for x in t:
            if x.type in (obu.FRAME, obu.FRAME_HDR) and seen and (split if not r else split and r.random() < .8): fus.append([])
            if x.type in (obu.FRAME, obu.FRAME_HDR): seen = 1
            fus[-1].append(x)
        tu = bytearray()
        for f in fus:
            fu = bytearray()
            for x in f:
                sz = sized if sized is not None else (r.random() < .5 if r else False)
                b = x.write(size_field=sz, lebn=L()) if sz else x.write(size_field=False)
                fu += obu.wleb(len(b), L()) + b; info.append(b)
            tu += obu.wleb(len(fu), L()) + fu
        o += obu.wleb(len(tu), L()) + tu
    return bytes(o), info
def annexb_over(tus, r):
    """a file in which one OBU's size exceeds its frame unit or a frame unit's its temporal unit -> bytes, number of OBUs before it"""
    units = []
    for t in tus:                                       # temporal units of frame units of OBUs
        fus = [[]]; seen = 0
        for x in t:
            if x.type in (obu.FRAME, obu.FRAME_HDR):
                if seen: fus.append([])
                seen = 1
            fus[-1].append(x.write(size_field=False))
        units.append(fus)
    ti = r.randrange(len(units)); fi = r.randrange(len(units[ti])); oi = r.randrange(len(units[ti][fi])); outer = r.random() < .3; at = sum(len(f) for t in units[:ti] for f in t) + sum(len(f) for f in units[ti][:fi]) + (0 if outer else oi)
    o = bytearray()
    for a, t in enumerate(units):
        tu = bytearray()
        for b, f in enumerate(t):
            fu = bytearray(); left = sum(len(obu.wleb(len(x))) + len(x) for x in f)
            for d, x in enumerate(f):
                k = len(x)
                if not outer and (a, b, d) == (ti, fi, oi): k = left - len(obu.wleb(k)) + r.choice([1, 1, 2, 3, 50])       # at least one byte too many
                fu += obu.wleb(k, len(obu.wleb(len(x))) if k < 1 << 7 * len(obu.wleb(len(x))) else 0) + x; left -= len(obu.wleb(len(x))) + len(x)
            tu += obu.wleb(len(fu)) + fu
        if outer and a == ti:
            tu = bytearray()
            for b, f in enumerate(t):
                fu = b''.join(obu.wleb(len(x)) + x for x in f); rest = sum(len(obu.wleb(len(y := b''.join(obu.wleb(len(x)) + x for x in g)))) + len(y) for g in t[b:]) if b == fi else 0
                tu += obu.wleb(rest - len(obu.wleb(len(fu))) + r.choice([1, 2, 60]) if b == fi else len(fu)) + fu
        o += obu.wleb(len(tu)) + tu
    return bytes(o), at
def section5(tus): p = [obu.join(t) for t in tus]; return b''.join(p), p
def ivf_rate(tb, n, length):
    """(num, den) the file declares: rate/scale scaled by frames per unit of its length field"""
    a, b = tb[0] * n, tb[1] * length
    if not a or not b: return 0, 0
    f = Fraction(a, b); a, b = f.numerator, f.denominator
    while a >> 32 or b >> 32: a >>= 1; b >>= 1
    return (a, b) if a and b else (0, 0)
# ---------------- runs ----------------
class Run:
    """one run of the tool in its own scratch directory"""
    __slots__ = ('dir', 'args', 'opts', 'exe', 'q', 'files', 'note', 'inputs')
def prepare(c, exe, inputs, args, opts=(), dump=True, note=None, links=None):
    n = c.cov.setdefault('tool_runs', 0); c.cov['tool_runs'] += 1; u = Run(); u.dir = f'{c.tmp}/r{n}'; os.mkdir(u.dir); os.chmod(u.dir, 0o777)
    for k, b in inputs.items():
        p = f'{u.dir}/{k}'; open(p, 'wb').write(b); os.chmod(p, 0o644)
    u.args = list(args); u.exe = exe; u.note = note; u.inputs = set(inputs); u.opts = [f'dir={u.dir}'] + ([f'dump={c.tmp}/r{n}.raw'] if dump else []) + list(opts); return u
def execute(c, runs):
    for u in runs: assert not any(ch in a for a in u.args for ch in '\t\n\0')
    for u, q in zip(runs, c.run_jobs([(u.exe, u.opts + ['--'] + ['=' + a for a in u.args]) for u in runs])):
        u.q = q; u.files = {}
        for d, _, fs in os.walk(u.dir):
            for f in fs: p = os.path.join(d, f); u.files[os.path.relpath(p, u.dir)] = p
        for k in u.inputs: u.files.pop(k, None)
    return runs
def data(u, name):
    try: return open(u.files[name], 'rb').read()
    except (KeyError, OSError): return None
def dump(u):
    for o in u.opts:
        if o.startswith('dump='): return open(o[5:], 'rb').read()
def pics(u): return [pic(l) for l in u.q.lines('P')]
def pic(l):
    x = l.split(); f = core.fields(l); return dict(w=int(x[1]), h=int(x[2]), lay=int(x[3]), bpc=int(x[4]), key=f'{x[1]}x{x[2]} l{x[3]} b{x[4]} {f["v"]}', **{k: (int(v) if v.lstrip('-').isdigit() else v) for k, v in f.items() if k not in ('v',)})
def sent(u): return [(int(x[1]), x[2], int(x[3]), int(x[4]), int(x[6])) for x in (l.split() for l in u.q.lines('D'))]      # size hash ts off rc
def packets(u):
    """the packets handed to the library, each once (a packet refused with EAGAIN is offered again)"""
    out = []; again = 0
    for s in sent(u):
        if not again: out.append(s[:4])
        again = s[4] == -11
    return out
def done(u):
    l = u.q.lines('Z'); return core.fields(l[-1]) if l else {}
def clean(u): shutil.rmtree(u.dir, ignore_errors=True); [os.unlink(o[5:]) for o in u.opts if o.startswith('dump=') and os.path.exists(o[5:])]
def settings(u):
    l = u.q.lines('O'); return core.fields(l[0]) if l else None
def show(u): return f'cwd {u.dir}\nargs {u.args}\nrc {u.q.rc}\n{u.q.out[-4000:]}\n--- stderr\n{u.q.err[-3000:]}'
