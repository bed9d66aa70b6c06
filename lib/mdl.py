"""Shared machinery of the checks that compare runs with the independent stream model (lib/av1.py, lib/oracle.py)."""
from . import av1, obu, oracle, core
_raw = {}
def load(name):
    if name not in _raw: _raw[name] = open(core.stream(name), 'rb').read()
    return _raw[name]
def parsed(name): return obu.parse(load(name))
def is_lay(name): return name.startswith('lay/')
def group(r, obus, mode):
    """cut a list of OBUs into packets"""
    if mode == 'tu': return obu.tus(obus)
    if mode == 'obu': return [[o] for o in obus]
    if mode == 'all': return [obus]
    if mode == 'tus':                                   # several whole temporal units each
        out = [[]]
        for t in obu.tus(obus):
            out[-1] += t
            if r.random() < .5: out.append([])
        return [p for p in out if p]
    out = [[]]
    for o in obus:
        out[-1].append(o)
        if r.random() < .4: out.append([])
    return [p for p in out if p]
def case(c, tag, pkts, write=obu.join):
    """write packets for vdec's pk=sz: format -> (file, [(offset, size, obus)])"""
    f = f'{c.tmp}/{tag}.sz'; P = []; off = 0; b = bytearray()
    for p in pkts:
        w = write(p)
        if not w: continue
        P.append((off + 4, len(w), p)); b += len(w).to_bytes(4, 'little') + w; off = len(b)
    open(f, 'wb').write(b); return f, P
def thr(r, p=.5):
    a = []
    if r.random() < p:
        a.append(f'threads={r.choice([2, 3, 4, 8])}')
        if r.random() < .8: a.append(f'delay={r.choice([1, 2, 3, 4, 8])}')
    return a
def lay_args(r, lay, tu_only=False):
    """random operating point, layer and hidden-frame settings inside what the properties state"""
    op = r.choice([0, r.randrange(8)]) if lay else r.choice([0, 0, 0, r.randrange(32)])
    al = r.choice([0, 1, 1]) if tu_only else 1
    iv = r.choice([0, 0, 1]) if al else 0
    return op, al, iv
def model_args(op, al, iv): return [f'op={op}', f'all={al}', f'invis={iv}']
def judge(c, q, P, op, al, iv, parts, what, files, need_clean=True):
    """True when the run was compared and agreed"""
    if not c.judge(q, what): return False
    rs = q.lines('R')
    if rs:
        if need_clean: c.violation(f'rejected {what.split()[0]}', f'{what}: valid stream rejected: {rs[0]}', q.out, files)
        else: c.count('runs_with_error_returns')
        return False
    try: m = oracle.model_run(P, op=op, all_layers=al, invis=iv)
    except (av1.Bad, ValueError, IndexError, KeyError, TypeError) as e:
        if need_clean: raise
        c.count('outside_the_model'); return False
    exp, got = m.outputs(), oracle.parse_out(q)
    x = oracle.compare(exp, got, P, parts)
    if x:
        c.violation(f'{x[0]}', f'{what}: {x[1]}', ' '.join(q.args) + '\n' + q.out, files); return False
    c.count('pictures_compared', len(got)); return m
