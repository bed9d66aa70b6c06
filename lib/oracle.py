"""Trace monitor: pictures the model predicts against the pictures a run returned."""
import re
from . import av1, obu, core
M64 = (1 << 64) - 1
def parse_out(q):
    """-> list of dict(P=fields, line, hs, hf, t35=[(cc, ext, bytes)])"""
    out = []
    for l in q.out.splitlines():
        if l.startswith('P '):
            f = core.fields(l); x = l.split(); f['wh'], f['l'], f['b'] = x[4], x[5], x[6]; out.append(dict(P=f, line=l, hs=None, hf=None, t35=[]))
        elif l.startswith('HS'): out[-1]['hs'] = l[3:]
        elif l.startswith('HF'): out[-1]['hf'] = l[3:]
        elif l.startswith('T '): x = l.split(' '); out[-1]['t35'].append((int(x[1]), int(x[2]), bytes.fromhex(x[3])))
    return out
def expect_props(k, off, sz): return {'ts': str(1000 + 10 * k), 'dur': str(7 + k % 5), 'off': str(100000 + off), 'sz': str(sz), 'ud': f'u{k}'}
def packets_of(data, mode, lens=None):
    """the packets vdec makes of data: [(offset, size, [Obu])]"""
    os_ = obu.parse(data); cuts = []
    if mode == 'all': cuts = [os_]
    elif mode == 'obu': cuts = [[o] for o in os_]
    else: cuts = obu.tus(os_)
    return [(c[0].off, sum(o.size for o in c), c) for c in cuts]
def model_run(pkts, **k):
    m = av1.Model(**k)
    for i, (_, _, o) in enumerate(pkts): m.packet(o, i)
    return m
def diff_text(a, b):
    x, y = a.split(), b.split(); d = [f'{u} (coded) vs {v} (returned)' for u, v in zip(x, y) if u != v]
    return ', '.join(d[:4]) or f'{len(x)} vs {len(y)} fields'
def compare(exp, got, pkts, parts):
    """first discrepancy as (kind, text) or None; parts: subset of 'size hdr props meta event count'"""
    if 'count' in parts and len(exp) != len(got): return 'count', f'{len(got)} pictures returned, {len(exp)} predicted'
    for i, (p, g) in enumerate(zip(exp, got)):
        h, s, P = p['h'], p['s'], g['P']
        if 'size' in parts:
            w = (f'{h["uw"]}x{h["h"]}', f'l{s["layout"]}', f'b{8 + 2 * s["hbd"]}', str(h['ft']), str(h['sid']), str(h['tid']), str(h['show']))
            v = (P['wh'], P['l'], P['b'], P['ft'], P['sid'], P['tid'], P['sf'])
            if w != v: return 'size', f'picture {i}: predicted {w}, returned {v}'
        if 'hdr' in parts and g['hs'] is not None:
            for nm, a, b in (('sequence', av1.seq_text(s), g['hs']), ('frame', av1.frame_text(h), g['hf'])):
                if a != b: return f'{nm} header {re.sub("[=(].*", "", diff_text(a, b))}', f'picture {i}: {nm} header: {diff_text(a, b)}'
        if 'props' in parts:
            k = p['pkt']; w = expect_props(k, pkts[k][0], pkts[k][1])
            for n, v in w.items():
                if P[n] != v: return f'property {n}', f'picture {i} (packet {k}): {n} is {P[n]}, should be {v}'
        if 'meta' in parts:
            w = '-' if p['cll'] is None else '%d,%d' % p['cll']
            if P['cll'] != w: return 'content light level', f'picture {i}: content light level {P["cll"]}, should be {w}'
            w = '-' if p['mdcv'] is None else ','.join(map(str, p['mdcv']))
            if P['md'] != w: return 'mastering display', f'picture {i}: mastering display {P["md"]}, should be {w}'
            if g['t35'] != p['t35']: return 't35', f'picture {i}: {len(g["t35"])} T.35 messages {g["t35"]}, should be {p["t35"]}'[:800]
        if 'event' in parts and int(P['ev']) != p['ev']: return 'event', f'picture {i}: event flags {P["ev"]}, should be {p["ev"]}'
    return None
