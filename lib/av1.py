"""Independent model of AV1 headers and of the order and attributes of output pictures, written from the AV1
specification (sections 5.5, 5.9, 7.8, 7.18, 7.20, 7.21, 5.8): which pictures a stream outputs, with which coded
header values, from which packet, with which metadata and events.  It never looks at sample data."""
from . import obu
class Bits:
    def __init__(s, b): s.b, s.p, s.v, s.n = b, 0, int.from_bytes(b, 'big'), 8 * len(b)
    def f(s, n):
        if s.p + n > s.n: raise Bad('overrun')
        s.p += n; return s.v >> (s.n - s.p) & ((1 << n) - 1)
    def su(s, n): v = s.f(n); return v - (1 << n) if v >> (n - 1) else v
    def ns(s, n):
        w = n.bit_length(); m = (1 << w) - n; v = s.f(w - 1)
        return v if v < m else (v << 1) - m + s.f(1)
    def uvlc(s):
        z = 0
        while not s.f(1):
            z += 1
            if z >= 32: break
        if z >= 32:
            return 0xFFFFFFFF
        return s.f(z) + (1 << z) - 1
    def subexp(s, num):
        i = mk = 0
        while 1:
            b2 = 3 + i - 1 if i else 3; a = 1 << b2
            if num <= mk + 3 * a: return s.ns(num - mk) + mk
            if not s.f(1): return s.f(b2) + mk
            i += 1; mk += a
    def subexp_ref(s, lo, hi, r):
        mx, r = hi - lo, r - lo; v = s.subexp(mx)
        def rec(r, v): return v if v > 2 * r else r - ((v + 1) >> 1) if v & 1 else r + (v >> 1)
        return (rec(r, v) if 2 * r <= mx else mx - 1 - rec(mx - 1 - r, v)) + lo
class Bad(Exception): pass
class TooBig(Exception): pass
KEY, INTER, INTRA, SWITCH = range(4)
def tile_log2(b, t):
    k = 0
    while (b << k) < t: k += 1
    return k
def u8(v): return v & 255
def txt(l): return ' '.join(f'{k}={",".join(map(str, v)) if isinstance(v, (list, tuple)) else v}' for k, v in l)
# ---------------- sequence header ----------------
def sequence(b, strict=False):
    r = Bits(b); s = {}; s['profile'] = r.f(3)
    if s['profile'] > 2: raise Bad('profile')
    s['still'] = r.f(1); s['reduced'] = r.f(1)
    if s['reduced'] and not s['still']: raise Bad('reduced')
    z = dict(timing=0, nuit=0, ts=0, epi=0, ntpp=0, dmi=0, edbdl=0, nuidt=0, brdl=0, fpdl=0, display=0); s.update(z); s['ops'] = []; ob = s['opi_bits'] = []; fb = s['free_bits'] = []
    if s['reduced']: l = r.f(5); s['ops'].append(dict(idc=0, lvl=l, tier=0, dm=0, disp=0, idd=10, dbd=0, ebd=0, ldm=0))
    else:
        s['timing'] = r.f(1)
        if s['timing']:
            s['nuit_pos'] = r.p; fb.append((r.p, 64)); s['nuit'] = r.f(32); s['ts'] = r.f(32); s['epi'] = r.f(1)
            if s['epi']:
                n = r.uvlc()
                if n == 0xFFFFFFFF: raise Bad('ticks')
                s['ntpp'] = n + 1
            s['dmi'] = r.f(1)
            if s['dmi']: s['edbdl'] = r.f(5) + 1; s['nuidt_pos'] = r.p; s['nuidt'] = r.f(32); s['brdl'] = r.f(5) + 1; s['fpdl'] = r.f(5) + 1
        s['display'] = r.f(1)
        for i in range(r.f(5) + 1):
            o = dict(tier=0, dm=0, disp=0, idd=10, dbd=0, ebd=0, ldm=0); o['idc'] = r.f(12)
            if o['idc'] and (not o['idc'] & 255 or not o['idc'] >> 8): raise Bad('idc')
            o['lvl'] = r.f(5)
            if o['lvl'] > 7: o['tier'] = r.f(1)
            if s['dmi']:
                o['dm'] = r.f(1)
                if o['dm']: ob.append((r.p, 2 * s['edbdl'] + 1)); o['dbd'] = r.f(s['edbdl']); o['ebd'] = r.f(s['edbdl']); o['ldm'] = r.f(1)
            if s['display']:
                o['disp'] = r.f(1)
                if o['disp']: fb.append((r.p, 4)); o['idd'] = r.f(4) + 1
            s['ops'].append(o)
    s['size_pos'] = r.p; s['wb'] = r.f(4) + 1; s['hb'] = r.f(4) + 1; s['mw'] = r.f(s['wb']) + 1; s['mh'] = r.f(s['hb']) + 1
    s['fid'] = s['dfid'] = s['fidn'] = 0
    if not s['reduced']:
        s['fid'] = r.f(1)
        if s['fid']: s['dfid'] = r.f(4) + 2; s['fidn'] = r.f(3) + s['dfid'] + 1
    s['sb128'] = r.f(1); s['fi'] = r.f(1); s['ie'] = r.f(1)
    s.update(ii=0, mc=0, wm=0, dual=0, oh=0, jnt=0, rfmv=0, ohb=0); s['sct'] = s['imv'] = 2
    if not s['reduced']:
        s['ii'] = r.f(1); s['mc'] = r.f(1); s['wm'] = r.f(1); s['dual'] = r.f(1); s['oh'] = r.f(1)
        if s['oh']: s['jnt'] = r.f(1); s['rfmv'] = r.f(1)
        s['sct'] = 2 if r.f(1) else r.f(1)
        s['imv'] = 2
        if s['sct']: s['imv'] = 2 if r.f(1) else r.f(1)
        if s['oh']: s['ohb'] = r.f(3) + 1
    s['sr'] = r.f(1); s['cdef'] = r.f(1); s['lr'] = r.f(1)
    s['hbd'] = r.f(1)
    if s['profile'] == 2 and s['hbd']: s['hbd'] += r.f(1)
    s['mono'] = 0 if s['profile'] == 1 else r.f(1)
    s['cdp'] = r.f(1); s['pri'] = s['trc'] = s['mtrx'] = 2
    s['mtrx_pos'] = r.p + 16
    if s['cdp']: s['pri'] = r.f(8); s['trc'] = r.f(8); s['mtrx'] = r.f(8)
    s['ssh'] = s['ssv'] = s['chr'] = s['suv'] = 0
    if s['mono']: fb.append((r.p, 1)); s['range'] = r.f(1); s['ssh'] = s['ssv'] = 1
    else:
        if (s['pri'], s['trc'], s['mtrx']) == (1, 13, 0):
            s['range'] = 1
            if not (s['profile'] == 1 or s['profile'] == 2 and s['hbd'] == 2): raise Bad('srgb')
        else:
            s['range'] = r.f(1)
            if s['profile'] == 0: s['ssh'] = s['ssv'] = 1
            elif s['profile'] == 2:
                if s['hbd'] == 2:
                    s['ssh'] = r.f(1)
                    if s['ssh']: s['ssv'] = r.f(1)
                else: s['ssh'] = 1
            if s['ssh'] and s['ssv']: fb.append((r.p, 2)); s['chr_pos'] = r.p; s['chr'] = r.f(2)
        s['suv'] = r.f(1)
    s['layout'] = 0 if s['mono'] else 3 if not s['ssh'] else 1 if s['ssv'] else 2
    s['fg'] = r.f(1); s['end'] = r.p
    if strict and (s['timing'] and not (s['nuit'] and s['ts']) or s['dmi'] and not s['nuidt'] or s['mtrx'] == 0 and s['layout'] != 3): raise Bad('strict')
    return s
def seq_text(s):
    t = [('profile', s['profile']), ('max_width', s['mw']), ('max_height', s['mh']), ('layout', s['layout']), ('pri', s['pri']), ('trc', s['trc']), ('mtrx', s['mtrx']), ('chr', s['chr']), ('hbd', s['hbd']), ('color_range', s['range']), ('num_operating_points', len(s['ops']))]
    for i, o in enumerate(s['ops']):
        t += [('op', i), ('maj', 2 + (o['lvl'] >> 2)), ('min', o['lvl'] & 3), ('idd', o['idd']), ('idc', o['idc']), ('tier', o['tier']), ('dm', o['dm']), ('disp', o['disp'])]
        if o['dm']: t += [('dbd', o['dbd']), ('ebd', o['ebd']), ('ldm', o['ldm'])]
    t += [('still_picture', s['still']), ('reduced_still_picture_header', s['reduced']), ('timing_info_present', s['timing']), ('num_units_in_tick', s['nuit']), ('time_scale', s['ts']), ('equal_picture_interval', s['epi']), ('num_ticks_per_picture', s['ntpp']), ('decoder_model_info_present', s['dmi']), ('encoder_decoder_buffer_delay_length', s['edbdl']), ('num_units_in_decoding_tick', s['nuidt']), ('buffer_removal_delay_length', s['brdl']), ('frame_presentation_delay_length', s['fpdl']), ('display_model_info_present', s['display']), ('width_n_bits', s['wb']), ('height_n_bits', s['hb']), ('frame_id_numbers_present', s['fid']), ('delta_frame_id_n_bits', s['dfid']), ('frame_id_n_bits', s['fidn']), ('sb128', s['sb128']), ('filter_intra', s['fi']), ('intra_edge_filter', s['ie']), ('inter_intra', s['ii']), ('masked_compound', s['mc']), ('warped_motion', s['wm']), ('dual_filter', s['dual']), ('order_hint', s['oh']), ('jnt_comp', s['jnt']), ('ref_frame_mvs', s['rfmv']), ('screen_content_tools', s['sct']), ('force_integer_mv', s['imv']), ('order_hint_n_bits', s['ohb']), ('super_res', s['sr']), ('cdef', s['cdef']), ('restoration', s['lr']), ('ss_hor', s['ssh']), ('ss_ver', s['ssv']), ('monochrome', s['mono']), ('color_description_present', s['cdp']), ('separate_uv_delta_q', s['suv']), ('film_grain_present', s['fg'])]
    return txt(t)
def seq_key(s): return {k: v for k, v in s.items() if k not in ('ops', 'end', 'opi_bits', 'free_bits', 'chr_pos', 'size_pos', 'mtrx_pos', 'nuit_pos', 'nuidt_pos')}, [{k: v for k, v in o.items() if k not in ('dbd', 'ebd', 'ldm')} for o in s['ops']]
def seq_opi(s): return [(o['dbd'], o['ebd'], o['ldm']) for o in s['ops']]
# ---------------- frame header ----------------
GM0 = [0, 0, 1 << 16, 0, 0, 1 << 16]
NOGRAIN = dict(seed=0, y=[], csfl=0, uv=[[], []], ss=0, lag=0, ary=[], aruv=[[], []], acs=0, gss=0, mul=[None, None], ov=0, clip=0)
def reldist(s, a, b):
    if not s['oh']: return 0
    d = a - b; m = 1 << (s['ohb'] - 1); return (d & (m - 1)) - (d & m)
def frame(s, refs, b, tid, sid):
    """-> header dict (h['show_existing'] set for the short form); h['bits'] = bits consumed"""
    r = Bits(b); h = dict(tid=tid, sid=sid, se=0, fid=0, fpd=0, s=s)
    if not s['reduced']:
        h['se'] = r.f(1)
        if h['se']:
            h['idx'] = r.f(3)
            if s['dmi'] and not s['epi']: h['fpd'] = r.f(s['fpdl'])
            if s['fid']: h['fid'] = r.f(s['fidn'])
            h['bits'] = r.p; return h
    ft = h['ft'] = KEY if s['reduced'] else r.f(2); show = h['show'] = 1 if s['reduced'] else r.f(1)
    if show:
        if s['dmi'] and not s['epi'] and not s['reduced']: h['fpd'] = r.f(s['fpdl'])
        h['showable'] = int(ft != KEY)
    else: h['showable'] = r.f(1)
    h['err'] = 1 if ft == SWITCH or ft == KEY and show or s['reduced'] else r.f(1)
    intra = ft in (KEY, INTRA); h['ncu'] = r.f(1)
    h['sct'] = r.f(1) if s['sct'] == 2 else s['sct']
    h['imv'] = (r.f(1) if s['imv'] == 2 else s['imv']) if h['sct'] else 0
    if intra: h['imv'] = 1
    if s['fid']: h['fid'] = r.f(s['fidn'])
    h['fso'] = 1 if ft == SWITCH else 0 if s['reduced'] else r.f(1)
    h['oh'] = r.f(s['ohb']) if s['oh'] else 0
    prf = h['prf'] = 7 if intra or h['err'] else r.f(3)
    h['brtp'] = 0; h['brt'] = []
    if s['dmi']:
        h['brtp'] = r.f(1)
        if h['brtp']:
            for o in s['ops']:
                if o['dm'] and (not o['idc'] or (o['idc'] >> tid & 1 and o['idc'] >> (sid + 8) & 1)): h['brt'].append(r.f(s['brdl']))
                else: h['brt'].append(0)
    h['rffp'] = r.p; h['rff'] = 255 if ft == SWITCH or ft == KEY and show else r.f(8)
    if (not intra or h['rff'] != 255) and h['err'] and s['oh']:
        for _ in range(8): r.f(s['ohb'])
    def superres():
        h['sre'] = r.f(1) if s['sr'] else 0; h['srd'] = r.f(3) + 9 if h['sre'] else 8; h['uw'] = h['w']
        if h['sre']: h['w'] = max((h['uw'] * 8 + (h['srd'] >> 1)) // h['srd'], min(16, h['uw']))
    def framesize():
        if h['fso']: h['w'] = r.f(s['wb']) + 1; h['h'] = r.f(s['hb']) + 1
        else: h['w'], h['h'] = s['mw'], s['mh']
        superres(); h['hrs'] = r.f(1)
        if h['hrs']: h['rw'] = r.f(16) + 1; h['rh'] = r.f(16) + 1
        else: h['rw'], h['rh'] = h['uw'], h['h']
    h['ibc'] = h['hp'] = h['sub'] = h['smm'] = h['rfmv'] = h['short'] = 0; h['ref'] = [0] * 7; h['rid'] = []
    if intra:
        framesize()
        if h['sct'] and h['uw'] == h['w']: h['ibc'] = r.f(1)
    else:
        if s['oh']: h['short'] = r.f(1)
        if h['short']: l = r.f(3); g = r.f(3); h['ref'] = set_frame_refs(s, refs, h['oh'], l, g)
        for i in range(7):
            if not h['short']: h['ref'][i] = r.f(3)
            if s['fid']: h['rid'].append((h['fid'] - r.f(s['dfid']) - 1) & ((1 << s['fidn']) - 1))
        found = 0
        if h['fso'] and not h['err']:
            for i in range(7):
                if r.f(1): found = 1; break
        if found:
            q = refs[h['ref'][i]]
            if q is None: raise Bad('size from a missing reference')
            h['w'], h['h'], h['rw'], h['rh'] = q['uw'], q['h'], q['rw'], q['rh']; h['hrs'] = 0; superres()
        else: framesize()
        h['hp'] = 0 if h['imv'] else r.f(1); h['sub'] = 4 if r.f(1) else r.f(2); h['smm'] = r.f(1)
        if not h['err'] and s['rfmv']: h['rfmv'] = r.f(1)
    h['rc'] = 0 if s['reduced'] or h['ncu'] else 1 - r.f(1)
    # tiles
    sh = 7 if s['sb128'] else 6; sbc = (h['w'] + (1 << sh) - 1) >> sh; sbr = (h['h'] + (1 << sh) - 1) >> sh
    mtw = 4096 >> sh; mta = (4096 * 2304) >> (2 * sh); mn = tile_log2(mtw, sbc); mxc = tile_log2(1, min(sbc, 64)); mxr = tile_log2(1, min(sbr, 64)); mnt = max(mn, tile_log2(mta, sbr * sbc))
    h['tu'] = r.f(1)
    if h['tu']:
        lc = mn
        while lc < mxc and r.f(1): lc += 1
        tw = (sbc + (1 << lc) - 1) >> lc; cs = list(range(0, sbc, tw))
        lr = max(mnt - lc, 0)
        while lr < mxr and r.f(1): lr += 1
        th = (sbr + (1 << lr) - 1) >> lr; rs = list(range(0, sbr, th))
    else:
        cs = []; x = wide = 0
        while x < sbc and len(cs) < 64: cs.append(x); n = r.ns(min(sbc - x, mtw)) + 1; wide = max(wide, n); x += n
        lc = tile_log2(1, len(cs)); area = sbr * sbc >> (mnt + 1) if mnt else sbr * sbc; mh = max(area // wide, 1); rs = []; y = 0
        while y < sbr and len(rs) < 64: rs.append(y); y += r.ns(min(sbr - y, mh)) + 1
        lr = tile_log2(1, len(rs))
    h['cs'], h['rs'], h['lc'], h['lr'] = cs + [sbc], rs + [sbr], lc, lr; h['tupd'] = 0; h['tsb'] = 0
    if lc or lr:
        h['tupd'] = r.f(lc + lr); h['tsb'] = r.f(2) + 1
        if h['tupd'] >= len(cs) * len(rs): raise Bad('context tile')
    h['ntiles'] = len(cs) * len(rs)
    # quantiser
    dq = lambda: r.su(7) if r.f(1) else 0
    q = h['q'] = dict(yac=r.f(8)); q['ydc'] = dq(); q['udc'] = q['uac'] = q['vdc'] = q['vac'] = 0
    if not s['mono']:
        diff = r.f(1) if s['suv'] else 0; q['udc'] = dq(); q['uac'] = dq()
        if diff: q['vdc'] = dq(); q['vac'] = dq()
        else: q['vdc'], q['vac'] = q['udc'], q['uac']
    q['qm'] = r.f(1)
    if q['qm']: q['qmy'] = r.f(4); q['qmu'] = r.f(4); q['qmv'] = r.f(4) if s['suv'] else q['qmu']
    # segmentation
    prev = refs[h['ref'][prf]] if prf != 7 else None
    if prf != 7 and prev is None: raise Bad('primary reference missing')
    sg = h['seg'] = dict(on=r.f(1), um=0, tmp=0, ud=0); off = dict(d=[[0, 0, 0, 0, 0, -1, 0, 0] for _ in range(8)], pre=0, last=0)
    if sg['on']:
        if prf == 7: sg['um'] = sg['ud'] = 1
        else:
            sg['um'] = r.f(1)
            if sg['um']: sg['tmp'] = r.f(1)
            sg['ud'] = r.f(1)
        if sg['ud']:
            sg['d'] = dict(d=[], pre=0, last=-1)
            for i in range(8):
                v = [0, 0, 0, 0, 0, -1, 0, 0]
                for j, n in enumerate((9, 7, 7, 7, 7, 3, 0, 0)):
                    if r.f(1): v[j] = 1 if j > 5 else r.f(3) if j == 5 else r.su(n); sg['d']['last'] = i; sg['d']['pre'] |= j >= 5
                sg['d']['d'].append(v)
        else: sg['d'] = prev['seg']['d']
    else: sg['d'] = off
    # deltas
    h['dq'] = r.f(1) if q['yac'] else 0; h['dqr'] = r.f(2) if h['dq'] else 0
    h['dlf'] = r.f(1) if h['dq'] and not h['ibc'] else 0; h['dlr'] = r.f(2) if h['dlf'] else 0; h['dlm'] = r.f(1) if h['dlf'] else 0
    h['qidx'] = [min(255, max(0, q['yac'] + d[0])) if sg['on'] else q['yac'] for d in sg['d']['d']]
    z = not any(q[k] for k in ('ydc', 'udc', 'uac', 'vdc', 'vac')); h['ll'] = [int(i == 0 and z) for i in h['qidx']]; cl = h['all'] = int(all(h['ll']))
    # deblocking
    l = h['lf'] = dict(y=[0, 0], u=0, v=0, sharp=0, en=1, ref=[1, 0, 0, 0, -1, 0, -1, -1], mode=[0, 0])
    if not (cl or h['ibc']):
        l['y'] = [r.f(6), r.f(6)]
        if not s['mono'] and any(l['y']): l['u'] = r.f(6); l['v'] = r.f(6)
        l['sharp'] = r.f(3)
        if prev: l['ref'], l['mode'] = list(prev['lf']['ref']), list(prev['lf']['mode'])
        l['en'] = r.f(1)
        if l['en'] and r.f(1):
            for i in range(8):
                if r.f(1): l['ref'][i] = r.su(7)
            for i in range(2):
                if r.f(1): l['mode'][i] = r.su(7)
    c = h['cdef'] = dict(damp=0, n=0, y=[0], uv=[0])
    if not (cl or h['ibc']) and s['cdef']:
        c['damp'] = r.f(2) + 3; c['n'] = r.f(2); c['y'] = []; c['uv'] = []
        for i in range(1 << c['n']): c['y'].append(r.f(6)); c['uv'].append(0 if s['mono'] else r.f(6))
    t = h['lrt'] = [0, 0, 0]; h['lru'] = [0, 0]
    if not (cl and h['w'] == h['uw']) and not h['ibc'] and s['lr']:
        for i in range(1 if s['mono'] else 3): t[i] = r.f(2)
        if any(t):
            if s['sb128']: n = r.f(1) + 1
            else:
                n = r.f(1)
                if n: n += r.f(1)
            h['lru'] = [6 + n, 6 + n]
            if s['ssh'] and s['ssv'] and (t[1] or t[2]): h['lru'][1] -= r.f(1)
    h['tx'] = 0 if cl else 2 if r.f(1) else 1
    h['scr'] = 0 if intra else r.f(1); sm = None
    if h['scr'] and s['oh']:
        bi = fi = -1; bh = fh = None; poc = [refs[i]['oh'] if refs[i] else None for i in h['ref']]
        if None in poc: raise Bad('reference missing')
        for i, x in enumerate(poc):
            if reldist(s, x, h['oh']) < 0:
                if bi < 0 or reldist(s, x, bh) > 0: bi, bh = i, x
            elif reldist(s, x, h['oh']) > 0 and (fi < 0 or reldist(s, x, fh) < 0): fi, fh = i, x
        if bi >= 0 and fi >= 0: sm = sorted((bi, fi))
        elif bi >= 0:
            si = -1; sh2 = None
            for i, x in enumerate(poc):
                if reldist(s, x, bh) < 0 and (si < 0 or reldist(s, x, sh2) > 0): si, sh2 = i, x
            if si >= 0: sm = sorted((bi, si))
    h['sm'] = sm; h['sme'] = r.f(1) if sm else 0
    h['wm'] = r.f(1) if not intra and not h['err'] and s['wm'] else 0
    h['rtx'] = r.f(1)
    h['gm'] = [(0, list(GM0)) for _ in range(7)]
    if not intra:
        for i in range(7):
            ty = 0
            if r.f(1): ty = 2 if r.f(1) else 1 if r.f(1) else 3
            m = list(GM0); pm = prev['gm'][i][1] if prev else GM0
            def param(k):
                ab, pb = 12, 15
                if k < 2: ab, pb = (9 - (not h['hp']), 3 - (not h['hp'])) if ty == 1 else (12, 6)
                d = 16 - pb; rnd, sub = (1 << 16, 1 << pb) if k % 3 == 2 else (0, 0)
                m[k] = (r.subexp_ref(-(1 << ab), (1 << ab) + 1, (pm[k] >> d) - sub) << d) + rnd
            if ty >= 2:
                param(2); param(3)
                if ty == 3: param(4); param(5)
                else: m[4], m[5] = -m[3], m[2]
            if ty >= 1: param(0); param(1)
            h['gm'][i] = (ty, m)
    h['fg'] = 0; h['fgu'] = 0; h['grain'] = NOGRAIN
    if s['fg'] and (show or h['showable']) and r.f(1):
        h['fg'] = 1; seed = r.f(16); h['fgu'] = r.f(1) if ft == INTER else 1
        if not h['fgu']:
            i = r.f(3)
            if i not in h['ref'] or refs[i] is None: raise Bad('grain reference')
            h['grain'] = dict(refs[i]['grain'], seed=seed)
        else:
            g = h['grain'] = dict(seed=seed)
            def pts(mx):
                o = []
                for k in range(r.f(4)):
                    if k >= mx: raise Bad('points')
                    a = r.f(8); o.append((a, r.f(8)))
                    if k and o[-2][0] >= a: raise Bad('points order')
                return o
            g['y'] = pts(14); g['csfl'] = 0 if s['mono'] else r.f(1); g['uv'] = [[], []]
            if not (s['mono'] or g['csfl'] or s['ssh'] and s['ssv'] and not g['y']): g['uv'] = [pts(10), pts(10)]
            if s['ssh'] and s['ssv'] and bool(g['uv'][0]) != bool(g['uv'][1]): raise Bad('uv points')
            g['ss'] = r.f(2) + 8; g['lag'] = r.f(2); n = 2 * g['lag'] * (g['lag'] + 1)
            g['ary'] = [r.f(8) - 128 for _ in range(n)] if g['y'] else []
            g['aruv'] = [[r.f(8) - 128 for _ in range(n + bool(g['y']))] if g['csfl'] or g['uv'][p] else [] for p in (0, 1)]
            g['acs'] = r.f(2) + 6; g['gss'] = r.f(2)
            g['mul'] = [(r.f(8) - 128, r.f(8) - 128, r.f(9) - 256) if g['uv'][p] else None for p in (0, 1)]
            g['ov'] = r.f(1); g['clip'] = r.f(1)
    h['bits'] = r.p; return h
def set_frame_refs(s, refs, oh, last, gold):
    if any(x is None for x in refs): raise Bad('short signalling with missing references')
    ref = [-1] * 7; ref[0], ref[3] = last, gold; used = [0] * 8; used[last] = used[gold] = 1; cur = 1 << (s['ohb'] - 1)
    sh = [cur + reldist(s, refs[i]['oh'], oh) for i in range(8)]
    def backward():
        b = -1; lo = 0
        for i in range(8):
            if not used[i] and sh[i] >= cur and (b < 0 or sh[i] >= lo): b, lo = i, sh[i]
        return b
    def early():
        b = -1; lo = 0
        for i in range(8):
            if not used[i] and sh[i] >= cur and (b < 0 or sh[i] < lo): b, lo = i, sh[i]
        return b
    def latest():
        b = -1; lo = 0
        for i in range(8):
            if not used[i] and sh[i] < cur and (b < 0 or sh[i] >= lo): b, lo = i, sh[i]
        return b
    for k, fn in ((6, backward), (4, early), (5, early)):
        b = fn()
        if b >= 0: ref[k] = b; used[b] = 1
    for k in (1, 2, 4, 5, 6):
        if ref[k] < 0:
            b = latest()
            if b >= 0: ref[k] = b; used[b] = 1
    b = -1; lo = 0
    for i in range(8):
        if b < 0 or sh[i] < lo: b, lo = i, sh[i]
    return [b if x < 0 else x for x in ref]
def frame_text(h):
    t = [('frame_type', h['ft']), ('w0', h['w']), ('w1', h['uw']), ('height', h['h']), ('frame_offset', h['oh']), ('temporal_id', h['tid']), ('spatial_id', h['sid']), ('show_existing_frame', 0), ('frame_id', h['fid']), ('frame_presentation_delay', h['fpd']), ('show_frame', h['show']), ('showable_frame', h['showable']), ('error_resilient_mode', h['err']), ('disable_cdf_update', h['ncu']), ('allow_screen_content_tools', h['sct']), ('force_integer_mv', h['imv']), ('frame_size_override', h['fso']), ('primary_ref_frame', h['prf']), ('buffer_removal_time_present', h['brtp'])]
    t += [('brt', x) for x in h['brt'] if x]
    t += [('refresh_frame_flags', h['rff']), ('render_width', h['rw']), ('render_height', h['rh']), ('srd', h['srd']), ('sre', h['sre']), ('have_render_size', h['hrs'])]
    intra = h['ft'] in (KEY, INTRA)
    t += [('allow_intrabc', h['ibc'])] if intra else [('frame_ref_short_signaling', h['short']), ('refidx', h['ref']), ('hp', h['hp']), ('subpel_filter_mode', h['sub']), ('switchable_motion_mode', h['smm']), ('use_ref_frame_mvs', h['rfmv'])]
    t += [('refresh_context', h['rc']), ('tu', h['tu']), ('tcols', len(h['cs']) - 1), ('trows', len(h['rs']) - 1), ('lc', h['lc']), ('lr', h['lr'])]
    t += [('c', x) for x in h['cs']] + [('r', x) for x in h['rs']] + [('tupd', h['tupd'])]
    q = h['q']; t += [(k, q[k]) for k in ('yac', 'ydc', 'udc', 'uac', 'vdc', 'vac', 'qm')]
    if q['qm']: t += [(k, q[k]) for k in ('qmy', 'qmu', 'qmv')]
    g = h['seg']; t += [('seg', g['on'])]
    if g['on']:
        t += [('um', g['um']), ('tmp', g['tmp']), ('ud', g['ud'])]
        for d in g['d']['d']: t += list(zip(('q', 'v', 'h', 'u', 'w', 'ref', 'sk', 'gm'), d))
        t += [('presk', int(g['d']['pre'])), ('last', g['d']['last'])]
    t += [('ll', h['ll']), ('qidx', h['qidx']), ('dq', h['dq'])]
    if h['dq']:
        t += [('dqr', h['dqr']), ('dlf', h['dlf'])]
        if h['dlf']: t += [('dlr', h['dlr']), ('dlm', h['dlm'])]
    l = h['lf']; t += [('all_lossless', h['all']), ('lvl', l['y'])]
    if any(l['y']): t += [('lu', l['u']), ('lv', l['v'])]
    t += [('sharp', l['sharp']), ('mrd', l['en']), ('md', [u8(x) for x in l['mode']]), ('rd', [u8(x) for x in l['ref']])]
    c = h['cdef']; t += [('cd', c['damp']), ('cn', c['n']), ('cy', c['y']), ('cuv', c['uv'])] + [('rt', x) for x in h['lrt']]
    if any(h['lrt']): t += [('ru0', h['lru'][0])]
    if h['lrt'][1] or h['lrt'][2]: t += [('ru1', h['lru'][1])]
    t += [('txfm_mode', h['tx']), ('switchable_comp_refs', h['scr']), ('skip_mode_allowed', int(bool(h['sm']))), ('skip_mode_enabled', h['sme'])]
    if h['sm']: t += [('sm0', h['sm'][0]), ('sm1', h['sm'][1])]
    t += [('warp_motion', h['wm']), ('reduced_txtp_set', h['rtx'])]
    if not intra:
        for ty, m in h['gm']: t += [('gt', ty)] + [('m', x) for x in m]
    t += [('fg', h['fg'])]
    if h['fg']:
        g = h['grain']; t += [('fgu', h['fgu']), ('seed', g['seed']), ('ny', len(g['y'])), ('yp', [v for p in g['y'] for v in p]), ('csfl', g['csfl'])]
        for p in (0, 1): t += [('nuv', len(g['uv'][p])), ('uvp', [v for x in g['uv'][p] for v in x])]
        t += [('ss', g['ss']), ('lag', g['lag'])]
        if g['y']: t += [('ary', [u8(x) for x in g['ary']])]
        for p in (0, 1):
            if g['uv'][p] or g['csfl']: t += [('aruv', [u8(x) for x in g['aruv'][p]])]
        t += [('acs', g['acs']), ('gss', g['gss'])]
        for p in (0, 1):
            if g['uv'][p]: t += list(zip(('um', 'ulm', 'uo'), g['mul'][p]))
        t += [('ov', g['ov']), ('clip', g['clip'])]
    return txt(t)
# ---------------- output model ----------------
class Model:
    """Feeds on packets (lists of Obu); collects the pictures the stream outputs.
    op, all_layers, dec: as in the decoder settings; invis: every decoded frame is output."""
    def __init__(m, op=0, all_layers=1, invis=0, dec=0, limit=0): m.op, m.all, m.invis, m.dec, m.limit = op, all_layers, invis, dec, limit; m.reset()
    def reset(m): m.seq = None; m.refs = [None] * 8; m.fh = None; m.cll = m.mdcv = None; m.t35 = []; m.ev = 0; m.out = []; m.idc = 0; m.maxsid = 0; m.frames = []; m.tu = -1; m.hdr_of = {}
    def packet(m, obus, pkt):
        for o in obus: m.obu(o, pkt)
    def obu(m, o, pkt):
        if o.type not in (obu.SEQ, obu.TD) and o.ext is not None and m.idc and not (m.idc >> o.tid & 1 and m.idc >> (o.sid + 8) & 1): return
        if o.type == obu.SEQ:
            s = sequence(o.payload); m.idc = s['ops'][m.op if m.op < len(s['ops']) else 0]['idc']; m.maxsid = (m.idc >> 8).bit_length() - 1 if m.idc >> 8 else 0
            if m.seq is None: m.ev |= 1
            elif seq_key(s) != seq_key(m.seq): m.ev |= 1; m.refs = [None] * 8; m.cll = m.mdcv = None
            elif seq_opi(s) != seq_opi(m.seq): m.ev |= 2
            m.seq = s; m.fh = None
        elif o.type == obu.TD: m.tu += 1; m.fh = None
        elif o.type in (obu.FRAME, obu.FRAME_HDR, obu.REDUNDANT):
            if o.type == obu.REDUNDANT and m.fh: return
            h = frame(m.seq, m.refs, o.payload, o.tid, o.sid); m.hdr_of[id(o)] = h; h['oid'] = id(o)
            if h['se']: m.show(h, pkt); return
            if m.limit and h['uw'] * h['h'] > m.limit: raise TooBig(h)
            m.fh = h; h['left'] = h['ntiles']; h['pkt'] = None
            if o.type == obu.FRAME: m.tiles(o.payload[(h['bits'] + 7) // 8:], pkt)
        elif o.type == obu.TILE_GRP:
            if not m.fh: raise Bad('tile group without a frame header')
            m.tiles(o.payload, pkt)
        elif o.type == obu.METADATA: m.meta(o.payload)
    def tiles(m, b, pkt):
        h = m.fh; r = Bits(b)
        if h['pkt'] is None: h['pkt'] = pkt
        n = h['ntiles']
        if n > 1 and r.f(1): a = r.f(h['lc'] + h['lr']); z = r.f(h['lc'] + h['lr'])
        else: a, z = 0, n - 1
        if a != n - h['left'] or z < a: raise Bad('tile group order')
        h['left'] -= z - a + 1
        if h['left'] == 0: m.fh = None; m.finish(h)
    def attrs(m, h, pkt, shown, ev):
        p = dict(h=h, s=h['s'], pkt=pkt, cll=None, mdcv=None, t35=[], ev=ev, shown=shown, tu=m.tu, idx=len(m.frames), maxsid=m.maxsid)
        if shown: p['cll'], p['mdcv'], p['t35'] = m.cll, m.mdcv, m.t35; m.t35 = []      # metadata belongs to shown pictures
        return p
    def finish(m, h):
        ft = h['ft']; d = [] if h['prf'] == 7 else [m.refs[h['ref'][h['prf']]]]
        if ft in (INTER, SWITCH): d += [m.refs[i] for i in h['ref']]
        h['skip'] = m.dec and ft != KEY and (m.dec > 2 or m.dec == 2 and ft != INTRA or m.dec == 1 and not h['rff'])
        h['taint'] = any(x is None or x['skip'] or x['taint'] for x in d)                # depends on a frame that was not decoded
        if h['skip']:
            h['p'] = None
            for i in range(8):
                if h['rff'] >> i & 1: m.refs[i] = h
            return
        p = m.attrs(h, h['pkt'], h['show'], m.ev); h['p'] = p; m.frames.append(p)
        if h['show'] or m.invis: m.ev = 0                     # a hidden frame has the event too, but does not use it up
        for i in range(8):
            if h['rff'] >> i & 1: m.refs[i] = h
        if h['show'] or m.invis: m.out.append(p)
    def show(m, h, pkt):
        q = m.refs[h['idx']]
        if q is None: raise Bad('show of a missing frame')
        if m.dec and (q['ft'] in (INTER, SWITCH) and m.dec > 1 or q['ft'] == INTRA and m.dec > 2): return
        if q['skip']: raise Bad('show of a frame that was not decoded')
        p = m.attrs(q, pkt, 1, q['p']['ev']); p['again'] = q['p']; m.out.append(p)       # shown with the events it was decoded with
        if q['ft'] == KEY: q['reshown'] = 1; m.refs = [q] * 8
    def meta(m, b):
        t, p = obu.leb(b, 0)
        if t == 1: m.cll = (b[p] << 8 | b[p + 1], b[p + 2] << 8 | b[p + 3])
        elif t == 2:
            v = [b[p + 2 * i] << 8 | b[p + 2 * i + 1] for i in range(8)]; m.mdcv = tuple(v + [int.from_bytes(b[p + 16:p + 20], 'big'), int.from_bytes(b[p + 20:p + 24], 'big')])
        elif t == 4:
            e = len(b)
            while e > p and not b[e - 1]: e -= 1
            if e <= p or b[e - 1] != 0x80: return
            d = b[p:e - 1]; c = d[0] if d else 0; k = 2 if c == 255 else 1
            if len(d) > k: m.t35 = m.t35 + [(c, d[1] if k == 2 else 0, bytes(d[k:]))]
    def outputs(m):
        """pictures in output order under the layer setting"""
        if m.all: return m.out
        best = {}; ev = {}
        for p in m.out:
            if not p['maxsid']: continue
            t = p['tu']; ev[t] = ev.get(t, 0) | p['ev']                                  # a layer that is not returned hands on its events
            if t not in best or p['h']['sid'] >= best[t]['h']['sid']: best[t] = p
        return [p if not p['maxsid'] else dict(p, ev=ev[p['tu']]) for p in m.out if not p['maxsid'] or best[p['tu']] is p]
def predict(data, **k):
    """whole stream cut into temporal units, as vdec's pk=tu"""
    m = Model(**k)
    for i, t in enumerate(obu.tus(obu.parse(data))): m.packet(t, i)
    return m
