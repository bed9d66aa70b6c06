from lib.core import *
from lib import mdl, obu, av1, reframe
from lib.reframe import bits, pack
class Unknown(Exception): pass
class Unk(dict):
    """what a reference slot holds after a frame whose decoding the statement leaves open"""
    def __getitem__(s, k): raise Unknown
    def __bool__(s): return True
UNK = Unk()
# ---------------- coded frames of a stream, with the references the encoder gave them ----------------
class Unit: __slots__ = ('kind', 'obus', 'first', 'h', 'refs', 'key', 'src')
def units(name, res):
    """[Unit]: kind 'frame' (header, tile groups, redundant headers), 'show' or 'other'; key: the picture of the undamaged decode"""
    pic = {}
    for l in res.lines('P'): pic[(int(fields(l)['ts']) - 1000) // 10] = pkey(l)
    m = av1.Model(op=0, all_layers=1, invis=1); out = []; cur = None
    for i, o in enumerate(mdl.parsed(name)):
        before = list(m.refs); fh = m.fh; m.obu(o, i); h = m.hdr_of.get(id(o))
        if h is not None:
            u = Unit(); u.kind = 'show' if h['se'] else 'frame'; u.obus = [o]; u.h = h; u.src = name; u.first = i if h['se'] or o.type == obu.FRAME else None
            u.refs = [x and x['oid'] for x in before]; u.key = None; out.append(u); cur = None if h['se'] else u
        elif cur is not None and o.type in (obu.TILE_GRP, obu.REDUNDANT) and (fh is not None or o.type == obu.REDUNDANT):
            cur.obus.append(o)
            if o.type == obu.TILE_GRP and cur.first is None: cur.first = i
        else:
            u = Unit(); u.kind = 'other'; u.obus = [o]; u.h = None; u.refs = None; u.key = None; u.src = name; u.first = i; out.append(u)
            if o.type in (obu.SEQ, obu.TD): cur = None
    for u in out:
        if u.kind != 'other': u.key = pic.get(u.first)
    return out
VOL = ('p', 'pkt', 'left', 's', 'taint', 'skip', 'oid', 'reshown', 'st', 'key')
def hkey(h): return {k: v for k, v in h.items() if k not in VOL}
class Receiver:
    """what a decoder that lost some of the frames can and cannot decode"""
    def __init__(s): s.seq = None; s.refs = [None] * 8; s.idc = 0
    def unit(s, u):
        """-> None (nothing to decode) or (verdict, reason, expected picture): NOT must be refused, MUST has to come out as expected, SIZE has to come out with the size, ANY is open"""
        o = u.obus[0]
        if o.type == obu.SEQ:
            q = av1.sequence(o.payload); s.idc = q['ops'][0]['idc']
            if s.seq is None or av1.seq_key(q) != av1.seq_key(s.seq): s.refs = [None] * 8
            s.seq = q; return None
        if u.kind == 'other': return None
        if o.ext is not None and s.idc and not (s.idc >> o.tid & 1 and s.idc >> (o.sid + 8) & 1): return None
        if s.seq is None: return 'NOT', 'no sequence header', None
        if u.src is not None and av1.seq_key(u.h['s']) != av1.seq_key(s.seq): s.refs = [UNK] * 8; return 'ANY', None, None     # meant for another sequence
        rff = u.h.get('rff', 0); reason = None; v = None
        try: h = av1.frame(s.seq, s.refs, o.payload, o.tid, o.sid)
        except Unknown: h = None; v = 'ANY'
        except av1.Bad as e: h = None; v = 'NOT'; reason = str(e)
        if u.kind == 'show': return s.show(h)
        inter = h and h['ft'] in (av1.INTER, av1.SWITCH); R = [s.refs[i] for i in h['ref']] if inter else []
        if inter and any(x is None for x in R): v, reason = 'NOT', 'reference missing'
        elif inter:
            for k, x in enumerate(R):
                if x is UNK: continue
                if 2 * h['w'] < x['uw']: v, reason = 'NOT', 'less than half the width'
                elif 2 * h['h'] < x['h']: v, reason = 'NOT', 'less than half the height'
                elif h['w'] > 16 * x['uw']: v, reason = 'NOT', 'more than 16 times the width'
                elif h['h'] > 16 * x['h']: v, reason = 'NOT', 'more than 16 times the height'
                elif h['rid'] and h['rid'][k] != x['fid']: v, reason = 'NOT', 'frame id of a reference differs'
        if v == 'NOT':
            for i in range(8):
                if rff >> i & 1 and s.refs[i] is not None: s.refs[i] = UNK
            return v, reason, None
        if v is None:
            if u.src is None: v = 'ANY' if any(x is UNK for x in R) or s.seq['layout'] == 2 else 'SIZE'     # made-up samples may code a partition 4:2:2 forbids
            elif hkey(h) == hkey(u.h) and (not inter or all(x is not UNK and x['st'] and x['oid'] == u.refs[i] for x, i in zip(R, h['ref']))): v = 'MUST'
            else: v = 'ANY'
        if v == 'ANY': q = UNK
        else: q = h; h['oid'] = u.h.get('oid'); h['st'] = v == 'MUST'; h['key'] = u.key
        for i in range(8):
            if rff >> i & 1: s.refs[i] = q
        return v, None, u.key if v == 'MUST' else f"{h['uw']}x{h['h']}" if v == 'SIZE' else None
    def show(s, h):
        q = s.refs[h['idx']]
        if q is None: return 'NOT', 'shown frame missing', None
        if q is UNK: s.refs = [UNK] * 8; return 'ANY', None, None
        if s.seq['fid'] and q['fid'] != h['fid']: return 'NOT', 'frame id of the shown frame differs', None
        if q['ft'] == av1.KEY: s.refs = [q] * 8
        return ('MUST', None, q['key']) if q['st'] else ('SIZE', None, f"{q['uw']}x{q['h']}")
# ---------------- frames written by this check ----------------
def header(s, refs, r, ft, w, h, rff, ref, sre=0, oh=0, fid=0):
    b = []; f = lambda n, v: b.extend(bits(v, n)); intra = ft == av1.INTRA
    f(1, 0); f(2, ft); f(1, 1)
    if s['dmi'] and not s['epi']: f(s['fpdl'], 0)
    f(1, 1); f(1, 1); sct = 0
    if s['sct'] == 2: f(1, 0)
    else: sct = s['sct']
    imv = 0
    if sct:
        if s['imv'] == 2: f(1, 0)
        else: imv = s['imv']
    if s['fid']: f(s['fidn'], fid)
    f(1, 1)
    if s['oh']: f(s['ohb'], oh)
    if s['dmi']: f(1, 0)
    f(8, rff)
    if (not intra or rff != 255) and s['oh']:
        for x in refs: f(s['ohb'], x['oh'] if x not in (None, UNK) else 0)
    def size():
        f(s['wb'], w - 1); f(s['hb'], h - 1); w0 = w
        if s['sr']:
            f(1, int(sre > 8))
            if sre > 8: f(3, sre - 9); w0 = max((w * 8 + (sre >> 1)) // sre, min(16, w))
        f(1, 0); return w0
    if intra:
        w0 = size()
        if sct and w0 == w: f(1, 0)
    else:
        if s['oh']: f(1, 0)
        for i in ref:
            f(3, i)
            if s['fid']: f(s['dfid'], (fid - refs[i]['fid'] - 1) & ((1 << s['dfid']) - 1) if refs[i] not in (None, UNK) else 0)
        w0 = size()
        if not imv: f(1, r.randrange(2))
        f(1, 0); f(2, r.randrange(4)); f(1, r.randrange(2))
    sh = 7 if s['sb128'] else 6; sbc = (w0 + (1 << sh) - 1) >> sh; sbr = (h + (1 << sh) - 1) >> sh
    f(1, 1)
    if av1.tile_log2(1, min(sbc, 64)) > 0: f(1, 0)
    if av1.tile_log2(1, min(sbr, 64)) > 0: f(1, 0)
    f(8, r.randrange(1, 256)); f(1, 0)
    if not s['mono']:
        if s['suv']: f(1, 0)
        f(1, 0); f(1, 0)
    f(1, 0); f(1, 0); f(1, 0)
    ly = r.choice([0, 0, 20]); f(6, ly); f(6, ly)
    if not s['mono'] and ly: f(6, 9); f(6, 0)
    f(3, 0); f(1, 0)
    if s['cdef']:
        f(2, 0); f(2, 0); f(6, r.choice([0, 21]))
        if not s['mono']: f(6, r.choice([0, 21]))
    if s['lr']: f(2 if s['mono'] else 6, 0)
    f(1, r.randrange(2))
    if not intra: f(1, 0)
    f(1, 0)
    if not intra: f(7, 0)
    if s['fg']: f(1, 0)
    return b
def own(R, r, hold):
    """a frame of our own: its size is drawn around the limits its references allow; hold: it must not change any reference"""
    s = R.seq; ext = bytes([0])[0] if s['ops'][0]['idc'] else None; avail = [i for i in range(8) if R.refs[i] not in (None, UNK)]
    def side(mx, d, key):
        a = sorted({R.refs[i][key] for i in d}) if d else [mx]; x = r.choice(a)
        v = r.choice([x, (x + 1) // 2, (x + 1) // 2, (x + 1) // 2 - 1, x // 2, 16 * x, 16 * x, 16 * x + 1, 2 * x, r.randint(1, mx), mx, min(mx, max(1, 16 * x + r.choice([-1, 0, 1, 8])))])
        return max(1, min(mx, v))
    if hold or r.random() < .6:
        k = r.choice([1, 1, 2, 3]); pool = avail if r.random() < .85 else list(range(8))
        if not pool: return None
        sl = [r.choice(pool) for _ in range(k)]; ref = [sl[0] if r.random() < .7 else r.choice(sl) for _ in range(7)]; ft = av1.INTER
    else: ref = [0] * 7; ft = av1.INTRA
    d = [i for i in set(ref) if i in avail] if ft == av1.INTER else avail
    w = side(s['mw'], d, 'uw'); h = side(s['mh'], d, 'h')
    if ft == av1.INTRA and r.random() < .6: w = r.choice([1, 2, 3, 4, 5, 8, 16, s['mw'] // 16, s['mw'] // 16 + 1, s['mw'] // 17, w]); h = r.choice([1, 2, 3, 4, 8, 16, s['mh'] // 16, s['mh'] // 16 + 1, s['mh'] // 17, h]); w = max(1, min(w, s['mw'])); h = max(1, min(h, s['mh']))
    if ft == av1.INTER and r.random() < .7 and d:                   # only one side near a limit
        x = R.refs[r.choice(d)]
        if r.random() < .5: w = min(max(x['uw'], 1), s['mw'])
        else: h = min(max(x['h'], 1), s['mh'])
    rff = 0 if hold else r.choice([0, 1 << r.randrange(8), 1 << r.randrange(8), r.randrange(255)])
    sre = r.choice([8, 8, 9, 12, 16]) if s['sr'] and w > 16 else 8; fid = 0
    if s['fid']:
        fid = r.randrange(1 << s['fidn'])
        if ft == av1.INTER and d and r.random() < .8: fid = (max(R.refs[i]['fid'] for i in d) + r.randint(1, 3)) & ((1 << s['fidn']) - 1)
    u = Unit(); b = header(s, R.refs, r, ft, w, h, rff, ref, sre, r.randrange(1 << s['ohb']) if s['oh'] else 0, fid)
    n = 400 + 6 * (w + 7 & -8) * (h + 7 & -8);     # enough data for whatever the samples code
    u.kind = 'frame'; u.src = None; u.key = None; u.refs = None; u.h = dict(rff=rff)
    u.obus = [obu.Obu(obu.FRAME, pack(b) + r.randbytes(n) + b'\x55', ext)]; return u
def shown(R, r):
    u = Unit(); i = r.randrange(8); s = R.seq; q = R.refs[i]; u.kind = 'show'; u.src = None; u.key = None; u.refs = None; u.h = {}
    b = [1] + bits(i, 3) + ([0] * s['fpdl'] if s['dmi'] and not s['epi'] else [])
    if s['fid']: b += bits(q['fid'] if q not in (None, UNK) and r.random() < .7 else r.randrange(1 << s['fidn']), s['fidn'])
    u.obus = [obu.Obu(obu.FRAME_HDR, pack(b, True), 0 if s['ops'][0]['idc'] else None)]; return u, q not in (None, UNK) and q['ft'] == av1.KEY
def check(c):
    c.build('vdec_rel', 'vdec_asan', 'vdec_edge'); r = c.rng; g = gold()
    c.rule = 'one decode, one OBU per packet, of a stream that lost frames, changed sequence or got frames of our own whose references are missing, have another frame id or lie beyond or just inside the size limits; an independent model of the reference slots says for each frame whether it must be refused (no picture, error reported for its packet), must come out unchanged, or must come out with its size; non-trivial: at least one frame was refused or accepted at a limit; distinct by stream bytes and settings'
    names = [n for n in sorted(g) if g[n]['size'] < c.pick(9000, 60000)]; jobs = [('vdec_rel', [f'file={stream(n)}', 'pk=obu', 'invis=1', 'all=1', 'op=0', f'grain={gr}', 'timeout=60']) for n in names for gr in (0, 1)]; base = {}
    res = c.run_jobs(jobs)
    for k, n in enumerate(names):
        for gr in (0, 1):
            q = res[2 * k + gr]
            if not c.judge(q, n): continue
            if q.lines('R'): c.violation('rejected', f'{n}: conformant stream rejected: {q.lines("R")[0]}', q.out, [stream(n)]); continue
            base[n, gr] = units(n, q)
    names = [n for n in names if (n, 0) in base and (n, 1) in base]
    fidn = [n for n in names if av1.sequence(next(o for o in mdl.parsed(n) if o.type == obu.SEQ).payload)['fid']]
    jobs = []; meta = []
    for i in range(c.pick(4000, 80000)):
        gr = r.choice([0, 1]); kind = r.choice(['drop', 'drop', 'splice', 'own', 'own', 'tail', 'tail', 'tail']); n = r.choice(fidn if fidn and r.random() < .2 else names); U = base[n, gr]; lst = list(U); what = kind
        if kind == 'splice':
            k = r.randrange(len(U)); n2 = r.choice(names); V = base[n2, gr]; j = r.randrange(len(V)); lst = list(U[:k])
            sq = next(u for u in V if u.obus[0].type == obu.SEQ); lst += ([sq] if j else []) + list(V[j:]); what += ' ' + n2
        if kind in ('drop',) or kind == 'splice' and r.random() < .4:
            p = r.choice([.05, .15, .4]); f = r.randrange(len(lst)); fr = [k for k, u in enumerate(lst) if u.kind != 'other']
            if not fr: continue
            gone = {k for k in fr if r.random() < p} | {r.choice(fr)}; lst = [u for k, u in enumerate(lst) if k not in gone]
        elif r.random() < .12: lst = [u for k, u in enumerate(lst) if u.kind == 'other' or r.random() > .1]
        R = Receiver(); pk = []; V = []
        def put(u):
            v = R.unit(u); p = len(pk) + next((k for k, o in enumerate(u.obus) if o.type in (obu.FRAME, obu.TILE_GRP) or u.kind == 'show'), 0)
            if v: V.append((p, range(len(pk), len(pk) + len(u.obus)), v, u.src))
            pk.extend(u.obus)
        ok = lambda: R.seq and not R.seq['reduced'] and R.seq['wb'] <= 13 and not R.idc and R.seq['mw'] <= 4096 and R.seq['mw'] * R.seq['mh'] < 14000
        inside = False
        for u in lst:
            if kind == 'own' and ok() and u.obus[0].type == obu.TD and r.random() < .3:
                x = own(R, r, True) if r.random() < .8 else shown(R, r)
                if isinstance(x, tuple): x = None if x[1] else x[0]
                if x: put(x)
            put(u)
        if kind == 'tail' and ok():
            for _ in range(r.choice([2, 4, 8])):
                x = own(R, r, False) if r.random() < .85 else shown(R, r)[0]
                if x: put(x)
        f = f'{c.tmp}/{i}.obu'; open(f, 'wb').write(obu.join(pk))
        ex = r.choice(['vdec_rel'] * 9 + ['vdec_asan', 'vdec_edge']); a = [f'file={f}', 'pk=obu', 'invis=1', 'all=1', 'op=0', f'grain={gr}', f'poll={r.choice(["each", "cli", "lazy"])}', 'timeout=60'] + (sched_args(r) if ex == 'vdec_edge' else mdl.thr(r, .5))
        jobs.append((ex, a)); meta.append((n, what, V, f))
    for q, (n, kind, V, f) in zip(c.run_jobs(jobs), meta):
        what = f'{n} {kind}'
        if not c.judge(q, what): continue
        P = {}; bad = {(int(l.split()[1][3:]) - 1000) // 10 for l in q.lines('X') if l.split()[1][:3] == 'ts='}
        for l in q.lines('P'): P.setdefault((int(fields(l)['ts']) - 1000) // 10, []).append(pkey(l))
        non = 0
        for p, first, (v, reason, exp), src in V:
            got = P.get(p, []); d = f'{" ".join(q.args)}\npacket {p}\n' + '\n'.join(map(str, V)) + '\n' + q.out
            if v == 'NOT':
                if got: c.violation(f'decoded: {reason}', f'{what}: the frame in packet {p} must be refused ({reason}), but a picture came out: {got}', d, [f]); break
                if not bad & set(first): c.violation(f'no error: {reason}', f'{what}: no error was reported for the frame in packet {p} ({reason})', d, [f]); break
                non += 1; c.count('refused: ' + reason)
            elif v == 'MUST':
                if exp is None: continue
                if 'vdec_edge' in q.exe: exp, got = exp.rsplit(' ', 1)[0], [x.rsplit(' ', 1)[0] for x in got]     # samples of hidden frames nobody ever shows need not be those of the C code
                if got != [exp]: c.violation(f'unaffected frame {"missing" if not got else "changed"}', f'{what}: the frame in packet {p} has all its references, but gave {got} instead of {exp}', d, [f]); break
                c.count('unaffected_pictures_equal')
            elif v == 'SIZE':
                if len(got) != 1 or got[0].split()[0] != exp: c.violation('valid sizes refused', f'{what}: the frame in packet {p} ({exp}) is within the limits of its references but gave {got}', d, [f]); break
                non += 1; c.count('accepted_within_limits')
            else: c.count('left_open')
        else:
            if non: c.distinct.add(f)
    for x in jobs[:3] + jobs[-3:]: c.sample(' '.join(x[1]))
