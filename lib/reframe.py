"""Equivalent ways to write the same frames: frame OBUs against frame header and tile group OBUs, redundant headers,
size fields of other lengths, padding, reserved OBU types and metadata that carries nothing."""
from . import av1, obu
def bits(v, n): return [v >> (n - 1 - i) & 1 for i in range(n)]
def pack(b, trailing=False):
    if trailing: b = b + [1]
    b = b + [0] * (-len(b) % 8)
    return bytes(int(''.join(map(str, b[i:i + 8])), 2) for i in range(0, len(b), 8))
def header_bits(o, h): return bits(int.from_bytes(o.payload, 'big'), 8 * len(o.payload))[:h['bits']] if o.payload else []
def split_tiles(b, h):
    """tile group payload -> (first, last, [tile bytes])"""
    r = av1.Bits(b); n = h['ntiles']; k = h['lc'] + h['lr']
    a, z = (r.f(k), r.f(k)) if n > 1 and r.f(1) else (0, n - 1)
    p = (r.p + 7) // 8; t = []
    for i in range(a, z + 1):
        if i == z: t.append(b[p:])
        else:
            s = int.from_bytes(b[p:p + h['tsb']], 'little') + 1; p += h['tsb']
            if p + s > len(b): raise av1.Bad('tile size')
            t.append(b[p:p + s]); p += s
    return a, z, t
def tile_group(tiles, a, h, flag):
    n = h['ntiles']; k = h['lc'] + h['lr']; z = a + len(tiles) - 1; o = b''
    if n > 1:
        whole = a == 0 and z == n - 1
        o = pack([1] + bits(a, k) + bits(z, k)) if not whole or flag else pack([0])
    for i, t in enumerate(tiles):
        if i < len(tiles) - 1: o += (len(t) - 1).to_bytes(h['tsb'], 'little')
        o += t
    return o
def frames(obus, hdr_of):
    """-> list of ('other', obu) and ('frame', obu of the header, h, all tiles, [obus in between])"""
    out = []; cur = None
    for o in obus:
        h = hdr_of.get(id(o))
        if h is None and o.type not in (obu.TILE_GRP,):
            if o.type == obu.REDUNDANT and cur is not None: continue
            (cur[4] if cur is not None else out).append(('other', o) if cur is None else o); continue
        if o.type == obu.TILE_GRP:
            if cur is None: continue                     # not decoded by anyone (dropped layer): cannot be interpreted
            a, z, t = split_tiles(o.payload, cur[2]); cur[3].extend(t)
        elif h['se']: out.append(('other', o)); continue
        else:
            cur = ['frame', o, h, [], []]
            if o.type == obu.FRAME: a, z, t = split_tiles(o.payload[(h['bits'] + 7) // 8:], h); cur[3].extend(t)
        if len(cur[3]) >= cur[2]['ntiles']:
            out.append(tuple(cur[:4])); out += [('other', x) for x in cur[4]]; cur = None
    return out
def write_frame(r, o, h, tiles, style=None):
    """the frame as a list of OBUs, in a random or given style"""
    n = len(tiles); style = style or r.choice(['frame', 'frame', 'hdr1', 'hdrn', 'framen', 'each']); hb = header_bits(o, h)
    def cuts():
        if style == 'each': return list(range(1, n))
        return sorted(r.sample(range(1, n), r.randint(0, min(n - 1, 3)))) if n > 1 else []
    c = [0] + ([] if style in ('frame', 'hdr1') else cuts()) + [n]; parts = [(c[i], tiles[c[i]:c[i + 1]]) for i in range(len(c) - 1)]
    tg = [tile_group(t, a, h, r.random() < .3) for a, t in parts]; ob = []
    if style in ('frame', 'framen'): ob.append(obu.Obu(obu.FRAME, pack(hb) + tg[0], o.ext)); rest = tg[1:]
    else: ob.append(obu.Obu(obu.FRAME_HDR, pack(hb, True), o.ext)); rest = tg
    for t in rest:
        if r.random() < .25: ob.append(obu.Obu(obu.REDUNDANT, pack(hb, True), o.ext))
        ob.append(obu.Obu(obu.TILE_GRP, t, o.ext))
    return ob
def noise(r, ext=None):
    """an OBU that must not make a difference"""
    k = r.randrange(5); rb = lambda n: bytes(r.randrange(256) for _ in range(n))
    if k == 0: return obu.Obu(obu.PADDING, rb(r.randint(0, 40)) + b'\x80', ext)
    if k == 1: return obu.Obu(r.choice([9, 10, 11, 12, 13, 14]), rb(r.randint(0, 30)), ext)
    if k == 2: return obu.Obu(obu.METADATA, obu.wleb(r.choice([6, 7, 31, 32, 100, 1 << 20])) + rb(r.randint(0, 20)) + b'\x80', ext)
    if k == 3: return obu.Obu(obu.METADATA, obu.wleb(5) + rb(r.randint(1, 8)) + b'\x80', ext)
    return obu.Obu(obu.METADATA, obu.wleb(3) + rb(r.randint(1, 12)) + b'\x80', ext)
def rewrite(r, obus, hdr_of, restyle=True, noisy=True, style=None):
    out = []
    def n(ext):
        if noisy: out.extend(noise(r, ext) for _ in range(r.choice([0, 0, 0, 1, 2])))
    for x in frames(obus, hdr_of) if restyle else [('other', o) for o in obus]:
        o = x[1]
        if o.type != obu.TD: n(o.ext)
        if x[0] == 'other': out.append(o); continue
        for k, y in enumerate(write_frame(r, o, x[2], x[3], style)):
            if k: n(o.ext)
            out.append(y)
    return out
def write_random(r):
    """an OBU list writer that varies the length of the size fields and may leave the last one out"""
    def w(obus):
        b = b''
        for i, o in enumerate(obus):
            last = i == len(obus) - 1
            b += o.write(size_field=not (last and r.random() < .4), lebn=r.choice([0, 0, 0, 2, 3, 5, 8]))
        return b
    return w
