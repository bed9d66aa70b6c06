"""OBU-level view of low-overhead AV1 streams, written from the AV1 specification (independent of dav1d)."""
SEQ, TD, FRAME_HDR, TILE_GRP, METADATA, FRAME, REDUNDANT, TILE_LIST, PADDING = 1, 2, 3, 4, 5, 6, 7, 8, 15
def leb(b, p):
    v = 0
    for i in range(8):
        x = b[p + i]; v |= (x & 127) << (7 * i)
        if not x & 128: return v, p + i + 1
    raise ValueError('leb128')
def wleb(v, n=0):
    o = bytearray()
    while True:
        x = v & 127; v >>= 7
        more = v > 0 or len(o) + 1 < n
        o.append(x | (128 if more else 0))
        if not more: return bytes(o)
class Obu:
    __slots__ = ('type', 'ext', 'payload', 'off', 'size', 'tid', 'sid')
    def __init__(s, type, payload, ext=None, off=-1, size=0):
        s.type, s.payload, s.ext, s.off, s.size = type, bytes(payload), ext, off, size
        s.tid, s.sid = (ext >> 5, ext >> 3 & 3) if ext is not None else (0, 0)
    def write(s, size_field=True, lebn=0):
        h = bytes([s.type << 3 | (4 if s.ext is not None else 0) | (2 if size_field else 0)])
        if s.ext is not None: h += bytes([s.ext])
        return h + (wleb(len(s.payload), lebn) if size_field else b'') + s.payload
def parse(b):
    out, p = [], 0
    while p < len(b):
        o = p; h = b[p]; p += 1; ext = None
        if h & 4: ext = b[p]; p += 1
        if h & 2: n, p = leb(b, p)
        else: n = len(b) - p
        if p + n > len(b): raise ValueError('obu size')
        out.append(Obu(h >> 3 & 15, b[p:p + n], ext, o, p + n - o)); p += n
    return out
def tus(obus):
    out = []
    for o in obus:
        if o.type == TD or not out: out.append([])
        out[-1].append(o)
    return out
def join(obus, **k): return b''.join(o.write(**k) for o in obus)
def packets(pk): return b''.join(len(p).to_bytes(4, 'little') + p for p in pk)   # vdec's pk=sz: format
