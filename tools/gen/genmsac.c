#include "config.h"
#include <limits.h>
#include <stdio.h>
#include <string.h>
#include "common/intops.h"
#include "src/internal.h"
#include "src/msac.h"
#include "genmsac.h"

GenPolicy gen_policy;
GenTile *gen_tiles;
int gen_n_tiles;
size_t gen_total_ops;
static int cap_tiles;
static uint64_t rs = 1;
int gen_422; int gen_lr_depth;               /* set by patched decode.c while reading LR info */
static int forced[64], n_forced, p_forced;
static int equi_zero_run;

void gen_seed(uint64_t s) { rs = s * 0x9E3779B97F4A7C15ull + 12345; if (!rs) rs = 1; }
static uint32_t rnd(void) {
    rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17;
    return (uint32_t)((rs * 0x2545F4914F6CDD1Dull) >> 32);
}
int gen_rand(int n);
int gen_rand(int n) { return rnd() % (unsigned)n; }
static int pct(int p) { return (int)(rnd() % 100) < p; }

void gen_begin_frame(void) {
    for (int i = 0; i < gen_n_tiles; i++) free(gen_tiles[i].ops);
    gen_n_tiles = 0; gen_total_ops = 0; n_forced = p_forced = 0; equi_zero_run = 0;
}
static GenTile *tile_of(MsacContext *s) { return &gen_tiles[(size_t)s->dif]; }
static void push(MsacContext *s, int type, unsigned fl, unsigned fh, int sym, int n) {
    GenTile *t = tile_of(s);
    if (t->n == t->cap) { t->cap = t->cap ? t->cap * 2 : 1024; t->ops = realloc(t->ops, t->cap * sizeof(GenOp)); }
    t->ops[t->n++] = (GenOp){ fl, fh, sym, n, type, gen_lr_depth > 0 };
    gen_total_ops++;
}
static int take_forced(int *v) {
    if (p_forced < n_forced) { *v = forced[p_forced++]; return 1; }
    return 0;
}
void gen_force(int v);
void gen_force(int v) {
    if (p_forced == n_forced) p_forced = n_forced = 0;
    if (n_forced < 64) forced[n_forced++] = v;
}
static void force_comp(int diff) {
    const int sign = diff < 0; const int d = (sign ? -diff : diff) >> 3, u = d - 1;
    const int cl = u < 2 ? 0 : ulog2(u);
    gen_force(sign); gen_force(cl);
    if (!cl) gen_force(u);
    else for (int n = 0; n < cl; n++) gen_force((u >> n) & 1);
}
void gen_force_dv(int ry, int rx, int y, int x);
void gen_force_dv(int ry, int rx, int y, int x) {
    const int dy = y - ry, dx = x - rx;
    gen_force((dy ? 2 : 0) | (dx ? 1 : 0)); /* MV_JOINT_V == 2, MV_JOINT_H == 1 */
    if (dy) force_comp(dy);
    if (dx) force_comp(dx);
}
/* libaom's av1_is_dv_valid */
static int dv_valid(const Dav1dTaskContext *t, int bw, int bh, int has_chroma, int dy, int dx) {
    const Dav1dFrameContext *f = t->f; const Dav1dTileState *ts = t->ts;
    const int ssx = f->cur.p.layout != DAV1D_PIXEL_LAYOUT_I444 && f->cur.p.layout != DAV1D_PIXEL_LAYOUT_I400;
    const int ssy = f->cur.p.layout == DAV1D_PIXEL_LAYOUT_I420;
    const int mr = t->by, mc = t->bx;
    const int st = mr * 4 + dy, sl = mc * 4 + dx, sbot = st + bh, sr = sl + bw;
    const int mrs = ts->tiling.row_start, mre = ts->tiling.row_end, mcs = ts->tiling.col_start, mce = ts->tiling.col_end;
    if (st < mrs * 4 || sl < mcs * 4 || sbot > mre * 4 || sr > mce * 4) return 0;
    if (has_chroma && f->cur.p.layout != DAV1D_PIXEL_LAYOUT_I400) {
        if (bw < 8 && ssx && sl < mcs * 4 + 4) return 0;
        if (bh < 8 && ssy && st < mrs * 4 + 4) return 0;
    }
    const int l2 = 4 + f->seq_hdr->sb128, sb = 4 << l2;
    const int arow = mr >> l2, acol = (mc * 4) >> 6;
    const int srow = (sbot - 1) / sb, scol = (sr - 1) >> 6;
    const int per = ((mce - mcs - 1) >> 4) + 1;
    if (srow * per + scol >= arow * per + acol - 4) return 0;
    const int grad = 1 + 4 + (sb > 64);
    if (srow > arow || scol >= acol - 4 + grad * (arow - srow)) return 0;
    /* residual component must be representable */
    return 1;
}
int gen_find_dv(const Dav1dTaskContext *t, int bw4, int bh4, int has_chroma, int *y, int *x);
int gen_find_dv(const Dav1dTaskContext *t, int bw4, int bh4, int has_chroma, int *y, int *x) {
    const Dav1dTileState *ts = t->ts;
    if (!pct(gen_policy.intrabc)) return 0;
    const int w = (ts->tiling.col_end - ts->tiling.col_start) * 4, top = ts->tiling.row_start * 4;
    for (int k = 0; k < 200; k++) {
        const int py = top + (int)(rnd() % (unsigned)(t->by * 4 - top + bh4 * 4 + 1));
        const int px = ts->tiling.col_start * 4 + (int)(rnd() % (unsigned)w);
        const int dy = py - t->by * 4, dx = px - t->bx * 4;
        if (dv_valid(t, bw4 * 4, bh4 * 4, has_chroma, dy, dx)) { *y = dy * 8; *x = dx * 8; return 1; }
    }
    return 0;
}

static ptrdiff_t cdf_off(MsacContext *s, const uint16_t *cdf) {
    Dav1dTileState *ts = (Dav1dTileState *)((char *)s - offsetof(Dav1dTileState, msac));
    const ptrdiff_t o = (const char *)cdf - (const char *)&ts->cdf;
    return o >= 0 && o < (ptrdiff_t)sizeof(CdfContext) ? o : -1;
}
#define IN(o, field) ((o) >= (ptrdiff_t)offsetof(CdfContext, field) && \
    (o) < (ptrdiff_t)(offsetof(CdfContext, field) + sizeof(((CdfContext *)0)->field)))

static int choose_cdf(const uint16_t *cdf, int n) {
    const unsigned r = rnd() & 32767;
    int v = 0;
    while (v < n && r < cdf[v]) v++;      /* icdf: P(sym > v) = cdf[v]/32768 */
    return v;
}
static int choose_sym0(MsacContext *s, const uint16_t *cdf, int n);
static int choose_sym(MsacContext *s, const uint16_t *cdf, int n) {
    for (;;) {
        const int v = choose_sym0(s, cdf, n); const ptrdiff_t o = cdf_off(s, cdf);
        if (gen_422 && o >= 0 && IN(o, m.partition) && (v == 2 || v == 6 || v == 7 || v == 9)) continue;
        return v;
    }
}
static int choose_sym0(MsacContext *s, const uint16_t *cdf, int n) {
    int v;
    if (take_forced(&v)) return v;
    const ptrdiff_t o = cdf_off(s, cdf);
    const GenPolicy *p = &gen_policy;
    if (o >= 0) {
        if (o >= (ptrdiff_t)offsetof(CdfContext, coef.eob_bin_16) && o < (ptrdiff_t)offsetof(CdfContext, coef.eob_base_tok)) {
            v = pct(p->uniform) ? (int)(rnd() % (n + 1)) : choose_cdf(cdf, n);
            if (v > p->eob_cap) v = rnd() % (p->eob_cap + 1);
            return v > n ? n : v;
        }
        if (IN(o, coef.eob_base_tok) || IN(o, coef.base_tok)) {
            if (pct(p->tok_small)) return IN(o, coef.eob_base_tok) ? 0 : rnd() % 2;
        } else if (IN(o, coef.br_tok)) {
            return pct(p->hi_cap) ? 3 : (int)(rnd() % 3);
        } else if (IN(o, m.partition)) {
            if (pct(p->part_none)) return 0;
            if (pct(p->part_split) && n >= 3) return 3; /* PARTITION_SPLIT */
        } else if (o >= (ptrdiff_t)offsetof(CdfContext, mv) && o < (ptrdiff_t)(offsetof(CdfContext, mv) + sizeof(CdfMvContext)) && n == 10) {
            v = pct(p->uniform) ? (int)(rnd() % (n + 1)) : choose_cdf(cdf, n);
            return v > p->mv_class_cap ? (int)(rnd() % (p->mv_class_cap + 1)) : v;
        } else if (IN(o, m.restore_switchable)) {
            return rnd() % 3;
        } else if (IN(o, m.delta_q) || IN(o, m.delta_lf)) {
            return pct(60) ? 0 : rnd() % 4;
        }
    }
    return pct(p->uniform) ? (int)(rnd() % (n + 1)) : choose_cdf(cdf, n);
}
static int choose_bool(MsacContext *s, const uint16_t *cdf, unsigned f) {
    int v;
    if (take_forced(&v)) return v;
    const GenPolicy *p = &gen_policy;
    if (cdf) {
        const ptrdiff_t o = cdf_off(s, cdf);
        if (o >= 0) {
            if (IN(o, m.skip) && p->skip >= 0) return pct(p->skip);
            if (IN(o, coef.skip) && p->txskip >= 0) return pct(p->txskip);
            if ((IN(o, m.pal_y) || IN(o, m.pal_uv)) && p->palette >= 0) return pct(p->palette);
            if (IN(o, m.intra) && p->inter >= 0) return pct(p->inter);
            if (IN(o, m.comp) && p->comp >= 0) return pct(p->comp);
            if (IN(o, m.newmv_mode) && p->newmv >= 0) return !pct(p->newmv);
            if (IN(o, m.restore_wiener) || IN(o, m.restore_sgrproj)) return pct(70);
        }
    }
    if (pct(p->uniform)) return rnd() & 1;
    return (rnd() & 32767) < f;
}

/* ---- the msac interface ---- */
int dav1d_msac_decode_subexp(MsacContext *const s, const int ref, const int n, unsigned k) {
    unsigned a = 0;
    if (dav1d_msac_decode_bool_equi(s)) {
        if (dav1d_msac_decode_bool_equi(s))
            k += dav1d_msac_decode_bool_equi(s) + 1;
        a = 1 << k;
    }
    const unsigned v = dav1d_msac_decode_bools(s, k) + a;
    return ref * 2 <= n ? inv_recenter(ref, v) : n - 1 - inv_recenter(n - 1 - ref, v);
}
unsigned dav1d_msac_decode_bool_equi_c(MsacContext *const s) {
    int v;
    if (!take_forced(&v)) {
        v = rnd() & 1;
        if (!v && ++equi_zero_run >= 4) v = 1;      /* bounds golomb lengths */
        if (v) equi_zero_run = 0;
    }
    push(s, 1, 0, 1 << 14, v, 1);
    return v;
}
unsigned dav1d_msac_decode_bool_c(MsacContext *const s, const unsigned f) {
    const int v = choose_bool(s, NULL, f);
    push(s, 1, 0, f, v, 1);
    return v;
}
unsigned dav1d_msac_decode_symbol_adapt_c(MsacContext *const s, uint16_t *const cdf, const size_t n_symbols) {
    const unsigned n = (unsigned)n_symbols;
    const unsigned val = choose_sym(s, cdf, n);
    push(s, 0, val ? cdf[val - 1] : 32768, val == n ? 0 : cdf[val], val, n);
    if (s->allow_update_cdf) {
        const unsigned count = cdf[n];
        const unsigned rate = 4 + (count >> 4) + (n > 2);
        unsigned i;
        for (i = 0; i < val; i++) cdf[i] += (32768 - cdf[i]) >> rate;
        for (; i < n; i++) cdf[i] -= cdf[i] >> rate;
        cdf[n] = count + (count < 32);
    }
    return val;
}
unsigned dav1d_msac_decode_bool_adapt_c(MsacContext *const s, uint16_t *const cdf) {
    const unsigned bit = choose_bool(s, cdf, cdf[0]);
    push(s, 1, 0, cdf[0], bit, 1);
    if (s->allow_update_cdf) {
        const unsigned count = cdf[1];
        const int rate = 4 + (count >> 4);
        if (bit) cdf[0] += (32768 - cdf[0]) >> rate;
        else     cdf[0] -= cdf[0] >> rate;
        cdf[1] = count + (count < 32);
    }
    return bit;
}
unsigned dav1d_msac_decode_hi_tok_c(MsacContext *const s, uint16_t *const cdf) {
    unsigned tok = 3;
    for (int i = 0; i < 4; i++) {
        const unsigned b = dav1d_msac_decode_symbol_adapt_c(s, cdf, 3);
        tok += b;
        if (b < 3) break;
    }
    return tok;
}
void dav1d_msac_init(MsacContext *const s, const uint8_t *const data, const size_t sz, const int disable_cdf_update_flag) {
    if (gen_n_tiles == cap_tiles) { cap_tiles = cap_tiles ? cap_tiles * 2 : 64; gen_tiles = realloc(gen_tiles, cap_tiles * sizeof(*gen_tiles)); }
    gen_tiles[gen_n_tiles] = (GenTile){ 0 };
    s->buf_pos = data; s->buf_end = data + sz;
    s->dif = gen_n_tiles++;
    s->rng = 0x8000; s->cnt = 0;
    s->allow_update_cdf = !disable_cdf_update_flag;
}

/* ---- AV1 range encoder ---- */
typedef struct { uint16_t *buf; size_t n, cap; uint32_t low; unsigned rng; int cnt; } Enc;
static void out16(Enc *e, unsigned v) {
    if (e->n == e->cap) { e->cap = e->cap ? e->cap * 2 : 4096; e->buf = realloc(e->buf, e->cap * 2); }
    e->buf[e->n++] = v;
}
static void norm(Enc *e, uint32_t low, unsigned rng) {
    int c = e->cnt;
    const int d = 15 - ulog2(rng);
    int s = c + d;
    if (s >= 0) {
        c += 16;
        uint32_t m = (1u << c) - 1;
        if (s >= 8) { out16(e, low >> c); low &= m; c -= 8; m >>= 8; }
        out16(e, low >> c);
        s = c + d - 24;
        low &= m;
    }
    e->low = low << d; e->rng = rng << d; e->cnt = s;
}
uint8_t *gen_encode_tile(const GenTile *t, int drop_lr, size_t *sz) {
    Enc e = { .rng = 0x8000, .cnt = -9 };
    for (size_t i = 0; i < t->n; i++) {
        const GenOp *o = &t->ops[i];
        if (drop_lr && o->lr) continue;
        uint32_t l = e.low; unsigned r = e.rng;
        if (o->type) {
            const unsigned v = ((r >> 8) * (unsigned)(o->fh >> 6) >> 1) + 4;
            if (o->s) { l += r - v; r = v; } else r -= v;
            /* dav1d's bool: 1 has probability f => occupies v at the top */
        } else {
            const int N = o->n;
            const unsigned v = ((r >> 8) * (unsigned)(o->fh >> 6) >> 1) + 4 * (N - o->s);
            if (o->s) {
                const unsigned u = ((r >> 8) * (unsigned)(o->fl >> 6) >> 1) + 4 * (N - (o->s - 1));
                l += r - u; r = u - v;
            } else r -= v;
        }
        norm(&e, l, r);
    }
    {   /* od_ec_enc_done */
        uint32_t l = e.low; int c = e.cnt, s = 10;
        const uint32_t m = 0x3FFF;
        uint32_t x = ((l + m) & ~m) | (m + 1);
        s += c;
        if (s > 0) {
            uint32_t n = (1u << (c + 16)) - 1;
            do { out16(&e, x >> (c + 16)); x &= n; s -= 8; c -= 8; n >>= 8; } while (s > 0);
        }
    }
    uint8_t *out = malloc(e.n + 1);
    unsigned c = 0;
    for (size_t i = e.n; i-- > 0;) { c += e.buf[i]; out[i] = c; c >>= 8; }
    free(e.buf);
    *sz = e.n;
    return out;
}
