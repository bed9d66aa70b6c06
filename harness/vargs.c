/* Arguments, settings, standalone sequence header parsing.  job=seq|settings|calls|delay|log */
#include <errno.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>
#include "dav1d/dav1d.h"
#include "batch.h"
#include "vhash.h"
#include "hdrdump.h"
#include "wrap.h"
static FILE *out;                                  /* fd 1 and 2 are watched: nothing may write there */
#define P(...) fprintf(out, __VA_ARGS__)
static void V(const char *f, ...) { va_list a; va_start(a, f); P("V "); vfprintf(out, f, a); va_end(a); P("\n"); fflush(out); }
static long n_calls, n_bad, n_good;
static void dump_s(const Dav1dSequenceHeader *s, char *t, size_t n) { HBuf b = { t, 0, n }; t[0] = 0; dump_seq(&b, s); }
/* ---------------- standalone sequence headers ---------------- */
static int job_seq(void) {
    size_t n; uint8_t *f = b_file(b_opt("file", ""), &n); size_t o = 0; const int dec = b_int("dec", 0);
    for (int i = 0; o + 4 <= n; i++) {
        const uint32_t l = f[o] | f[o + 1] << 8 | f[o + 2] << 16 | (uint32_t)f[o + 3] << 24; o += 4; if (!l || l > n - o) break;
        uint8_t *p = (malloc)(l); memcpy(p, f + o, l); o += l;         /* exact-size block */
        uint64_t h = vh_bytes(0, p, l); static char t1[32768], t2[32768]; Dav1dSequenceHeader *s = (malloc)(sizeof *s);
        memset(s, 0xA5, sizeof *s); const int r = dav1d_parse_sequence_header(s, p, l); t1[0] = t2[0] = 0; if (!r) dump_s(s, t1, sizeof t1);
        if (r > 0) V("parse_sequence_header returned %d", r);
        memset(s, 0, sizeof *s); const int r2 = dav1d_parse_sequence_header(s, p, l); if (!r2) dump_s(s, t2, sizeof t2);
        if (r != r2 || strcmp(t1, t2)) V("parse_sequence_header depends on the previous contents of the output: %d %d", r, r2);
        if (h != vh_bytes(0, p, l)) V("parse_sequence_header changed its input");
        P("Q %d %d%s\n", i, r, t1);
        if (dec) {
            Dav1dSettings S; dav1d_default_settings(&S); S.n_threads = 1; S.frame_size_limit = 1 << 22; S.logger.callback = NULL; S.operating_point = dec - 1; Dav1dContext *c;
            if (dav1d_open(&c, &S)) { V("open failed"); return 1; }
            Dav1dData d; memset(&d, 0, sizeof d); uint8_t *q = dav1d_data_create(&d, l); memcpy(q, p, l); int er = 0, np = 0; t2[0] = 0;
            while (d.sz) {
                int e = dav1d_send_data(c, &d); if (e < 0 && e != DAV1D_ERR(EAGAIN)) { er = e; dav1d_data_unref(&d); }
                Dav1dPicture pic; memset(&pic, 0, sizeof pic); e = dav1d_get_picture(c, &pic);
                if (!e) { np++; dump_s(pic.seq_hdr, t2, sizeof t2); dav1d_picture_unref(&pic); } else if (e != DAV1D_ERR(EAGAIN)) er = e;
            }
            for (;;) { Dav1dPicture pic; memset(&pic, 0, sizeof pic); int e = dav1d_get_picture(c, &pic); if (!e) { np++; dump_s(pic.seq_hdr, t2, sizeof t2); dav1d_picture_unref(&pic); } else { if (e != DAV1D_ERR(EAGAIN)) { er = e; continue; } break; } }
            dav1d_close(&c); P("D %d %d %d%s\n", i, er, np, t2);
        }
        (free)(s); (free)(p);
    }
    (free)(f); return 0;
}
/* ---------------- settings ---------------- */
static int bad_int(void) { static const int t[] = { -1, -2, -256, INT32_MIN, INT32_MAX, 257, 258, 1000, 65536, 1 << 30 }; return t[b_rnd() % 10]; }
static int my_alloc(Dav1dPicture *p, void *ck);
static void my_release(Dav1dPicture *p, void *ck);
static int cookie_o; static long n_alloc_cb, n_rel_cb, n_log, n_logbad; static int show_log;
static void log_cb(void *ck, const char *f, va_list ap) { char t[512]; if (ck != &cookie_o) n_logbad++; vsnprintf(t, sizeof t, f, ap); n_log++; if (show_log) P("L %s", t); }
static int my_alloc(Dav1dPicture *p, void *ck) {
    if (ck != &cookie_o) V("allocator called with a wrong cookie");
    n_alloc_cb++;
    const int hbd = p->p.bpc > 8, w = (p->p.w + 127) & ~127, h = (p->p.h + 127) & ~127, ssx = p->p.layout != DAV1D_PIXEL_LAYOUT_I444, ssy = p->p.layout == DAV1D_PIXEL_LAYOUT_I420;
    const size_t ys = ((size_t)w << hbd) + 64, us = p->p.layout ? ((size_t)w >> ssx << hbd) + 64 : 0, a = ys * h, b = us * (h >> ssy);
    uint8_t *m; if (__real_posix_memalign((void **)&m, 64, a + 2 * b + 64)) return DAV1D_ERR(ENOMEM);
    p->stride[0] = ys; p->stride[1] = us; p->data[0] = m; p->data[1] = us ? m + a : NULL; p->data[2] = us ? m + a + b : NULL; p->allocator_data = m; return 0;
}
static void my_release(Dav1dPicture *p, void *ck) { if (ck != &cookie_o) V("allocator called with a wrong cookie"); n_rel_cb++; xfree(p->allocator_data); }
typedef struct { uint64_t h; int n, err; uint64_t ev; } Run;
static uint64_t pic_hash(const Dav1dPicture *p, uint64_t h) {
    h = vh_mix(h, (uint64_t)p->p.w << 32 | p->p.h); h = vh_mix(h, p->p.layout << 8 | p->p.bpc); h = vh_mix(h, p->m.timestamp); h = vh_mix(h, p->m.offset); h = vh_mix(h, p->m.duration); h = vh_mix(h, p->m.size);
    for (int i = 0; i < (p->p.layout ? 3 : 1); i++) {
        const int w = i && p->p.layout != DAV1D_PIXEL_LAYOUT_I444 ? (p->p.w + 1) >> 1 : p->p.w, hh = i && p->p.layout == DAV1D_PIXEL_LAYOUT_I420 ? (p->p.h + 1) >> 1 : p->p.h;
        for (int y = 0; y < hh; y++) { const uint8_t *s = (const uint8_t *)p->data[i] + y * p->stride[!!i]; h = p->p.bpc > 8 ? vh_row16(h, s, w) : vh_row8(h, s, w); }
    }
    return h;
}
static void bad(Dav1dContext *c, const Dav1dPicture *pic, const Dav1dSettings *S);
static uint8_t *fdata; static size_t fsz;
/* decode fdata packet by packet (sz: format); bad calls in between when nb > 0 */
static Run decode(const Dav1dSettings *S, int nb) {
    Run r = { 0 }; Dav1dContext *c = NULL; int e;
    if ((e = dav1d_open(&c, S))) { V("open failed %d", e); r.err = e; return r; }
#define BAD(p) do { if (nb) for (int z = b_rnd() % (2 * nb + 1); z; z--) bad(c, p, S); } while (0)
    size_t o = 0; long k = 0;
#define POLL() do { Dav1dPicture p; memset(&p, 0, sizeof p); BAD(NULL); e = dav1d_get_picture(c, &p); \
        if (!e) { r.n++; r.h = pic_hash(&p, r.h); BAD(&p); enum Dav1dEventFlags f; if (dav1d_get_event_flags(c, &f)) V("get_event_flags failed"); r.ev = vh_mix(r.ev, f); dav1d_picture_unref(&p); if (p.data[0] || p.ref) V("picture not cleared"); } \
        else if (e != DAV1D_ERR(EAGAIN)) { r.err++; r.h = vh_mix(r.h, e); Dav1dDataProps m; memset(&m, 0, sizeof m); BAD(NULL); if (dav1d_get_decode_error_data_props(c, &m)) V("error props failed"); r.h = vh_mix(r.h, m.timestamp); dav1d_data_props_unref(&m); } } while (0)
    while (o + 4 <= fsz) {
        const uint32_t l = fdata[o] | fdata[o + 1] << 8 | fdata[o + 2] << 16 | (uint32_t)fdata[o + 3] << 24; o += 4; if (!l || l > fsz - o) break;
        Dav1dData d; memset(&d, 0, sizeof d); uint8_t *q = dav1d_data_create(&d, l); if (!q) { V("data_create failed"); break; } memcpy(q, fdata + o, l); o += l; d.m.timestamp = ++k * 10; d.m.duration = 3; d.m.offset = o;
        while (d.sz) {
            BAD(NULL); e = dav1d_send_data(c, &d);
            if (e < 0 && e != DAV1D_ERR(EAGAIN)) { r.err++; r.h = vh_mix(r.h, e); Dav1dDataProps m; memset(&m, 0, sizeof m); BAD(NULL); if (dav1d_get_decode_error_data_props(c, &m)) V("error props failed"); r.h = vh_mix(r.h, m.timestamp); dav1d_data_props_unref(&m); dav1d_data_unref(&d); }
            if (!e && d.sz) V("send_data returned 0 without consuming");
            POLL();
        }
    }
    int again = 0; for (int g = 0; again < 2 && g < 10000; g++) { POLL(); if (e == DAV1D_ERR(EAGAIN)) again++; else again = 0; }
    BAD(NULL); dav1d_close(&c); if (c) V("close left the context set");
    return r;
}
static int job_settings(void) {
    fdata = b_file(b_opt("file", ""), &fsz);
    const int n = b_int("n", 20);
    for (int it = 0; it < n; it++) {
        Dav1dSettings S; memset(&S, (int)b_rnd(), sizeof S); dav1d_default_settings(&S); Dav1dSettings S2; memset(&S2, (int)b_rnd(), sizeof S2); dav1d_default_settings(&S2);
#define EQ(f) if (S.f != S2.f) V("default of " #f " varies"); n_calls++
#define DEF(f, v) EQ(f); if (S.f != (v)) V("default of " #f " is not the documented one")
        DEF(n_threads, 0); DEF(max_frame_delay, 0); DEF(apply_grain, 1); DEF(operating_point, 0); DEF(all_layers, 1); DEF(frame_size_limit, 0); DEF(strict_std_compliance, 0); DEF(output_invisible_frames, 0); DEF(inloop_filters, DAV1D_INLOOPFILTER_ALL); DEF(decode_frame_type, DAV1D_DECODEFRAMETYPE_ALL);
        DEF(allocator.cookie, NULL); DEF(logger.cookie, NULL); EQ(allocator.alloc_picture_callback); EQ(allocator.release_picture_callback); EQ(logger.callback);
        if (!S.logger.callback || !S.allocator.alloc_picture_callback || !S.allocator.release_picture_callback) V("default callback missing");
        int inval = 0; const int mode = b_rnd() % 4;                     /* 0: all valid, else one or more out of range */
#define ROLL() (mode && b_rnd() % 6 == 0)
        if (ROLL()) { S.n_threads = bad_int(); inval = 1; } else S.n_threads = b_rnd() % 8 == 0 ? b_rnd() % 257 : b_rnd() % 6;
        if (ROLL()) { S.max_frame_delay = bad_int(); inval = 1; } else S.max_frame_delay = b_rnd() % 4 == 0 ? (int)(b_rnd() % 257) : (int)(b_rnd() % 6);
        if (ROLL()) { S.operating_point = (int[]){ -1, 32, 33, 64, INT32_MAX, INT32_MIN }[b_rnd() % 6]; inval = 1; } else S.operating_point = b_rnd() % 32;
        if (ROLL()) { S.decode_frame_type = (int[]){ 4, 5, 255, 1 << 30, -1 }[b_rnd() % 5]; inval = 1; } else S.decode_frame_type = b_rnd() % 4;
        S.apply_grain = b_rnd() % 2; S.all_layers = b_rnd() % 2; S.strict_std_compliance = b_rnd() % 2; S.output_invisible_frames = b_rnd() % 2; S.inloop_filters = b_rnd() % 8; S.frame_size_limit = b_rnd() % 3 ? 0 : (unsigned)b_rnd() >> b_rnd() % 32;
        S.logger.callback = b_rnd() % 2 ? log_cb : NULL; S.logger.cookie = &cookie_o; int half = 0;
        switch (b_rnd() % 8) {
        case 0: case 1: case 2: S.allocator.alloc_picture_callback = my_alloc; S.allocator.release_picture_callback = my_release; S.allocator.cookie = &cookie_o; break;
        case 3: if (mode) { S.allocator.alloc_picture_callback = NULL; inval = 1; } break;
        case 4: if (mode) { S.allocator.release_picture_callback = NULL; inval = 1; } break;
        case 5: if (mode) { S.allocator.alloc_picture_callback = my_alloc; S.allocator.cookie = &cookie_o; half = 1; } break;
        case 6: if (mode) { if (b_rnd() & 1) { S.allocator.release_picture_callback = my_release; half = 1; } else { S.allocator.cookie = &cookie_o; half = 1; } } break;
        }
        const Dav1dSettings copy = S; const size_t live = w_live(); const long thr = w_threads_alive();
        const int d = dav1d_get_frame_delay(&S); const int dinv = S.n_threads < 0 || S.n_threads > 256 || S.max_frame_delay < 0 || S.max_frame_delay > 256;
        if (dinv ? d != DAV1D_ERR(EINVAL) : d < 1 || d > 256 || (S.max_frame_delay && d > S.max_frame_delay) || (S.n_threads && d > S.n_threads)) V("get_frame_delay of %d threads, delay %d is %d", S.n_threads, S.max_frame_delay, d);
        Dav1dContext *mark = (Dav1dContext *)&cookie_o, *c = mark; const int r = dav1d_open(&c, &S);
        if (memcmp(&copy, &S, sizeof S)) V("open or get_frame_delay changed the settings");
        if (inval) { n_bad++; if (r != DAV1D_ERR(EINVAL)) V("open returned %d for settings out of range (threads %d delay %d op %d type %d)", r, S.n_threads, S.max_frame_delay, S.operating_point, S.decode_frame_type); if (c != mark) V("rejected open changed the context pointer"); if (r == 0) return 0; }
        else if (half) { n_bad++; if (r >= 0) V("open accepted half an allocator"); if (r < 0 && c != mark && c) V("failed open left a context"); if (r >= 0) return 0; }
        else {
            n_good++; if (r || !c || c == mark) { V("open returned %d for valid settings (threads %d delay %d)", r, S.n_threads, S.max_frame_delay); continue; }
            dav1d_close(&c); if (c) V("close left the context set");
            if (S.n_threads < 9 && b_rnd() % 2) { Run q = decode(&S, 0); P("- run %d pics %d errs\n", q.n, q.err); n_calls += q.n; }
        }
        if (w_live() != live) { V("%ld blocks remain after open and close", (long)w_live() - (long)live); w_report("settings"); return 0; }
        if (w_threads_alive() != thr) V("threads remain after close");
        if (n_alloc_cb != n_rel_cb) V("%ld pictures allocated, %ld released", n_alloc_cb, n_rel_cb);
    }
    if (n_logbad) V("logger called with a wrong cookie");
    P("S bad %ld good %ld log %ld allocs %ld\n", n_bad, n_good, n_log, n_alloc_cb); return 0;
}
static int job_delay(void) {
    Dav1dSettings S; dav1d_default_settings(&S); int prev[258]; memset(prev, 0, sizeof prev);
    for (int t = 0; t <= 256; t++) for (int d = 0; d <= 256; d++) {
        S.n_threads = t; S.max_frame_delay = d; const int r = dav1d_get_frame_delay(&S); n_good++;
        if (r < 1 || r > 256) V("frame delay of %d threads, delay %d is %d", t, d, r);
        if (d && r > d) V("frame delay %d above max_frame_delay %d (%d threads)", r, d, t);
        if (t && r > t) V("frame delay %d above the %d threads", r, t);
        if (t && d && r != (d < t ? d : t)) V("frame delay of %d threads, delay %d is %d", t, d, r);
        if (t > 1 && r < prev[d]) V("frame delay falls from %d to %d at %d threads, delay %d", prev[d], r, t, d);
        if (t) prev[d] = r;
        if (t && !d) { int q = 1; while (q * q < t) q++; if (r != q && !(t > 64 && r >= 8)) V("default frame delay of %d threads is %d, documented is the square root", t, r); }
    }
    for (int i = 0; i < 4000; i++) { S.n_threads = b_rnd() & 1 ? bad_int() : (int)(b_rnd() % 257); S.max_frame_delay = b_rnd() & 1 ? bad_int() : (int)(b_rnd() % 257); const int inv = S.n_threads < 0 || S.n_threads > 256 || S.max_frame_delay < 0 || S.max_frame_delay > 256; const int r = dav1d_get_frame_delay(&S); n_bad += inv; if (inv ? r != DAV1D_ERR(EINVAL) : r < 1) V("get_frame_delay of %d threads, delay %d is %d", S.n_threads, S.max_frame_delay, r); }
    const char *v = dav1d_version(); const unsigned a = dav1d_version_api();
    if (!v || !*v || v != dav1d_version()) V("version string"); if (a != ((DAV1D_API_VERSION_MAJOR << 16) | (DAV1D_API_VERSION_MINOR << 8) | DAV1D_API_VERSION_PATCH)) V("API version %x", a);
    P("S version %s api %06x bad %ld good %ld\n", v, a, n_bad, n_good); return 0;
}
/* ---------------- invalid calls ---------------- */
static long n_free; static void free_cb(const uint8_t *d, void *ck) { n_free++; if (ck != &cookie_o) V("free callback called with a wrong cookie"); }
static void bad(Dav1dContext *c, const Dav1dPicture *pic, const Dav1dSettings *S) {
    static uint8_t buf[64] = { 0x12, 0, 0x0a, 5 }; n_calls++;
#define INV(x) do { const int r_ = (x); if (r_ != DAV1D_ERR(EINVAL)) V("%s returned %d", #x, r_); } while (0)
    Dav1dData d, d2; for (size_t i = 0; i < sizeof d; i++) ((uint8_t *)&d)[i] = i * 7; d.ref = NULL; d.data = buf; d.sz = 4; d.m.user_data.ref = NULL; d2 = d; const long fr = n_free;
#define DSAME() if (memcmp(&d, &d2, sizeof d)) V("an invalid call changed the data object (case %d)", k)
    Dav1dPicture p, p2; memset(&p, 0x5A, sizeof p); p.data[0] = NULL; p.ref = NULL; p2 = p;
#define PSAME() if (memcmp(&p, &p2, sizeof p)) V("an invalid call changed the picture object (case %d)", k)
    const int k = b_rnd() % 27;
    switch (k) {
    case 0: INV(dav1d_send_data(NULL, &d)); DSAME(); break;
    case 1: INV(dav1d_send_data(c, NULL)); break;
    case 2: d.sz = 0; d2 = d; INV(dav1d_send_data(c, &d)); DSAME(); break;
    case 3: d.sz = SIZE_MAX / 2 + 1 + b_rnd() % 5; d2 = d; INV(dav1d_send_data(c, &d)); DSAME(); break;
    case 4: INV(dav1d_get_picture(NULL, &p)); PSAME(); break;
    case 5: INV(dav1d_get_picture(c, NULL)); break;
    case 6: INV(dav1d_apply_grain(NULL, &p, pic ? pic : &p2)); PSAME(); break;
    case 7: INV(dav1d_apply_grain(c, NULL, pic ? pic : &p2)); break;
    case 8: INV(dav1d_apply_grain(c, &p, NULL)); PSAME(); break;
    case 9: { enum Dav1dEventFlags f = 77; INV(dav1d_get_event_flags(NULL, &f)); if (f != 77) V("rejected get_event_flags wrote flags"); break; }
    case 10: INV(dav1d_get_event_flags(c, NULL)); break;
    case 11: { Dav1dDataProps m, m2; memset(&m, 0x11, sizeof m); m2 = m; INV(dav1d_get_decode_error_data_props(NULL, &m)); if (memcmp(&m, &m2, sizeof m)) V("rejected get_decode_error_data_props changed its output"); break; }
    case 12: INV(dav1d_get_decode_error_data_props(c, NULL)); break;
    case 13: INV(dav1d_open(NULL, S)); break;
    case 14: { Dav1dContext *x = (void *)buf; INV(dav1d_open(&x, NULL)); if (x != (void *)buf) V("rejected open changed the context pointer"); break; }
    case 15: { Dav1dSettings s = *S; switch (b_rnd() % 6) { case 0: s.n_threads = bad_int(); break; case 1: s.max_frame_delay = bad_int(); break; case 2: s.operating_point = 32; break; case 3: s.decode_frame_type = 4; break; case 4: s.allocator.alloc_picture_callback = NULL; break; default: s.allocator.release_picture_callback = NULL; }
        Dav1dContext *x = (void *)buf; INV(dav1d_open(&x, &s)); if (x != (void *)buf) V("rejected open changed the context pointer"); break; }
    case 16: INV(dav1d_get_frame_delay(NULL)); break;
    case 17: if (dav1d_data_create(NULL, 10)) V("data_create(NULL) succeeded"); break;
    case 18: if (dav1d_data_create(&d, SIZE_MAX - b_rnd() % 3)) V("data_create of a huge size succeeded"); DSAME(); if (dav1d_data_create(&d, SIZE_MAX / 2 + 1)) V("data_create of a huge size succeeded"); DSAME(); break;
    case 19: if (dav1d_data_create(&d, SIZE_MAX / 2 - b_rnd() % 70)) V("data_create of a huge size succeeded"); DSAME(); break;
    case 20: INV(dav1d_data_wrap(NULL, buf, 4, free_cb, &cookie_o)); INV(dav1d_data_wrap(&d, NULL, 4, free_cb, &cookie_o)); INV(dav1d_data_wrap(&d, buf, 4, NULL, &cookie_o)); INV(dav1d_data_wrap(&d, buf, SIZE_MAX / 2 + 1, free_cb, &cookie_o)); DSAME(); if (n_free != fr) V("rejected data_wrap called the free callback"); break;
    case 21: INV(dav1d_data_wrap_user_data(NULL, buf, free_cb, &cookie_o)); INV(dav1d_data_wrap_user_data(&d, buf, NULL, &cookie_o)); DSAME(); if (n_free != fr) V("rejected data_wrap_user_data called the free callback"); break;
    case 22: dav1d_data_unref(NULL); dav1d_data_props_unref(NULL); dav1d_picture_unref(NULL); dav1d_close(NULL); { Dav1dContext *x = NULL; dav1d_close(&x); if (x) V("close of nothing set the pointer"); } break;
    case 23: { Dav1dData e; memset(&e, 0, sizeof e); dav1d_data_unref(&e); if (e.data || e.sz || e.ref || e.m.user_data.ref) V("unref of empty data filled it"); Dav1dPicture q; memset(&q, 0, sizeof q); dav1d_picture_unref(&q); if (q.data[0] || q.ref || q.seq_hdr || q.frame_hdr) V("unref of an empty picture filled it"); Dav1dDataProps m; memset(&m, 0, sizeof m); dav1d_data_props_unref(&m); break; }
    case 24: { Dav1dSequenceHeader s, s2; memset(&s, 0x33, sizeof s); s2 = s; INV(dav1d_parse_sequence_header(NULL, buf, 4)); INV(dav1d_parse_sequence_header(&s, NULL, 4)); INV(dav1d_parse_sequence_header(&s, buf, 0)); INV(dav1d_parse_sequence_header(&s, buf, SIZE_MAX / 2 + 1)); if (memcmp(&s, &s2, sizeof s)) V("rejected parse_sequence_header changed its output"); break; }
    case 25: { Dav1dData e; memset(&e, 0, sizeof e); if (dav1d_data_wrap(&e, buf, 4, free_cb, &cookie_o) || e.data != buf || e.sz != 4) V("data_wrap failed"); else { if (dav1d_data_wrap_user_data(&e, b_rnd() & 1 ? buf + 8 : NULL, free_cb, &cookie_o)) V("data_wrap_user_data failed"); if (n_free != fr) V("free callback called too early"); dav1d_data_unref(&e); if (n_free != fr + 2) V("free callbacks called %ld times", n_free - fr); if (e.data || e.sz || e.ref || e.m.user_data.ref) V("data_unref left fields set"); } break; }
    case 26: { Dav1dData e; memset(&e, 0, sizeof e); uint8_t *q = dav1d_data_create(&e, 1 + b_rnd() % 100); if (!q || q != e.data || e.m.size != e.sz) V("data_create failed"); else { memset(q, 1, e.sz); INV(dav1d_send_data(NULL, &e)); if (e.data != q || !e.ref) V("rejected send_data took the data"); } dav1d_data_unref(&e); if (e.data || e.sz || e.ref) V("data_unref left fields set"); break; }
    }
}
static int job_calls(void) {
    fdata = b_file(b_opt("file", ""), &fsz); Dav1dSettings S; dav1d_default_settings(&S); S.n_threads = b_int("threads", 1); S.max_frame_delay = b_int("delay", 0); S.logger.callback = b_int("log", 1) ? log_cb : NULL; S.logger.cookie = &cookie_o; S.apply_grain = b_int("grain", 1); S.all_layers = b_int("all", 1); S.output_invisible_frames = b_int("invis", 0);
    if (b_rnd() & 1) { S.allocator.alloc_picture_callback = my_alloc; S.allocator.release_picture_callback = my_release; S.allocator.cookie = &cookie_o; }
    const size_t live = w_live(); Run a = decode(&S, 0); const long log0 = n_log; Run b = decode(&S, 1 + b_rnd() % 3);
    if (a.h != b.h || a.n != b.n || a.err != b.err || a.ev != b.ev) V("invalid calls changed the decode: %d pictures, %d errors, hash %016llx, events %016llx became %d, %d, %016llx, %016llx", a.n, a.err, (unsigned long long)a.h, (unsigned long long)a.ev, b.n, b.err, (unsigned long long)b.h, (unsigned long long)b.ev);
    if (n_logbad) V("logger called with a wrong cookie"); if (S.logger.callback && n_log - log0 < log0) V("fewer log messages with invalid calls: %ld, %ld", n_log - log0, log0);
    if (w_live() != live) { V("%ld blocks remain", (long)w_live() - (long)live); w_report("calls"); }
    if (n_alloc_cb != n_rel_cb) V("%ld pictures allocated, %ld released", n_alloc_cb, n_rel_cb);
    P("S pics %d errs %d calls %ld log %ld\n", b.n, b.err, n_calls, n_log); return 0;
}
static int job_log(void) {   /* the default logger writes to stderr only, a NULL logger nowhere */
    fdata = b_file(b_opt("file", ""), &fsz); Dav1dSettings S; dav1d_default_settings(&S); S.n_threads = b_int("threads", 1); const int m = b_int("log", 0); show_log = 1;
    if (!m) S.logger.callback = NULL; else if (m == 2) { S.logger.callback = log_cb; S.logger.cookie = &cookie_o; }
    Run a = decode(&S, 0); if (n_logbad) V("logger called with a wrong cookie"); P("S pics %d errs %d log %ld\n", a.n, a.err, n_log); return 0;
}
static int job(int ac, char **av) {
    b_ac = ac; b_av = av; b_seed = b_int("seed", 1); alarm(b_int("timeout", 120)); out = fdopen(dup(1), "w"); const char *j = b_opt("job", ""); w_ledger = 1;
    FILE *t1 = tmpfile(); dup2(fileno(t1), 1);                           /* stderr is watched by the check */
    int r = !strcmp(j, "seq") ? job_seq() : !strcmp(j, "settings") ? job_settings() : !strcmp(j, "delay") ? job_delay() : !strcmp(j, "calls") ? job_calls() : !strcmp(j, "log") ? job_log() : 2;
    fflush(stdout); struct stat s1; fstat(fileno(t1), &s1);
    if (s1.st_size) V("%ld bytes written to stdout", (long)s1.st_size);
    fflush(out); return r;
}
int main(int argc, char **argv) { return batch_main(argc, argv, job); }
