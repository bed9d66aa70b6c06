/* vdec: job-driven dav1d harness with online monitors.  All arguments are key=value.
 * Prints a trace:
 *   P ...   one line per returned picture        R ...  a call returned an error
 *   E ...   event flags                          A ...  picture-allocator request
 *   V ...   a monitor saw a violation            S ...  statistics
 */
#define _GNU_SOURCE
#include <errno.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <ucontext.h>
#if defined(__has_feature)
#if __has_feature(address_sanitizer) || __has_feature(memory_sanitizer) || __has_feature(thread_sanitizer)
#define SANITIZED 1
#endif
#endif
#ifndef SANITIZED
#define SANITIZED 0
#endif
#include "batch.h"
#include "dav1d/dav1d.h"
#include "hdrdump.h"
#include "wrap.h"
#ifdef SCHED
#include "vsched.h"
#endif

DAV1D_API void dav1d_set_cpu_flags_mask(unsigned mask);
static int g_argc; static char **g_argv;
static const char *opt(const char *k, const char *d) {
    const size_t n = strlen(k);
    for (int i = 1; i < g_argc; i++) if (!strncmp(g_argv[i], k, n) && g_argv[i][n] == '=') return g_argv[i] + n + 1;
    return d;
}
static long opti(const char *k, long d) { const char *s = opt(k, NULL); return s ? strtol(s, NULL, 0) : d; }
static void V(const char *f, ...) { va_list a; va_start(a, f); printf("V "); vprintf(f, a); va_end(a); printf("\n"); fflush(stdout); }
static uint64_t rs = 88172645463325252ull;
static uint32_t rnd(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 0x2545F4914F6CDD1Dull >> 32; }

/* ---------- packets ---------- */
typedef struct { size_t off, sz; } Pkt;
static uint8_t *file; static size_t fsz;
static Pkt *pk; static int npk;
static size_t leb(size_t p, size_t *v) { size_t n = 0; *v = 0; while (p + n < fsz && n < 8) { *v |= (size_t)(file[p + n] & 127) << (7 * n); if (!(file[p + n++] & 128)) break; } return n; }
static void add_pkt(size_t a, size_t b) { pk = xrealloc(pk, (npk + 1) * sizeof *pk); pk[npk++] = (Pkt){ a, b - a }; }
static void packetise(const char *mode) {
    if (!strcmp(mode, "all")) { if (fsz) add_pkt(0, fsz); return; }
    if (!strncmp(mode, "list:", 5)) { /* explicit sizes */
        size_t o = 0; const char *s = mode + 5; while (*s && o < fsz) { size_t n = strtoul(s, (char **)&s, 10); if (*s == ',') s++; if (!n) continue; if (n > fsz - o) n = fsz - o; add_pkt(o, o + n); o += n; }
        if (o < fsz) add_pkt(o, fsz);
        return;
    }
    if (!strncmp(mode, "sz:", 3)) { /* file is a sequence of u32 length-prefixed packets */
        size_t o = 0; while (o + 4 <= fsz) { size_t n = file[o] | file[o + 1] << 8 | file[o + 2] << 16 | (size_t)file[o + 3] << 24; o += 4; if (n > fsz - o) n = fsz - o; if (n) add_pkt(o, o + n); o += n; }
        return;
    }
    const int obu = !strcmp(mode, "obu"), r = !strncmp(mode, "rnd", 3); if (r && mode[3] == ':') rs ^= strtoull(mode + 4, NULL, 10) * 0x9E3779B97F4A7C15ull;
    size_t s = 0, p = 0;
    while (p < fsz) {
        const int t = file[p] >> 3 & 15, e = file[p] >> 2 & 1, hs = file[p] >> 1 & 1; size_t len = 0, l = 0;
        if (hs) l = leb(p + 1 + e, &len); else len = fsz - p - 1 - e;
        if (p > s && (obu || (r ? rnd() % 3 == 0 : t == 2))) { add_pkt(s, p); s = p; }
        p += 1 + e + l + len; if (p > fsz) p = fsz;
    }
    if (p > s) add_pkt(s, p);
}
/* props=sign|neg: packet properties use the upper and negative half of their range (the trace shows them mapped back); def: left as the library initialises them */
static const char *g_props = "";
static long long PV(long long v) { return *g_props == 's' ? (long long)((unsigned long long)v ^ 1ull << 63) : *g_props == 'n' ? -v : v; }
/* ---------- input data ledger ---------- */
typedef struct { uint8_t *map; size_t maplen; const uint8_t *data; size_t sz; atomic_int freed, ud_freed; uint64_t hash; int idx; int accepted, wrapped; char ud[16]; } In;
static In **ins; static int nins; static int g_guard, g_free_junk; static atomic_int live_data, live_ud;
static void free_cb(const uint8_t *buf, void *cookie) {
    In *in = cookie;
    if (atomic_fetch_add(&in->freed, 1)) V("data packet %d released twice", in->idx);
    if (buf != in->data) V("data packet %d released with a wrong pointer", in->idx);
    if (vh_bytes(1, in->data, in->sz) != in->hash) V("data packet %d was modified", in->idx);
    atomic_fetch_sub(&live_data, 1);
    if (g_guard) mprotect(in->map, in->maplen, PROT_NONE); else if (g_free_junk) memset((void *)in->data, 0xA5, in->sz);
}
static void ud_cb(const uint8_t *buf, void *cookie) {
    In *in = cookie;
    if (atomic_fetch_add(&in->ud_freed, 1)) V("user data %d released twice", in->idx);
    if (buf != (uint8_t *)in->ud) V("user data %d released with a wrong pointer", in->idx);
    atomic_fetch_sub(&live_ud, 1);
}
static int make_data(Dav1dData *d, int k) {
    memset(d, 0, sizeof *d);
    In *in = xcalloc(1, sizeof *in); ins = xrealloc(ins, (nins + 1) * sizeof *ins); ins[nins++] = in;
    in->idx = k; in->sz = pk[k].sz;
    const char *mode = opt("data", "wrap"); int r; in->ud_freed = 1; in->freed = !strcmp(mode, "create");
    if (!strcmp(mode, "create")) {
        uint8_t *p = dav1d_data_create(d, in->sz); if (!p) return DAV1D_ERR(ENOMEM);
        memcpy(p, file + pk[k].off, in->sz); in->freed = 1;
    } else {
        if (g_guard) {
            const size_t pg = 4096, n = (in->sz + pg - 1) / pg * pg; in->maplen = n + 2 * pg;
            in->map = mmap(NULL, in->maplen, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (in->map == MAP_FAILED) exit(2);
            mprotect(in->map + pg, n, PROT_READ | PROT_WRITE);
            uint8_t *p = in->map + pg + (n - in->sz); memcpy(p, file + pk[k].off, in->sz); in->data = p;
            mprotect(in->map + pg, n, PROT_READ);
        } else { uint8_t *p = xmalloc(in->sz ? in->sz : 1); memcpy(p, file + pk[k].off, in->sz); in->data = p; }
        in->hash = vh_bytes(1, in->data, in->sz);
        r = dav1d_data_wrap(d, in->data, in->sz, free_cb, in); if (r) { in->freed = 1; return r; }
        in->wrapped = 1; atomic_fetch_add(&live_data, 1);
    }
    if (strcmp(g_props, "def")) { d->m.timestamp = PV(1000 + 10 * (int64_t)k); d->m.duration = PV(7 + k % 5); d->m.offset = PV(100000 + (int64_t)pk[k].off); }   /* def: as dav1d_data_wrap leaves them */
    snprintf(in->ud, sizeof in->ud, "u%d", k); in->ud_freed = 1;
    if (opti("ud", 1)) { in->ud_freed = 0; atomic_fetch_add(&live_ud, 1); r = dav1d_data_wrap_user_data(d, (uint8_t *)in->ud, ud_cb, in); if (r) { in->ud_freed = 1; atomic_fetch_sub(&live_ud, 1); } }
    return 0;
}
/* ---------- picture allocator ---------- */
typedef struct Buf { uint8_t *map; size_t maplen; uint8_t *pl[3]; size_t plen[3]; ptrdiff_t rowb[2], stride[2]; int rows[2]; Dav1dPictureParameters p; int id; atomic_int released; struct Buf *next; } Buf;
static const char *g_alloc; static atomic_int live_pics; static int n_pic_alloc; static long g_fail_pic; static int g_trace_alloc; static int cookie_obj;
static Buf *allbufs[100000];
static int pic_alloc(Dav1dPicture *p, void *cookie) {
    const int id = ++n_pic_alloc;
    if (cookie != &cookie_obj) V("allocator called with a wrong cookie");
    if (p->data[0] || p->data[1] || p->data[2]) V("allocator called with non-NULL planes");
    if (p->p.w <= 0 || p->p.h <= 0 || p->p.w > 65536 || p->p.h > 65536 || (p->p.bpc != 8 && p->p.bpc != 10 && p->p.bpc != 12) || (int)p->p.layout < 0 || p->p.layout > 3) V("allocator called with bad parameters %dx%d layout %d bpc %d", p->p.w, p->p.h, p->p.layout, p->p.bpc);
    if (!p->seq_hdr || !p->frame_hdr) V("allocator called without headers");
    else {
        if (p->p.layout != p->seq_hdr->layout) V("allocator layout differs from the sequence header");
        if (p->p.bpc != 8 + 2 * p->seq_hdr->hbd) V("allocator bpc differs from the sequence header");
        if (p->p.h != p->frame_hdr->height || (p->p.w != p->frame_hdr->width[0] && p->p.w != p->frame_hdr->width[1])) V("allocator size differs from the frame header");
    }
    if (g_trace_alloc) printf("A %d %dx%d layout %d bpc %d\n", id, p->p.w, p->p.h, p->p.layout, p->p.bpc);
    if (g_fail_pic && id == g_fail_pic) { w_n_failed++; return DAV1D_ERR(ENOMEM); }
    const int hbd = p->p.bpc > 8, aw = (p->p.w + 127) & ~127, ah = (p->p.h + 127) & ~127;
    const int ch = p->p.layout != DAV1D_PIXEL_LAYOUT_I400, ssv = p->p.layout == DAV1D_PIXEL_LAYOUT_I420, ssh = p->p.layout != DAV1D_PIXEL_LAYOUT_I444;
    Buf *b = xcalloc(1, sizeof *b); b->id = id; b->p = p->p; if (id < 100000) allbufs[id] = b;
    b->rowb[0] = (ptrdiff_t)aw << hbd; b->rowb[1] = ch ? b->rowb[0] >> ssh : 0; b->rows[0] = ah; b->rows[1] = ch ? ah >> ssv : 0;
    const int var = !strcmp(g_alloc, "padvar"), pad = var || !strcmp(g_alloc, "pad") || !strcmp(g_alloc, "negpad"), neg = !strncmp(g_alloc, "neg", 3), over = !strcmp(g_alloc, "over");
    for (int i = 0; i < 2; i++) b->stride[i] = b->rowb[i] + (pad && b->rowb[i] ? 64 * (1 + ((var ? id * 7 : aw / 128 + ah / 128 + p->p.layout) + i) % 5) : 0);
    const size_t pg = 4096; size_t tot = pg, off[3];
    for (int i = 0; i < 1 + 2 * ch; i++) {
        b->plen[i] = b->stride[!!i] * b->rows[!!i] + (over ? 0 : opti("exactpad", 0) ? 64 : 128); /* 64: the documented over-read pad; twice that unless asked for (see KNOWN_FINDINGS C20) */
        size_t n = (b->plen[i] + pg - 1) / pg * pg; if (over) n += 4 * pg;
        off[i] = tot + (over ? pg + 64 * ((id * 5 + i) % 17) : n - b->plen[i]); tot += n + pg;
    }
    b->maplen = tot; b->map = mmap(NULL, tot, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (b->map == MAP_FAILED) { xfree(b); return DAV1D_ERR(ENOMEM); }
    size_t t = pg;
    for (int i = 0; i < 1 + 2 * ch; i++) {
        size_t n = (b->plen[i] + pg - 1) / pg * pg; if (over) n += 4 * pg;
        mprotect(b->map + t, n, PROT_READ | PROT_WRITE); memset(b->map + t, 0xC7, n);
        b->pl[i] = b->map + off[i]; t += n + pg;
        const int fillv = opti("picfill", 0x5B);
        for (int y = 0; y < b->rows[!!i]; y++) { uint8_t *r = b->pl[i] + y * b->stride[!!i]; if (fillv == 256) for (int x = 0; x < b->rowb[!!i]; x++) r[x] = rnd(); else memset(r, fillv, b->rowb[!!i]); }
        p->data[i] = neg ? b->pl[i] + (b->rows[!!i] - 1) * b->stride[!!i] : b->pl[i];
    }
    for (int i = 0; i < 2; i++) p->stride[i] = neg ? -b->stride[i] : b->stride[i];
    p->allocator_data = b; atomic_fetch_add(&live_pics, 1);
    return 0;
}
static void pic_release(Dav1dPicture *p, void *cookie) {
    Buf *b = p->allocator_data;
    if (cookie != &cookie_obj) V("release called with a wrong cookie");
    if (!b) { V("release called without allocator_data"); return; }
    if (atomic_fetch_add(&b->released, 1)) { V("picture buffer %d released twice", b->id); return; }
    const int neg = !strncmp(g_alloc, "neg", 3);
    for (int i = 0; i < 3; i++) {
        const uint8_t *want = !b->pl[i] ? NULL : neg ? b->pl[i] + (b->rows[!!i] - 1) * b->stride[!!i] : b->pl[i];
        if (p->data[i] != want) V("release called with a changed plane pointer");
        if (!b->pl[i]) continue;
        int bad = 0; size_t badoff = 0;
        for (int y = 0; y < b->rows[!!i] && !bad; y++) for (ptrdiff_t x = b->rowb[!!i]; x < b->stride[!!i]; x++) if (b->pl[i][y * b->stride[!!i] + x] != 0xC7) { bad = 1; badoff = y; break; }
        if (bad) V("decoder wrote into the stride padding of plane %d row %zu (buffer %d)", i, badoff, b->id);
        const uint8_t *e = b->pl[i] + b->stride[!!i] * b->rows[!!i];
        const size_t after = !strcmp(g_alloc, "over") ? 2048 : 64, before = !strcmp(g_alloc, "over") ? 2048 : 0;
        for (size_t k = 0; k < after; k++) if (e[k] != 0xC7) { V("decoder wrote %zu bytes past plane %d (buffer %d)", k, i, b->id); break; }
        for (size_t k = 1; k <= before; k++) if (b->pl[i][-(ptrdiff_t)k] != 0xC7) { V("decoder wrote %zu bytes before plane %d (buffer %d)", k, i, b->id); break; }
    }
    for (int i = 0; i < 2; i++) if (p->stride[i] != (neg ? -b->stride[i] : b->stride[i])) V("release called with a changed stride");
    if (p->p.w != b->p.w || p->p.h != b->p.h || p->p.bpc != b->p.bpc || p->p.layout != b->p.layout) V("release called with changed parameters");
    atomic_fetch_sub(&live_pics, 1);
    munmap(b->map, b->maplen); if (b->id >= 100000) xfree(b);
}
/* ---------- pictures ---------- */
static uint64_t pic_hash(const Dav1dPicture *p) {
    uint64_t h = 1; const int ssv = p->p.layout == DAV1D_PIXEL_LAYOUT_I420, ssh = p->p.layout != DAV1D_PIXEL_LAYOUT_I444;
    for (int pl = 0; pl < (p->p.layout ? 3 : 1); pl++) {
        const int w = pl ? (p->p.w + ssh) >> ssh : p->p.w, hh = pl ? (p->p.h + ssv) >> ssv : p->p.h;
        for (int y = 0; y < hh; y++) { const uint8_t *r = (uint8_t *)p->data[pl] + y * p->stride[!!pl]; h = p->p.bpc > 8 ? vh_row16(h, r, w) : vh_row8(h, r, w); }
    }
    return h;
}
static uint64_t t35_hash(const Dav1dPicture *p) {
    uint64_t h = 3;
    for (size_t i = 0; i < p->n_itut_t35; i++) { const Dav1dITUTT35 *t = &p->itut_t35[i]; h = vh_mix(h, t->country_code | (t->country_code == 0xff ? t->country_code_extension_byte << 8 : 0)); h = vh_mix(h, t->payload_size); h = vh_bytes(h, t->payload, t->payload_size); }
    return h;
}
static void pic_line(char *s, size_t n, const Dav1dPicture *p) {
    int o = snprintf(s, n, "%dx%d l%d b%d h=%016llx ts=%lld dur=%lld off=%lld sz=%zu ud=%s ft=%d sf=%d sid=%d tid=%d sh=%016llx fh=%016llx", p->p.w, p->p.h, p->p.layout, p->p.bpc, (unsigned long long)pic_hash(p),
        PV(p->m.timestamp), PV(p->m.duration), PV(p->m.offset), p->m.size, p->m.user_data.data ? (const char *)p->m.user_data.data : "-",
        p->frame_hdr->frame_type, p->frame_hdr->show_frame, p->frame_hdr->spatial_id, p->frame_hdr->temporal_id,
        (unsigned long long)hash_seq(p->seq_hdr), (unsigned long long)hash_frame(p->frame_hdr));
    const Dav1dContentLightLevel *c = p->content_light; const Dav1dMasteringDisplay *m = p->mastering_display;
    if (c) o += snprintf(s + o, n - o, " cll=%d,%d", c->max_content_light_level, c->max_frame_average_light_level); else o += snprintf(s + o, n - o, " cll=-");
    if (m) o += snprintf(s + o, n - o, " md=%d,%d,%d,%d,%d,%d,%d,%d,%u,%u", m->primaries[0][0], m->primaries[0][1], m->primaries[1][0], m->primaries[1][1], m->primaries[2][0], m->primaries[2][1], m->white_point[0], m->white_point[1], m->max_luminance, m->min_luminance);
    else o += snprintf(s + o, n - o, " md=-");
    o += snprintf(s + o, n - o, " t35=%zu,%016llx", p->n_itut_t35, (unsigned long long)t35_hash(p));
}
typedef struct { Dav1dPicture p; char line[1024]; int n; } Held;
static Held *held; static int nheld, caph, g_hold, npic, g_hdr, g_t35; static FILE *raw;
static void release(Held *h) {
    char l[1024]; pic_line(l, sizeof l, &h->p);
    if (strcmp(l, h->line)) V("picture %d changed while held: [%s] -> [%s]", h->n, h->line, l);
    dav1d_picture_unref(&h->p);
    Dav1dPicture z; memset(&z, 0, sizeof z); if (memcmp(&z.data, &h->p.data, sizeof z.data) || h->p.ref) V("picture not cleared by unref");
}
static void drop_held(int keep) {
    while (nheld > keep) { const int k = keep || g_hold >= 1000 ? (int)(rnd() % nheld) : 0; release(&held[k]); memmove(held + k, held + k + 1, (nheld - k - 1) * sizeof *held); nheld--; }
}
static Dav1dContext *ctx; static int cur_pkt = -1, n_err, g_quiet;
/* pictures released by other application threads, concurrently with decoding (relthreads=N) */
static pthread_mutex_t rq_m = PTHREAD_MUTEX_INITIALIZER; static pthread_cond_t rq_c = PTHREAD_COND_INITIALIZER;
static Held rq[4096]; static int rq_n, rq_stop, rq_threads; static pthread_t rq_t[8];
static void *rel_thread(void *x) {
    (void)x;
    for (;;) {
        Held h; pthread_mutex_lock(&rq_m);
        while (!rq_n && !rq_stop) pthread_cond_wait(&rq_c, &rq_m);
        if (!rq_n) { pthread_mutex_unlock(&rq_m); return NULL; }
        h = rq[--rq_n]; pthread_mutex_unlock(&rq_m);
        release(&h);
    }
}
static void rel_start(int n) { rq_threads = n; for (int i = 0; i < n; i++) if (pthread_create(&rq_t[i], NULL, rel_thread, NULL)) exit(3); }
static void rel_stop(void) {
    if (!rq_threads) return;
    pthread_mutex_lock(&rq_m); rq_stop = 1; pthread_cond_broadcast(&rq_c); pthread_mutex_unlock(&rq_m);
    for (int i = 0; i < rq_threads; i++) pthread_join(rq_t[i], NULL);
    rq_threads = 0;
}
static void got_picture(Dav1dPicture *p) {
    char l[1024]; pic_line(l, sizeof l, p);
    if (p->p.layout == DAV1D_PIXEL_LAYOUT_I400 ? 0 : !p->data[1]) V("chroma plane missing");
    enum Dav1dEventFlags fl = 0, f2 = 0; dav1d_get_event_flags(ctx, &fl); dav1d_get_event_flags(ctx, &f2); if (f2) V("event flags not cleared by reading");
    if (!g_quiet) printf("P i=%d pkt=%d ev=%d %s\n", npic, cur_pkt, fl, l);
    if (g_hdr) { static char t[32768]; HBuf b = { t, 0, sizeof t }; dump_seq(&b, p->seq_hdr); printf("HS%s\n", t); b.n = 0; dump_frame(&b, p->frame_hdr); printf("HF%s\n", t); }
    if (g_t35) for (size_t i = 0; i < p->n_itut_t35; i++) { printf("T %d %d ", p->itut_t35[i].country_code, p->itut_t35[i].country_code_extension_byte); for (size_t k = 0; k < p->itut_t35[i].payload_size; k++) printf("%02x", p->itut_t35[i].payload[k]); printf("\n"); }
    if (raw) for (int pl = 0; pl < (p->p.layout ? 3 : 1); pl++) {
        const int ssv = pl && p->p.layout == DAV1D_PIXEL_LAYOUT_I420, ssh = pl && p->p.layout != DAV1D_PIXEL_LAYOUT_I444;
        const int w = (p->p.w + ssh) >> ssh, hh = (p->p.h + ssv) >> ssv;
        for (int y = 0; y < hh; y++) fwrite((uint8_t *)p->data[pl] + y * p->stride[!!pl], 1 + (p->p.bpc > 8), w, raw);
    }
    npic++;
    if (opti("fgapply", 0)) {   /* standalone grain application on every picture; printed like the library's own output */
        Dav1dPicture o; memset(&o, 0, sizeof o); const int r = dav1d_apply_grain(ctx, &o, p);
        if (r < 0) { printf("G res=%d\n", r); if (o.data[0] || o.ref || o.seq_hdr || o.p.w || o.m.user_data.ref) V("apply_grain returned %d but filled the picture", r); }
        else { char m[1024]; pic_line(m, sizeof m, &o); printf("G %s\n", m); dav1d_picture_unref(&o); pic_line(m, sizeof m, p); if (strcmp(m, l)) V("apply_grain altered its source picture"); }
    }
    if (rq_threads) {
        pthread_mutex_lock(&rq_m);
        if (rq_n < 4096) { Held *h = &rq[rq_n++]; memcpy(h->line, l, sizeof l); h->n = npic - 1; h->p = *p; memset(p, 0, sizeof *p); }
        pthread_cond_signal(&rq_c); pthread_mutex_unlock(&rq_m);
        if (p->data[0]) dav1d_picture_unref(p);
    } else if (g_hold) {
        if (nheld == caph) held = xrealloc(held, (caph = caph ? caph * 2 : 16) * sizeof *held);
        Held *h = &held[nheld++]; memcpy(h->line, l, sizeof l); h->n = npic - 1; memset(&h->p, 0, sizeof h->p);
        h->p = *p; memset(p, 0, sizeof *p);     /* ownership moves with the structure */
        drop_held(g_hold);
    } else dav1d_picture_unref(p);
}
static void err_props(void) {
    Dav1dDataProps m; memset(&m, 0, sizeof m);
    if (!ctx || dav1d_get_decode_error_data_props(ctx, &m)) { V("get_decode_error_data_props failed"); return; }
    if (!g_quiet) printf("X ts=%lld dur=%lld off=%lld sz=%zu ud=%s\n", PV(m.timestamp), PV(m.duration), PV(m.offset), m.size, m.user_data.data ? (const char *)m.user_data.data : "-");
    dav1d_data_props_unref(&m);
}
/* empties=N: an empty Dav1dData is sent before N% of the calls; that is accepted or answered with EAGAIN, and changes nothing */
static int g_empties;
static void maybe_empty(void) {
    static uint64_t er = 88172645463325252ull; const int n = g_empties; if (!n) return;
    er ^= er << 13; er ^= er >> 7; er ^= er << 17; if ((int)(er % 100) >= n) return;
    Dav1dData d; memset(&d, 0, sizeof d); const int r = dav1d_send_data(ctx, &d);
    if (r && r != DAV1D_ERR(EAGAIN)) V("an empty packet was answered with %d", r);
    if (d.data || d.sz || d.ref || d.m.user_data.ref) V("an empty packet was filled");
}
static int get_one(void) {   /* 1 picture, 0 again, <0 error (reported) */
    Dav1dPicture p; memset(&p, 0, sizeof p);
    maybe_empty(); const int r = dav1d_get_picture(ctx, &p);
    if (!r) { got_picture(&p); return 1; }
    if (p.data[0] || p.ref || p.seq_hdr || p.frame_hdr || p.p.w || p.seq_hdr_ref || p.frame_hdr_ref || p.m.user_data.ref || p.itut_t35) V("get_picture returned %d but filled the picture", r);
    if (r == DAV1D_ERR(EAGAIN)) return 0;
    n_err++; if (!g_quiet) printf("R get %d pkt=%d\n", r, cur_pkt); if (r > 0) V("get_picture returned a positive value");
    err_props(); return -1;
}
static int drain(void) {
    int again = 0; long guard = 0;
    while (again < 2) { const int r = get_one(); if (!r) again++; else again = 0; if (++guard > 100000) { V("endless drain"); return -1; } }
    return 0;
}
static void log_cb(void *cookie, const char *f, va_list ap) {
    char t[2048]; vsnprintf(t, sizeof t, f, ap); if (cookie != &cookie_obj) V("logger called with a wrong cookie");
    if (opti("showlog", 0)) { for (char *c = t; *c; c++) if (*c == '\n') *c = ' '; printf("L %s\n", t); } else fwrite("", 0, 1, stdout);
}
static Dav1dSettings S;
static int do_open(void) {
    dav1d_default_settings(&S);
    S.n_threads = opti("threads", 1); S.max_frame_delay = opti("delay", 0); S.apply_grain = opti("grain", 1);
    S.operating_point = opti("op", S.operating_point); S.all_layers = opti("all", S.all_layers); S.frame_size_limit = opti("limit", 0);
    S.strict_std_compliance = opti("strict", 0); S.output_invisible_frames = opti("invis", 0); S.inloop_filters = opti("iflags", S.inloop_filters); S.decode_frame_type = opti("dec", 0);
    if (strcmp(g_alloc, "def")) { S.allocator.cookie = &cookie_obj; S.allocator.alloc_picture_callback = pic_alloc; S.allocator.release_picture_callback = pic_release; }
    const int lg = opti("log", 1); if (lg == 1) { S.logger.callback = log_cb; S.logger.cookie = &cookie_obj; } else if (!lg) S.logger.callback = NULL;
    ctx = NULL; const int r = dav1d_open(&ctx, &S);
    if (r) { printf("R open %d\n", r); if (ctx) V("open failed but set the context"); n_err++; } else if (!ctx) V("open succeeded without a context");
    return r;
}
static int send_pkt(int k, const char *poll) {
    Dav1dData d; cur_pkt = k;
    int r = make_data(&d, k); if (r) { printf("R data %d pkt=%d\n", r, k); n_err++; dav1d_data_unref(&d); return r; }
    In *in = ins[nins - 1];
    const int cli = !strcmp(poll, "cli"), lazy = !strcmp(poll, "lazy"); long guard = 0;
    do {
        const size_t before = d.sz; const uint8_t *dp = d.data;
        maybe_empty(); r = dav1d_send_data(ctx, &d);
        if (r > 0) V("send_data returned a positive value %d", r);
        if (d.sz > before || (d.sz && d.data && d.data != dp + (before - d.sz))) V("send_data moved the data window backwards or inconsistently");
        if (r == DAV1D_ERR(EAGAIN)) {
            if (d.sz != before || !d.sz) V("send_data returned EAGAIN but consumed data");
        } else if (r < 0) {
            n_err++; if (!g_quiet) printf("R send %d pkt=%d left=%zu\n", r, k, d.sz);
            if (d.sz != before || d.data != dp) V("send_data failed (%d) but took the caller's data", r);
            if (in->wrapped && d.data && in->freed) V("send_data failed, kept data with the caller, but released it");
            dav1d_data_unref(&d); err_props(); break;
        } else if (d.sz) V("send_data returned 0 with %zu bytes left", d.sz);
        if (cli) { const int g = get_one(); (void)g; }
        else if (lazy) { if (r == DAV1D_ERR(EAGAIN)) get_one(); }
        else if (!strcmp(poll, "each")) { long m = 0; int a = 0; while (a < 1) { const int g = get_one(); if (!g) a++; if (++m > 100000) { V("endless get"); break; } } }
        else if (!strcmp(poll, "rand")) { int m = rnd() % 4; if (r == DAV1D_ERR(EAGAIN)) m++; while (m--) get_one(); }
        if (++guard > 100000) { V("send_data never accepts packet %d", k); dav1d_data_unref(&d); break; }
    } while (d.sz > 0);
    if (d.sz == 0 && d.data) V("consumed data still refers to the buffer");
    if (d.ref || d.m.user_data.ref) { if (!d.sz) V("caller's data reference not cleared after full consumption"); dav1d_data_unref(&d); }
    return r;
}
static void check_closed(const char *when) {
    if (nheld == 0 && !rq_threads) {
        if (live_pics) V("%d picture buffers never released (%s)", live_pics, when);
        if (live_data) V("%d data buffers never released (%s)", live_data, when);
        if (live_ud) V("%d user data references never released (%s)", live_ud, when);
    }
    if (w_threads_alive() != rq_threads) V("%ld threads still alive after close", w_threads_alive() - rq_threads);
}
static void do_close(void) { dav1d_close(&ctx); if (ctx) V("close did not clear the context"); check_closed("close"); }
static void on_alarm(int s) { (void)s; static const char m[] = "TIMEOUT\n"; fflush(stdout); (void)!write(1, m, sizeof m - 1); _exit(77); }

extern char __executable_start;
static void on_fault(int sg, siginfo_t *si, void *u) {
    ucontext_t *uc = u; const uintptr_t a = (uintptr_t)si->si_addr; char t[300]; int n;
    long best = -1; int id = -1, pl = -1; for (int i = 1; i < 100000 && i <= n_pic_alloc; i++) if (allbufs[i]) for (int k = 0; k < 3; k++) if (allbufs[i]->pl[k]) { const uintptr_t e = (uintptr_t)allbufs[i]->pl[k] + allbufs[i]->plen[k]; if (a >= e && (best < 0 || (long)(a - e) < best)) { best = a - e; id = i; pl = k; } }
    n = snprintf(t, sizeof t, "FAULT signal %d %s pc=0x%lx", sg, uc->uc_mcontext.gregs[REG_ERR] & 2 ? "write" : "read", (long)(uc->uc_mcontext.gregs[REG_RIP] - (uintptr_t)&__executable_start));
    if (best >= 0 && best < 8192) n += snprintf(t + n, sizeof t - n, " %ld bytes behind the padding of plane %d of buffer %d", best, pl, id);
    n += snprintf(t + n, sizeof t - n, "\n"); fflush(stdout); (void)!write(2, t, n); signal(sg, SIG_DFL); raise(sg);
}
static int job_main(int argc, char **argv) {
    g_argc = argc; g_argv = argv; setvbuf(stdout, NULL, _IOFBF, 1 << 16);
    rs ^= (uint64_t)opti("seed", 1) * 0x9E3779B97F4A7C15ull; for (int i = 0; i < 4; i++) rnd();
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_fault; sa.sa_flags = SA_SIGINFO | SA_ONSTACK; static char alt[65536]; stack_t ss = { .ss_sp = alt, .ss_size = sizeof alt }; 
    if (!opti("nofault", 0) && !SANITIZED) { sigaltstack(&ss, NULL); sigaction(SIGSEGV, &sa, NULL); sigaction(SIGBUS, &sa, NULL); sigaction(SIGILL, &sa, NULL); sigaction(SIGFPE, &sa, NULL); }
    signal(SIGALRM, on_alarm); alarm(opti("timeout", 100));
    const char *fn = opt("file", NULL); if (!fn) { fprintf(stderr, "file=\n"); return 2; }
    FILE *f = fopen(fn, "rb"); if (!f) { perror(fn); return 2; }
    fseek(f, 0, SEEK_END); fsz = ftell(f); rewind(f); file = xmalloc(fsz + 1); fsz = fread(file, 1, fsz, f); fclose(f);
    packetise(opt("pk", "tu"));
    g_empties = opti("empties", 0); g_props = opt("props", ""); g_alloc = opt("alloc", "def"); g_guard = opti("guard", 0); g_free_junk = opti("junk", 1); g_hold = opti("hold", 0); g_hdr = opti("hdr", 0); g_t35 = opti("t35", 0);
    g_fail_pic = opti("failpic", 0); g_trace_alloc = opti("tracealloc", 0); g_quiet = opti("quiet", 0);
    if (opt("raw", NULL)) raw = fopen(opt("raw", NULL), "wb");
    if (opt("cpu", NULL)) dav1d_set_cpu_flags_mask(strtoul(opt("cpu", "0"), NULL, 0));
    if (opti("ver", 0)) printf("S version %s api %x delay %d packets %d\n", dav1d_version(), dav1d_version_api(), 0, npk);
    w_fill = opti("fill", -1); w_ledger = opti("ledger", 0); w_fail_at = opti("fail", 0); w_fail_len = opti("faillen", 1); w_fail_thread = opti("failthread", 0); w_fail_site = strtoul(opt("failsite", "0"), NULL, 0);
    const char *poll = opt("poll", "cli"), *play = opt("play", "0-$,D");
    if (opti("npk", 0)) { printf("S packets %d\n", npk); return 0; }
#ifdef SCHED
    if (opti("sched", 0)) { sched_on(opti("sched", 1), opti("smode", 0), opti("speriod", 200)); sched_spurious(opti("spurious", 0)); }
    else if (opti("jitter", 0)) sched_jitter(opti("jitter", 1));
#endif
    if (opti("relthreads", 0)) rel_start(opti("relthreads", 0));
    w_thread_base = w_n_thread;
    int opened = !do_open();
    if (opened && opti("showdelay", 0)) { S.logger.callback = NULL; printf("S delay %d\n", dav1d_get_frame_delay(&S)); }
    for (const char *s = play; *s && opened;) {
        if (*s >= '0' && *s <= '9') {
            long a = strtol(s, (char **)&s, 10), b = a; if (*s == '-') { s++; if (*s == '$') { b = npk - 1; s++; } else b = strtol(s, (char **)&s, 10); }
            if (b >= npk) b = npk - 1;
            for (long k = a; k <= b; k++) send_pkt(k, poll);
        } else if (*s == 'F') { printf("- flush\n"); dav1d_flush(ctx); s++; }
        else if (*s == 'D') { drain(); s++; }
        else if (*s == 'G') { get_one(); s++; }
        else if (*s == 'V') { enum Dav1dEventFlags fl; dav1d_get_event_flags(ctx, &fl); printf("E %d\n", fl); s++; }
        else if (*s == 'C') { printf("- reopen\n"); do_close(); opened = !do_open(); s++; }
        else if (*s == 'L') { poll = "lazy"; s++; }
        else if (*s == 'K') { poll = opt("poll", "cli"); s++; }
        else if (*s == 'M') { printf("M blocks=%zu bytes=%zu peak=%zu data=%d pics=%d ud=%d threads=%ld\n", w_live(), w_bytes, w_peak, live_data, live_pics, live_ud, w_threads_alive()); w_peak = w_bytes; s++; }
        else if (*s == 'X') { err_props(); s++; }
        else if (*s == 'H') { drop_held(0); s++; }
        else if (*s == 'O') { w_fail_at = 0; w_fail_thread = 0; g_fail_pic = 0; s++; printf("- faults off (failed %ld)\n", w_n_failed); }
        else if (*s == ',') s++;
        else { fprintf(stderr, "bad play %s\n", s); return 2; }
    }
    /* close: order of close and picture release is an option */
    if (opti("heldfirst", 0)) { drop_held(0); if (opened) do_close(); }
    else { if (opened) do_close(); for (int i = 0; i < nheld; i++) { char l[1024]; pic_line(l, sizeof l, &held[i].p); if (strcmp(l, held[i].line)) V("picture %d changed after close", held[i].n); } while (nheld) release(&held[--nheld]); }
    rel_stop();
#ifdef SCHED
    sched_report(); sched_off();
#endif
    check_closed("end");
    for (int i = 0; i < nins; i++) { if (ins[i]->freed != 1) V("data packet %d released %d times", ins[i]->idx, ins[i]->freed); if (ins[i]->ud_freed != 1) V("user data %d released %d times", ins[i]->idx, ins[i]->ud_freed); }
    for (int i = 1; i <= n_pic_alloc && i < 100000; i++) if (allbufs[i] && allbufs[i]->released != 1) V("picture buffer %d released %d times", i, allbufs[i]->released);
    if (w_ledger) { if (w_live()) w_report("after close"); if (opti("sites", 0)) w_sites(); }
    printf("S pics %d errs %d allocs %ld threads %ld picallocs %d failed %ld maxreq %zu packets %d\n", npic, n_err, w_n_alloc, w_n_thread, n_pic_alloc, w_n_failed, w_max_req, npk);
    if (raw) fclose(raw);
    fflush(stdout);
    for (int i = 0; i < nins; i++) { if (ins[i]->map) munmap(ins[i]->map, ins[i]->maplen); else xfree((void *)ins[i]->data); xfree(ins[i]); } xfree(ins); xfree(held); xfree(pk); xfree(file);
    for (int i = 1; i <= n_pic_alloc && i < 100000; i++) xfree(allbufs[i]);
    return 0;
}

int main(int argc, char **argv) { return batch_main(argc, argv, job_main); }
