/* Several decoders at once in one process, each driven by its own thread with its own stream and settings; from the
 * first use of the library on.  Job: spec=FILE (one worker per line: k=v ...), skew=N (start offsets), pass=1 (pictures
 * are handed to other threads and released there), seed=, timeout=.  Prints every worker's record after the run. */
#define _GNU_SOURCE
#include <inttypes.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdint.h>
#include "batch.h"
#include "vhash.h"
#include "dav1d/dav1d.h"
typedef struct { int id; char **k; int nk; uint8_t *data; size_t sz; char *out; size_t len; FILE *f; uint64_t rnd; long cookie; atomic_int live; long reqs; unsigned msgs; } W;
static W w[64]; static int nw; static pthread_barrier_t bar; static int skew, passing; static atomic_long peak, now, opens, handed;
static struct { pthread_mutex_t m; Dav1dPicture p[256]; uint64_t h[256]; int n; } pool = { PTHREAD_MUTEX_INITIALIZER };
static const char *ws(W *x, const char *k, const char *d) { const size_t n = strlen(k); for (int i = 0; i < x->nk; i++) if (!strncmp(x->k[i], k, n) && x->k[i][n] == '=') return x->k[i] + n + 1; return d; }
static long wi(W *x, const char *k, long d) { const char *s = ws(x, k, NULL); return s ? strtol(s, NULL, 0) : d; }
static uint64_t rnd(W *x) { uint64_t z = x->rnd += 0x9E3779B97F4A7C15ull; z = (z ^ z >> 30) * 0xBF58476D1CE4E5B9ull; return z ^ z >> 31; }
static void V(W *x, const char *f, ...) { va_list a; va_start(a, f); fprintf(x->f, "V "); vfprintf(x->f, f, a); fprintf(x->f, "\n"); va_end(a); }
static uint64_t hash(const Dav1dPicture *p) {
    uint64_t h = 1; const int sv = p->p.layout == DAV1D_PIXEL_LAYOUT_I420, sh = p->p.layout != DAV1D_PIXEL_LAYOUT_I444;
    for (int pl = 0; pl < (p->p.layout ? 3 : 1); pl++) {
        const int ww = pl ? (p->p.w + sh) >> sh : p->p.w, hh = pl ? (p->p.h + sv) >> sv : p->p.h;
        for (int y = 0; y < hh; y++) { const uint8_t *r = (uint8_t *)p->data[pl] + y * p->stride[!!pl]; h = p->p.bpc > 8 ? vh_row16(h, r, ww) : vh_row8(h, r, ww); }
    }
    return h;
}
/* an allocator and a logger of its own for every decoder: anything that arrives with another decoder's cookie is a mix-up */
static int alloc_pic(Dav1dPicture *p, void *ck) {
    W *x = ck; if (x < w || x >= w + nw || x->cookie != 0x1234 + x->id) { fprintf(stderr, "foreign cookie\n"); abort(); }
    const int hbd = p->p.bpc > 8, aw = (p->p.w + 127) & ~127, ah = (p->p.h + 127) & ~127, ch = p->p.layout != 0, sv = p->p.layout == 1, sh = p->p.layout != 3;
    const ptrdiff_t ys = (((ptrdiff_t)aw << hbd) + 64 * (1 + x->id % 5)), us = ch ? ys >> sh : 0; const size_t n = ys * ah, m = us * (ah >> sv);
    uint8_t *b; if (posix_memalign((void **)&b, 64, n + 2 * m + 256)) return DAV1D_ERR(ENOMEM);
    memset(b, 0x40 + x->id, n + 2 * m + 256);
    p->stride[0] = ys; p->stride[1] = us & ~63; if (ch && (us & 63)) p->stride[1] = us - (us & 63);
    p->data[0] = b; p->data[1] = ch ? b + n : NULL; p->data[2] = ch ? b + n + m : NULL; p->allocator_data = b; atomic_fetch_add(&x->live, 1); x->reqs++; return 0;
}
static void free_pic(Dav1dPicture *p, void *ck) { W *x = ck; if (x < w || x >= w + nw) abort(); atomic_fetch_sub(&x->live, 1); free(p->allocator_data); }
static void logcb(void *ck, const char *f, va_list a) { W *x = ck; if (x < w || x >= w + nw || x->cookie != 0x1234 + x->id) abort(); char b[300]; vsnprintf(b, sizeof b, f, a); for (char *c = b; *c; c++) if (*c == '\n') *c = ' '; x->msgs++; }
static void give(W *x, Dav1dPicture *p) {
    Dav1dPicture o; memset(&o, 0, sizeof o); uint64_t oh = 0; int have = 0;
    const uint64_t h = hash(p);
    pthread_mutex_lock(&pool.m);
    if (pool.n) { const int i = rnd(x) % pool.n; if (rnd(x) % 2) { o = pool.p[i]; oh = pool.h[i]; have = 1; pool.p[i] = pool.p[--pool.n]; pool.h[i] = pool.h[pool.n]; } }
    if (pool.n < 256) { pool.p[pool.n] = *p; pool.h[pool.n++] = h; memset(p, 0, sizeof *p); }
    pthread_mutex_unlock(&pool.m);
    if (have) { if (hash(&o) != oh) V(x, "a picture held by another thread changed"); dav1d_picture_unref(&o); atomic_fetch_add(&handed, 1); }
}
static void *worker(void *arg) {
    W *x = arg; x->f = open_memstream(&x->out, &x->len);
    const long rounds = wi(x, "rounds", 1), use_alloc = wi(x, "alloc", 0), poll = wi(x, "poll", 0), op = wi(x, "probe", 0); const long stop = wi(x, "stop", -1);
    pthread_barrier_wait(&bar);
    for (volatile long s = skew ? rnd(x) % skew : 0; s > 0; s--);
    if (op) { Dav1dSequenceHeader sh; const uint8_t *p = x->data + 4; const size_t n = p[-4] | p[-3] << 8 | p[-2] << 16; fprintf(x->f, "Q %d", dav1d_parse_sequence_header(&sh, p, n)); fprintf(x->f, "\n"); }
    for (long r = 0; r < rounds; r++) {
        Dav1dSettings s; dav1d_default_settings(&s);
        s.n_threads = wi(x, "threads", 1); s.max_frame_delay = wi(x, "delay", 0); s.apply_grain = wi(x, "grain", 1); s.operating_point = wi(x, "op", 0); s.all_layers = wi(x, "all", 1);
        s.frame_size_limit = wi(x, "limit", 0); s.strict_std_compliance = wi(x, "strict", 0); s.output_invisible_frames = wi(x, "invis", 0); s.inloop_filters = wi(x, "iflags", 7); s.decode_frame_type = wi(x, "dec", 0);
        if (use_alloc) { s.allocator.cookie = x; s.allocator.alloc_picture_callback = alloc_pic; s.allocator.release_picture_callback = free_pic; }
        s.logger.cookie = x; s.logger.callback = logcb;
        Dav1dContext *c = NULL; int rc = dav1d_open(&c, &s); fprintf(x->f, "O %d %d\n", rc, dav1d_get_frame_delay(&s)); if (rc) continue;
        atomic_fetch_add(&opens, 1); const long l = atomic_fetch_add(&now, 1) + 1; long pk = atomic_load(&peak); while (l > pk && !atomic_compare_exchange_weak(&peak, &pk, l));
        size_t o = 0; long k = 0;
        #define TAKE(once) for (;;) { Dav1dPicture p; memset(&p, 0, sizeof p); rc = dav1d_get_picture(c, &p); if (rc == DAV1D_ERR(EAGAIN)) break; if (rc) { fprintf(x->f, "R %d\n", rc); if (once) break; continue; } \
            fprintf(x->f, "P %dx%d l%d b%d %016" PRIx64 " ts=%" PRId64 " id=%d\n", p.p.w, p.p.h, p.p.layout, p.p.bpc, hash(&p), p.m.timestamp, p.frame_hdr->frame_offset); if (passing) give(x, &p); dav1d_picture_unref(&p); if (once) break; }
        while (o + 4 <= x->sz && k != stop) {
            const size_t n = x->data[o] | x->data[o + 1] << 8 | x->data[o + 2] << 16 | (size_t)x->data[o + 3] << 24; o += 4; Dav1dData d; memset(&d, 0, sizeof d);
            uint8_t *b = dav1d_data_create(&d, n); if (!b) break; memcpy(b, x->data + o, n); o += n; d.m.timestamp = 1000 + 10 * k++;
            while (d.sz) { rc = dav1d_send_data(c, &d); if (rc == DAV1D_ERR(EAGAIN)) { TAKE(1) continue; } if (rc) { fprintf(x->f, "E %d\n", rc); dav1d_data_unref(&d); } }
            if (poll) TAKE(0)
        }
        if (wi(x, "flush", 0) && r % 2) dav1d_flush(c); else if (stop < 0) TAKE(0)
        atomic_fetch_sub(&now, 1); dav1d_close(&c); if (c) V(x, "close left a pointer");
    }
    return NULL;
}
static void tick(int s) { _exit(77); }
static int job(int ac, char **av) {
    b_av = av; b_ac = ac; signal(SIGALRM, tick); alarm(b_int("timeout", 100)); skew = b_int("skew", 0); passing = b_int("pass", 0);
    size_t n; char *t = (char *)b_file(b_opt("spec", ""), &n), *sv = NULL; t[n] = 0;
    for (char *l = strtok_r(t, "\n", &sv); l && nw < 64; l = strtok_r(NULL, "\n", &sv)) {
        W *x = &w[nw]; x->id = nw++; x->cookie = 0x1234 + x->id; x->rnd = b_int("seed", 1) * 1000003ull + x->id; x->k = calloc(64, sizeof *x->k); char *s2 = NULL;
        for (char *q = strtok_r(l, " ", &s2); q && x->nk < 64; q = strtok_r(NULL, " ", &s2)) x->k[x->nk++] = q;
        x->data = b_file(ws(x, "file", ""), &x->sz);
    }
    pthread_t th[64]; pthread_barrier_init(&bar, NULL, nw);
    for (int i = 0; i < nw; i++) if (pthread_create(&th[i], NULL, worker, &w[i])) return 4;
    for (int i = 0; i < nw; i++) pthread_join(th[i], NULL);
    for (int i = 0; i < pool.n; i++) { if (hash(&pool.p[i]) != pool.h[i]) V(&w[0], "a picture that outlived its decoder changed"); dav1d_picture_unref(&pool.p[i]); }
    for (int i = 0; i < nw; i++) { if (atomic_load(&w[i].live)) V(&w[i], "%d buffers of decoder %d were never released", atomic_load(&w[i].live), i); fclose(w[i].f); printf("W %d\n%s", i, w[i].out); }
    printf("S workers=%d peak=%ld opens=%ld handed=%ld\n", nw, atomic_load(&peak), atomic_load(&opens), atomic_load(&handed));
    return 0;
}
int main(int argc, char **argv) { return batch_main(argc, argv, job); }
