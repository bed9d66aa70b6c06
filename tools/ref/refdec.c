/* Authoring-time reference: decodes a Section-5 file with libaom (dlopen) and prints one
 * hash line per output frame.  usage: refdec FILE [grain=1] [op=0] [all=0] */
#include <dlfcn.h>
#include <stdio.h>
#include <stdlib.h>
#include "../../harness/vhash.h"
typedef struct { const char *name; void *iface; int err; const char *detail; long flags; const void *cfg; void *priv; } Ctx;
typedef struct { unsigned threads, w, h, lbd; } Cfg;
typedef struct { int fmt, cp, tc, mc, mono, csp, range; unsigned w, h, bd, d_w, d_h, r_w, r_h, xs, ys; unsigned char *planes[3]; int stride[3]; size_t sz; int bps, tid, sid; } Img;
static void *so; 
#define SYM(n) (n = (void*)dlsym(so, #n))
static void *(*aom_codec_av1_dx)(void);
static int (*aom_codec_dec_init_ver)(Ctx *, void *, Cfg *, long, int);
static int (*aom_codec_decode)(Ctx *, const uint8_t *, size_t, void *);
static Img *(*aom_codec_get_frame)(Ctx *, const void **);
static int (*aom_codec_control)(Ctx *, int, ...);
static int (*aom_codec_destroy)(Ctx *);
static const char *(*aom_codec_error_detail)(Ctx *);
static size_t leb(const uint8_t *p, const uint8_t *e, size_t *v) { size_t n = 0; *v = 0; while (p + n < e && n < 8) { *v |= (size_t)(p[n] & 127) << (7 * n); if (!(p[n++] & 128)) break; } return n; }
int main(int c, char **v) {
    int grain = 1, op = 0, all = 0;
    for (int i = 2; i < c; i++) { sscanf(v[i], "grain=%d", &grain); sscanf(v[i], "op=%d", &op); sscanf(v[i], "all=%d", &all); }
    so = dlopen("libaom.so.3", RTLD_NOW); if (!so) { puts("no libaom"); return 2; }
    SYM(aom_codec_av1_dx); SYM(aom_codec_dec_init_ver); SYM(aom_codec_decode); SYM(aom_codec_get_frame); SYM(aom_codec_control); SYM(aom_codec_destroy); SYM(aom_codec_error_detail);
    FILE *f = fopen(v[1], "rb"); fseek(f, 0, SEEK_END); long n = ftell(f); rewind(f); uint8_t *b = malloc(n + 64); n = fread(b, 1, n, f);
    Ctx x; memset(&x, 0, sizeof x); Cfg cfg = { 1, 0, 0, 1 };
    if (aom_codec_dec_init_ver(&x, aom_codec_av1_dx(), &cfg, 0, 22)) { puts("init failed"); return 2; }
    if (aom_codec_control(&x, 282, !grain)) puts("ctl282");
    if (aom_codec_control(&x, 279, op)) puts("ctl279");
    if (aom_codec_control(&x, 280, all)) puts("ctl280");
    long p = 0; int k = 0;
    while (p < n) {
        long q = p; int first = 1;
        while (q < n) { int t = b[q] >> 3 & 15, e = b[q] >> 2 & 1; size_t s, l; if (t == 2 && !first) break; first = 0; l = leb(b + q + 1 + e, b + n, &s); q += 1 + e + l + s; }
        int r = aom_codec_decode(&x, b + p, q - p, NULL);
        if (r) { printf("E %d %s\n", r, aom_codec_error_detail(&x) ? aom_codec_error_detail(&x) : ""); return 1; }
        const void *it = NULL; Img *im;
        while ((im = aom_codec_get_frame(&x, &it))) {
            uint64_t h = 1; const int hb = !!(im->fmt & 0x800);
            for (int pl = 0; pl < (im->mono ? 1 : 3); pl++) {
                const int w = pl ? (im->d_w + im->xs) >> im->xs : im->d_w, hh = pl ? (im->d_h + im->ys) >> im->ys : im->d_h;
                for (int y = 0; y < hh; y++) h = hb ? vh_row16(h, im->planes[pl] + (long)y * im->stride[pl], w) : vh_row8(h, im->planes[pl] + (long)y * im->stride[pl], w);
            }
            printf("%d %ux%u bd%u l%d %016llx\n", k++, im->d_w, im->d_h, im->bd, im->mono ? 0 : im->xs ? im->ys ? 1 : 2 : 3, (unsigned long long)h);
        }
        p = q;
    }
    aom_codec_destroy(&x);
    return 0;
}
