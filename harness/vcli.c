/* The command-line tool (its real objects, main renamed to cli_main) behind monitors at the public API: every call
 * the tool makes is recorded, every picture the library returns is dumped, and the run happens in a scratch directory
 * as an unprivileged user.  Options: dir= stdout= dump= fsize= nobody= timeout= sigat= ; then "--" and one "=arg" each. */
#define _GNU_SOURCE
#include <fcntl.h>
#include <grp.h>
#include <inttypes.h>
#include <pthread.h>
#include <signal.h>
#include <stdint.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <time.h>
#include "batch.h"
#include "vhash.h"
#include "dav1d/dav1d.h"
#define XXH_INLINE_ALL
#include <xxhash.h>
int cli_main(int argc, char *const *argv);
static FILE *mon, *dump; static char *mon_buf; static size_t mon_len; static int mon_fd; static int sigat = -1;
static long n_pic, n_picrel, n_data, n_datarel, n_open, n_close, n_again, n_sleep; static XXH3_state_t *xs;
#define R(t, f, ...) t __real_##f(__VA_ARGS__); t __wrap_##f(__VA_ARGS__)
R(int, dav1d_open, Dav1dContext **c, const Dav1dSettings *s) {
    const int r = __real_dav1d_open(c, s);
    if (!r) n_open++;
    fprintf(mon, "O %d threads=%d delay=%d grain=%d op=%d all=%d limit=%u strict=%d invis=%d iflags=%d dec=%d\n", r, s->n_threads, s->max_frame_delay, s->apply_grain, s->operating_point, s->all_layers, s->frame_size_limit, s->strict_std_compliance, s->output_invisible_frames, (int)s->inloop_filters, (int)s->decode_frame_type);
    return r;
}
R(void, dav1d_close, Dav1dContext **c) { if (c && *c) n_close++; __real_dav1d_close(c); }
R(void, dav1d_set_cpu_flags_mask, unsigned m) { fprintf(mon, "M %u\n", m); __real_dav1d_set_cpu_flags_mask(m); }
R(uint8_t *, dav1d_data_create, Dav1dData *d, size_t sz) { uint8_t *p = __real_dav1d_data_create(d, sz); if (p && d->ref) n_data++; return p; }
R(void, dav1d_data_unref, Dav1dData *d) { const int h = d->ref != NULL; if (h) fprintf(mon, "X %zu\n", d->sz); __real_dav1d_data_unref(d); if (h && !d->ref) n_datarel++; }
R(void, dav1d_picture_unref, Dav1dPicture *p) { const int h = p->data[0] != NULL; __real_dav1d_picture_unref(p); if (h && !p->data[0]) n_picrel++; }
R(int, dav1d_send_data, Dav1dContext *c, Dav1dData *d) {
    const int h = d->ref != NULL; char b[200] = "";
    if (h) snprintf(b, sizeof b, "%zu %016" PRIx64 " %" PRId64 " %" PRId64 " %" PRId64, d->sz, vh_bytes(0, d->data, d->sz), d->m.timestamp, d->m.offset, d->m.duration);
    const int r = __real_dav1d_send_data(c, d);
    if (h && !d->ref) n_datarel++;
    if (h) fprintf(mon, "D %s %d\n", b, r);
    return r;
}
R(int, dav1d_get_picture, Dav1dContext *c, Dav1dPicture *p) {
    const int r = __real_dav1d_get_picture(c, p);
    if (r == DAV1D_ERR(EAGAIN)) n_again++;
    else if (r) fprintf(mon, "G %d\n", r);
    else {
        n_pic++; XXH3_state_t *x = XXH3_createState(); XXH3_128bits_reset(x); uint64_t v = 1; long bytes = 0;
        const int hbd = p->p.bpc > 8;
        for (int pl = 0; pl < (p->p.layout == DAV1D_PIXEL_LAYOUT_I400 ? 1 : 3); pl++) {
            const int sh = pl && p->p.layout != DAV1D_PIXEL_LAYOUT_I444, sv = pl && p->p.layout == DAV1D_PIXEL_LAYOUT_I420, w = (p->p.w + sh) >> sh, h = (p->p.h + sv) >> sv;
            for (int y = 0; y < h; y++) {
                const uint8_t *row = (const uint8_t *)p->data[pl] + y * p->stride[!!pl]; const size_t n = (size_t)w << hbd;
                XXH3_128bits_update(x, row, n); XXH3_128bits_update(xs, row, n); v = hbd ? vh_row16(v, row, w) : vh_row8(v, row, w); bytes += n;
                if (dump) fwrite(row, n, 1, dump);
            }
        }
        XXH128_canonical_t k; XXH128_canonicalFromHash(&k, XXH3_128bits_digest(x)); XXH3_freeState(x);
        fprintf(mon, "P %d %d %d %d chr=%d rw=%d rh=%d bytes=%ld ts=%" PRId64 " neg=%d v=%016" PRIx64 " x=", p->p.w, p->p.h, (int)p->p.layout, p->p.bpc, (int)p->seq_hdr->chr, p->frame_hdr->render_width, p->frame_hdr->render_height, bytes, p->m.timestamp, p->stride[0] < 0, v);
        for (int i = 0; i < 16; i++) fprintf(mon, "%02x", k.digest[i]);
        fprintf(mon, "\n");
        if (n_pic == sigat) raise(SIGTERM);
    }
    return r;
}
R(int, nanosleep, const struct timespec *a, struct timespec *b) { n_sleep++; return 0; }   /* --realtime must not slow the checks down */
static void end(void) {
    if (!mon) return;
    if (dump) fclose(dump);
    fprintf(mon, "Z pics=%ld released=%ld packets=%ld freed=%ld opened=%ld closed=%ld again=%ld sleeps=%ld x=", n_pic, n_picrel, n_data, n_datarel, n_open, n_close, n_again, n_sleep);
    XXH128_canonical_t k; XXH128_canonicalFromHash(&k, XXH3_128bits_digest(xs));
    for (int i = 0; i < 16; i++) fprintf(mon, "%02x", k.digest[i]);
    fprintf(mon, "\n"); fclose(mon); mon = NULL;
    struct rlimit l; getrlimit(RLIMIT_FSIZE, &l); l.rlim_cur = l.rlim_max; setrlimit(RLIMIT_FSIZE, &l);
    for (size_t o = 0; o < mon_len;) { const ssize_t n = write(mon_fd, mon_buf + o, mon_len - o); if (n <= 0) _exit(3); o += n; }
}
static void tick(int s) { _exit(77); }
static int job(int ac, char **av) {
    b_av = av; b_ac = ac; int n = 0; static char *cv[300];
    for (int i = 1; i < ac; i++) if (!strcmp(av[i], "--")) { b_ac = i; cv[n++] = (char *)"dav1d"; for (i++; i < ac; i++) { const size_t l = strlen(av[i]); cv[n++] = memcpy(malloc(l), av[i] + 1, l); } }   /* blocks of the exact size */
    const char *d = b_opt("dir", NULL), *o = b_opt("stdout", "/dev/null"), *u = b_opt("dump", NULL);
    mon = open_memstream(&mon_buf, &mon_len); mon_fd = dup(1);
    xs = XXH3_createState(); XXH3_128bits_reset(xs);
    if (u && !(dump = fopen(u, "wb"))) return 3;                       /* outside the scratch directory */
    if (d && chdir(d)) return 3;
    if (b_int("nobody", 1) && !getuid() && (setgroups(0, NULL) || setgid(65534) || setuid(65534))) return 3;
    const int fd = open(o, O_WRONLY | O_CREAT | O_TRUNC, 0644); if (fd < 0) return 3;
    fflush(stdout); dup2(fd, 1); close(fd);
    const int nul = open("/dev/null", O_RDONLY); dup2(nul, 0); close(nul);
    const long fs = b_int("fsize", -1); if (fs >= 0) { struct rlimit l = { fs, RLIM_INFINITY }; signal(SIGXFSZ, SIG_IGN); setrlimit(RLIMIT_FSIZE, &l); }
    sigat = b_int("sigat", -1); signal(SIGALRM, tick); alarm(b_int("timeout", 60)); umask(022);
    atexit(end);
    const int r = cli_main(n, cv);
    return r;
}
int main(int argc, char **argv) { return batch_main(argc, argv, job); }
