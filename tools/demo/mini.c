// minimal client for demonstrations: mini FILE [threads=N] [delay=N] [grain=0|1] [filters=N] [all=0|1] [op=N] [strict=N] [invis=N] [limit=N] [type=N] [flushat=N] [poll=N]
// prints one line per picture (hash of visible samples and selected parameters) and per error
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <inttypes.h>
#include "dav1d/dav1d.h"
void dav1d_set_cpu_flags_mask(unsigned mask);
static uint64_t H; static void hb(const void *p, size_t n) { const uint8_t *b = p; while (n--) H = (H ^ *b++) * 0x100000001b3ull; }
static void quiet(void *c, const char *f, va_list a) { (void)c; (void)f; (void)a; }
static int props, hdrs, events; static Dav1dContext *ctx;
static void show(Dav1dPicture *p) {
    H = 0xcbf29ce484222325ull;
    for (int pl = 0; pl < (p->p.layout ? 3 : 1); pl++) {
        int w = p->p.w, h = p->p.h; if (pl && p->p.layout != DAV1D_PIXEL_LAYOUT_I444) w = (w + 1) >> 1; if (pl && p->p.layout == DAV1D_PIXEL_LAYOUT_I420) h = (h + 1) >> 1;
        for (int y = 0; y < h; y++) hb((uint8_t *)p->data[pl] + y * p->stride[!!pl], (size_t)w << (p->p.bpc > 8));
    }
    printf("picture %dx%d %d bit layout %d %016" PRIx64, p->p.w, p->p.h, p->p.bpc, p->p.layout, H);
    if (props) printf(" ts %" PRId64 " dur %" PRId64 " off %" PRId64 " size %zu t35 %zu cll %d mdcv %d", p->m.timestamp, p->m.duration, (int64_t)p->m.offset, p->m.size, p->n_itut_t35, p->content_light ? p->content_light->max_content_light_level : -1, p->mastering_display ? (int)p->mastering_display->max_luminance : -1);
    if (hdrs) { H = 0xcbf29ce484222325ull; hb(p->seq_hdr->operating_points, sizeof(p->seq_hdr->operating_points)); printf(" render %dx%d type %d off %d refresh %x tiles %dx%d q %d lf %d,%d,%d,%d sharp %d cdef %d tx %d seqh %016" PRIx64 " gm", p->frame_hdr->render_width, p->frame_hdr->render_height, p->frame_hdr->frame_type, p->frame_hdr->frame_offset, p->frame_hdr->refresh_frame_flags, p->frame_hdr->tiling.cols, p->frame_hdr->tiling.rows, p->frame_hdr->quant.yac, p->frame_hdr->loopfilter.level_y[0], p->frame_hdr->loopfilter.level_y[1], p->frame_hdr->loopfilter.level_u, p->frame_hdr->loopfilter.level_v, p->frame_hdr->loopfilter.sharpness, p->frame_hdr->cdef.damping, p->frame_hdr->txfm_mode, H);
        for (int i = 0; i < 7; i++) { printf(" %d", p->frame_hdr->gmv[i].type); for (int j = 0; j < 6; j++) printf(",%d", p->frame_hdr->gmv[i].matrix[j]); }
        printf(" lfd"); for (int i = 0; i < 8; i++) printf(" %d", p->frame_hdr->loopfilter.mode_ref_deltas.ref_delta[i]); printf(" seg"); for (int i = 0; i < 8; i++) printf(" %d", p->frame_hdr->segmentation.seg_data.d[i].delta_q); }
    if (events) { enum Dav1dEventFlags e = 0; dav1d_get_event_flags(ctx, &e); printf(" events %d", (int)e); }
    puts("");
}
static int opt(int c, char **v, const char *n, int d) { size_t l = strlen(n); for (int i = 2; i < c; i++) if (!strncmp(v[i], n, l) && v[i][l] == '=') return atoi(v[i] + l + 1); return d; }
static size_t leb(const uint8_t *p, const uint8_t *e, size_t *v) { size_t n = 0; *v = 0; while (p + n < e && n < 8) { *v |= (size_t)(p[n] & 127) << (7 * n); if (!(p[n++] & 128)) break; } return n; }
int main(int c, char **v) {
    FILE *f = fopen(v[1], "rb"); if (!f) return 9; static uint8_t buf[1 << 22]; size_t n = fread(buf, 1, sizeof(buf), f); fclose(f);
    Dav1dSettings s; dav1d_default_settings(&s); s.logger.callback = quiet;
    s.n_threads = opt(c, v, "threads", 1); s.max_frame_delay = opt(c, v, "delay", 0); s.apply_grain = opt(c, v, "grain", 1); s.inloop_filters = opt(c, v, "filters", 7);
    s.all_layers = opt(c, v, "all", 1); s.operating_point = opt(c, v, "op", 0); s.strict_std_compliance = opt(c, v, "strict", 0); s.output_invisible_frames = opt(c, v, "invis", 0); s.frame_size_limit = opt(c, v, "limit", 0); s.decode_frame_type = opt(c, v, "type", 0);
    props = opt(c, v, "props", 0); hdrs = opt(c, v, "hdrs", 0); events = opt(c, v, "events", 0); int flushat = opt(c, v, "flushat", -1), rep = opt(c, v, "repeat", 1), eager = opt(c, v, "eager", 1), byobu = opt(c, v, "obu", 0), lat = opt(c, v, "lat", 0);
    dav1d_set_cpu_flags_mask(opt(c, v, "cpu", -1));
    if (dav1d_open(&ctx, &s)) { puts("open failed"); return 8; }
    Dav1dPicture p = { 0 }; int tu = 0;
    while (rep--) {
        const uint8_t *q = buf, *e = buf + n;
        while (q < e) {   // one temporal unit at a time
            const uint8_t *b = q; size_t l;
            do { const uint8_t *h = q++; if (*h & 4) q++; q += leb(q, e, &l); q += l; } while (q < e && (*q >> 3 & 15) != 2 && !byobu);
            if (tu == flushat) { dav1d_flush(ctx); puts("flush"); }
            Dav1dData d = { 0 }; uint8_t *w = dav1d_data_create(&d, q - b); if (!w) { puts("no buffer"); tu++; continue; } memcpy(w, b, q - b); d.m.timestamp = tu; d.m.duration = tu + 7; d.m.offset = b - buf; tu++;
            while (d.sz) { int r = dav1d_send_data(ctx, &d); if (r < 0 && r != DAV1D_ERR(EAGAIN)) { printf("send %d\n", r); dav1d_data_unref(&d); break; }
                if (r == DAV1D_ERR(EAGAIN) || eager) while (!(r = dav1d_get_picture(ctx, &p))) { show(&p); dav1d_picture_unref(&p); if (!eager) break; }
                if (r < 0 && r != DAV1D_ERR(EAGAIN)) printf("get %d\n", r); }
            if (lat) printf("sent %d\n", tu);
        }
        int r, k = 0; while (k < 3) { r = dav1d_get_picture(ctx, &p); if (!r) { show(&p); dav1d_picture_unref(&p); } else if (r == DAV1D_ERR(EAGAIN)) k = 3; else { printf("get %d\n", r); } }
    }
    dav1d_close(&ctx); return 0;
}
