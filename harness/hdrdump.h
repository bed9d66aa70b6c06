/* Canonical text of the headers (normalising the fields that are meaningless in a given state). */
#ifndef HDRDUMP_H
#define HDRDUMP_H
#include <stdio.h>
#include <string.h>
#include <stdint.h>
#include "dav1d/headers.h"
#include "vhash.h"
typedef struct { char *p; size_t n, cap; } HBuf;
static inline void hb_i(HBuf *b, const char *k, long long v) {
    if (b->n + 64 < b->cap) b->n += snprintf(b->p + b->n, b->cap - b->n, " %s=%lld", k, v);
}
static inline void hb_a8(HBuf *b, const char *k, const uint8_t *v, int n) {
    if (b->n + 32 + 4 * n >= b->cap) return;
    b->n += snprintf(b->p + b->n, b->cap - b->n, " %s=", k);
    for (int i = 0; i < n; i++) b->n += snprintf(b->p + b->n, b->cap - b->n, "%s%d", i ? "," : "", v[i]);
}
static inline void dump_seq(HBuf *b, const Dav1dSequenceHeader *s) {
#define I(f) hb_i(b, #f, s->f)
    I(profile); I(max_width); I(max_height); I(layout); I(pri); I(trc); I(mtrx); I(chr); I(hbd); I(color_range);
    I(num_operating_points);
    for (int i = 0; i < s->num_operating_points; i++) {
        const struct Dav1dSequenceHeaderOperatingPoint *o = &s->operating_points[i];
        hb_i(b, "op", i); hb_i(b, "maj", o->major_level); hb_i(b, "min", o->minor_level); hb_i(b, "idd", o->initial_display_delay); hb_i(b, "idc", o->idc);
        hb_i(b, "tier", o->tier); hb_i(b, "dm", o->decoder_model_param_present); hb_i(b, "disp", o->display_model_param_present);
        if (o->decoder_model_param_present) {
            hb_i(b, "dbd", s->operating_parameter_info[i].decoder_buffer_delay); hb_i(b, "ebd", s->operating_parameter_info[i].encoder_buffer_delay);
            hb_i(b, "ldm", s->operating_parameter_info[i].low_delay_mode);
        }
    }
    I(still_picture); I(reduced_still_picture_header); I(timing_info_present); I(num_units_in_tick); I(time_scale);
    I(equal_picture_interval); I(num_ticks_per_picture); I(decoder_model_info_present); I(encoder_decoder_buffer_delay_length);
    I(num_units_in_decoding_tick); I(buffer_removal_delay_length); I(frame_presentation_delay_length); I(display_model_info_present);
    I(width_n_bits); I(height_n_bits); I(frame_id_numbers_present); I(delta_frame_id_n_bits); I(frame_id_n_bits); I(sb128); I(filter_intra);
    I(intra_edge_filter); I(inter_intra); I(masked_compound); I(warped_motion); I(dual_filter); I(order_hint); I(jnt_comp); I(ref_frame_mvs);
    I(screen_content_tools); I(force_integer_mv); I(order_hint_n_bits); I(super_res); I(cdef); I(restoration); I(ss_hor); I(ss_ver); I(monochrome);
    I(color_description_present); I(separate_uv_delta_q); I(film_grain_present);
#undef I
}
static inline void dump_fg(HBuf *b, const Dav1dFilmGrainData *d) {
    hb_i(b, "seed", d->seed); hb_i(b, "ny", d->num_y_points); hb_a8(b, "yp", d->y_points[0], 2 * d->num_y_points);
    hb_i(b, "csfl", d->chroma_scaling_from_luma);
    for (int p = 0; p < 2; p++) { hb_i(b, "nuv", d->num_uv_points[p]); hb_a8(b, "uvp", d->uv_points[p][0], 2 * d->num_uv_points[p]); }
    hb_i(b, "ss", d->scaling_shift); hb_i(b, "lag", d->ar_coeff_lag);
    const int ny = 2 * d->ar_coeff_lag * (d->ar_coeff_lag + 1);
    if (d->num_y_points) hb_a8(b, "ary", (const uint8_t *)d->ar_coeffs_y, ny);
    for (int p = 0; p < 2; p++) if (d->num_uv_points[p] || d->chroma_scaling_from_luma) hb_a8(b, "aruv", (const uint8_t *)d->ar_coeffs_uv[p], ny + !!d->num_y_points);
    hb_i(b, "acs", (long long)d->ar_coeff_shift); hb_i(b, "gss", d->grain_scale_shift);
    for (int p = 0; p < 2; p++) if (d->num_uv_points[p]) { hb_i(b, "um", d->uv_mult[p]); hb_i(b, "ulm", d->uv_luma_mult[p]); hb_i(b, "uo", d->uv_offset[p]); }
    hb_i(b, "ov", d->overlap_flag); hb_i(b, "clip", d->clip_to_restricted_range);
}
static inline void dump_frame(HBuf *b, const Dav1dFrameHeader *h) {
#define I(f) hb_i(b, #f, h->f)
    I(frame_type); hb_i(b, "w0", h->width[0]); hb_i(b, "w1", h->width[1]); I(height); I(frame_offset); I(temporal_id); I(spatial_id);
    I(show_existing_frame); I(frame_id); I(frame_presentation_delay); I(show_frame); I(showable_frame); I(error_resilient_mode);
    I(disable_cdf_update); I(allow_screen_content_tools); I(force_integer_mv); I(frame_size_override); I(primary_ref_frame);
    I(buffer_removal_time_present);
    if (h->buffer_removal_time_present) for (int i = 0; i < DAV1D_MAX_OPERATING_POINTS; i++) if (h->operating_points[i].buffer_removal_time) hb_i(b, "brt", h->operating_points[i].buffer_removal_time);
    I(refresh_frame_flags); I(render_width); I(render_height); hb_i(b, "srd", h->super_res.width_scale_denominator); hb_i(b, "sre", h->super_res.enabled);
    I(have_render_size);
    const int intra = h->frame_type == DAV1D_FRAME_TYPE_KEY || h->frame_type == DAV1D_FRAME_TYPE_INTRA;
    if (intra) I(allow_intrabc);
    else {
        I(frame_ref_short_signaling); hb_a8(b, "refidx", (const uint8_t *)h->refidx, 7); I(hp); I(subpel_filter_mode); I(switchable_motion_mode); I(use_ref_frame_mvs);
    }
    I(refresh_context);
    hb_i(b, "tu", h->tiling.uniform); hb_i(b, "tcols", h->tiling.cols); hb_i(b, "trows", h->tiling.rows); hb_i(b, "lc", h->tiling.log2_cols); hb_i(b, "lr", h->tiling.log2_rows);
    for (int i = 0; i <= h->tiling.cols && i < 65; i++) hb_i(b, "c", h->tiling.col_start_sb[i]);
    for (int i = 0; i <= h->tiling.rows && i < 65; i++) hb_i(b, "r", h->tiling.row_start_sb[i]);
    hb_i(b, "tupd", h->tiling.update);
    hb_i(b, "yac", h->quant.yac); hb_i(b, "ydc", h->quant.ydc_delta); hb_i(b, "udc", h->quant.udc_delta); hb_i(b, "uac", h->quant.uac_delta); hb_i(b, "vdc", h->quant.vdc_delta); hb_i(b, "vac", h->quant.vac_delta);
    hb_i(b, "qm", h->quant.qm); if (h->quant.qm) { hb_i(b, "qmy", h->quant.qm_y); hb_i(b, "qmu", h->quant.qm_u); hb_i(b, "qmv", h->quant.qm_v); }
    hb_i(b, "seg", h->segmentation.enabled);
    if (h->segmentation.enabled) {
        hb_i(b, "um", h->segmentation.update_map); hb_i(b, "tmp", h->segmentation.temporal); hb_i(b, "ud", h->segmentation.update_data);
        for (int i = 0; i < 8; i++) {
            const Dav1dSegmentationData *d = &h->segmentation.seg_data.d[i];
            hb_i(b, "q", d->delta_q); hb_i(b, "v", d->delta_lf_y_v); hb_i(b, "h", d->delta_lf_y_h); hb_i(b, "u", d->delta_lf_u); hb_i(b, "w", d->delta_lf_v); hb_i(b, "ref", d->ref); hb_i(b, "sk", d->skip); hb_i(b, "gm", d->globalmv);
        }
        hb_i(b, "presk", h->segmentation.seg_data.preskip); hb_i(b, "last", h->segmentation.seg_data.last_active_segid);
    }
    hb_a8(b, "ll", h->segmentation.lossless, 8); hb_a8(b, "qidx", h->segmentation.qidx, 8);
    hb_i(b, "dq", h->delta.q.present); if (h->delta.q.present) { hb_i(b, "dqr", h->delta.q.res_log2); hb_i(b, "dlf", h->delta.lf.present); if (h->delta.lf.present) { hb_i(b, "dlr", h->delta.lf.res_log2); hb_i(b, "dlm", h->delta.lf.multi); } }
    I(all_lossless);
    hb_a8(b, "lvl", h->loopfilter.level_y, 2); if (h->loopfilter.level_y[0] || h->loopfilter.level_y[1]) { hb_i(b, "lu", h->loopfilter.level_u); hb_i(b, "lv", h->loopfilter.level_v); }
    hb_i(b, "sharp", h->loopfilter.sharpness); hb_i(b, "mrd", h->loopfilter.mode_ref_delta_enabled);
    hb_a8(b, "md", (const uint8_t *)h->loopfilter.mode_ref_deltas.mode_delta, 2); hb_a8(b, "rd", (const uint8_t *)h->loopfilter.mode_ref_deltas.ref_delta, 8);
    hb_i(b, "cd", h->cdef.damping); hb_i(b, "cn", h->cdef.n_bits); hb_a8(b, "cy", h->cdef.y_strength, 1 << h->cdef.n_bits); hb_a8(b, "cuv", h->cdef.uv_strength, 1 << h->cdef.n_bits);
    for (int i = 0; i < 3; i++) hb_i(b, "rt", h->restoration.type[i]);
    if (h->restoration.type[0] || h->restoration.type[1] || h->restoration.type[2]) hb_i(b, "ru0", h->restoration.unit_size[0]);
    if (h->restoration.type[1] || h->restoration.type[2]) hb_i(b, "ru1", h->restoration.unit_size[1]);
    I(txfm_mode); I(switchable_comp_refs); I(skip_mode_allowed); I(skip_mode_enabled); if (h->skip_mode_allowed) { hb_i(b, "sm0", h->skip_mode_refs[0]); hb_i(b, "sm1", h->skip_mode_refs[1]); }
    I(warp_motion); I(reduced_txtp_set);
    if (!intra) for (int i = 0; i < 7; i++) { hb_i(b, "gt", h->gmv[i].type); for (int k = 0; k < 6; k++) hb_i(b, "m", h->gmv[i].matrix[k]); }
    hb_i(b, "fg", h->film_grain.present); if (h->film_grain.present) { hb_i(b, "fgu", h->film_grain.update); dump_fg(b, &h->film_grain.data); }
#undef I
}
static inline uint64_t hash_seq(const Dav1dSequenceHeader *s) { char t[16384]; HBuf b = { t, 0, sizeof t }; dump_seq(&b, s); return vh_bytes(7, t, b.n); }
static inline uint64_t hash_frame(const Dav1dFrameHeader *s) { char t[16384]; HBuf b = { t, 0, sizeof t }; dump_frame(&b, s); return vh_bytes(9, t, b.n); }
#endif
