// AV1 bitstream syntax writer with its own model of decoder reference state.
// Produces syntactically valid OBUs from randomly filled header structures.
#pragma once
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <cstdio>
#include <vector>
#include <string>
#include <algorithm>
#include <climits>
#include "dav1d/headers.h"
typedef std::vector<uint8_t> Bytes;

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 77) {}
    uint32_t u() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return (uint32_t)((z ^ (z >> 31)) >> 16); }
    int n(int k) { return k <= 1 ? 0 : (int)(u() % (unsigned)k); }          // 0..k-1
    int r(int a, int b) { return a + n(b - a + 1); }                          // a..b
    bool p(int pct) { return n(100) < pct; }
};

struct BitWriter {
    Bytes b; int nb = 0; unsigned acc = 0;
    void bit(int v) { acc = acc << 1 | (v & 1); if (++nb == 8) { b.push_back(acc); nb = 0; acc = 0; } }
    static int bad, on; static Rng brng;           // bad=N: one header field in N takes a hostile value
    static bool hostile(int often = 0) { return bad && on && brng.n(often ? 1 + bad / 12 : bad) == 0; }
    void bits(uint64_t v, int n) {
        if (n > 1 && hostile()) switch (brng.n(7)) { case 0: v = 0; break; case 1: v = ~0ull; break; case 2: v = ~1ull; break; case 3: v++; break; case 4: v--; break; case 5: v = 1; break; default: v = brng.u(); }
        while (n--) bit((v >> n) & 1);
    }
    void sbits(int v, int n) { bits((unsigned)v & ((1u << n) - 1), n); }
    void align0() { while (nb) bit(0); }
    void trailing() { bit(1); align0(); }
    void leb(uint64_t v) { do { unsigned x = v & 127; v >>= 7; bits(x | (v ? 128 : 0), 8); } while (v); }
    void uvlc(uint32_t v) { uint64_t x = (uint64_t)v + 1; int l = 0; while (x >> (l + 1)) l++; bits(0, l); bits(x, l + 1); }
    void ns(unsigned v, unsigned n) { // spec ns(n)
        int w = 0; for (unsigned x = n; x; x >>= 1) w++;
        unsigned m = (1u << w) - n;
        if (v < m) bits(v, w - 1); else { unsigned e = v + m; bits(e >> 1, w - 1); bit(e & 1); }
    }
    static unsigned recenter(unsigned r, unsigned v) { return v > 2 * r ? v : v >= r ? (v - r) * 2 : (r - v) * 2 - 1; }
    void subexp_u(unsigned v, unsigned mx) {
        unsigned i = 0, mk = 0, k = 3;
        for (;;) {
            unsigned b2 = i ? k + i - 1 : k, a = 1u << b2;
            if (mx <= mk + 3 * a) { ns(v - mk, mx - mk); return; }
            if (v >= mk + a) { bit(1); i++; mk += a; } else { bit(0); bits(v - mk, b2); return; }
        }
    }
    void subexp(int v, int ref, int n) { // signed, range [-(1<<n), 1<<n]
        int lo = -(1 << n), mx = (2 << n) + 1; unsigned r = ref - lo, x = v - lo;
        if ((r << 1) <= (unsigned)mx) subexp_u(recenter(r, x), mx);
        else subexp_u(recenter(mx - 1 - r, mx - 1 - x), mx);
    }
};

inline int BitWriter::bad = 0, BitWriter::on = 0; inline Rng BitWriter::brng(1);
static inline Bytes obu(int type, const Bytes &payload, int ext = -1, bool has_size = true, int leb_pad = 0, int reserved = 0) {
    Bytes o;
    o.push_back(type << 3 | (ext >= 0 ? 4 : 0) | (has_size ? 2 : 0) | reserved);
    if (ext >= 0) o.push_back(ext);
    if (has_size) {
        uint64_t v = payload.size();
        do { unsigned x = v & 127; v >>= 7; o.push_back(x | ((v || leb_pad) ? 128 : 0)); } while (v);
        while (leb_pad) { leb_pad--; o.push_back(leb_pad ? 128 : 0); }
    }
    o.insert(o.end(), payload.begin(), payload.end());
    return o;
}

struct RefSlot { bool valid = false; Dav1dFrameHeader h{}; };

static inline int poc_diff(int n_bits, int a, int b) {
    if (!n_bits) return 0;
    const int mask = 1 << (n_bits - 1), d = a - b;
    return (d & (mask - 1)) - (d & mask);
}
static inline bool is_intra_type(int t) { return t == DAV1D_FRAME_TYPE_KEY || t == DAV1D_FRAME_TYPE_INTRA; }

static inline void write_seq(BitWriter &w, const Dav1dSequenceHeader &s) {
    w.bits(s.profile, 3); w.bit(s.still_picture); w.bit(s.reduced_still_picture_header);
    if (s.reduced_still_picture_header) {
        w.bits(s.operating_points[0].major_level - 2, 3); w.bits(s.operating_points[0].minor_level, 2);
    } else {
        w.bit(s.timing_info_present);
        if (s.timing_info_present) {
            w.bits(s.num_units_in_tick, 32); w.bits(s.time_scale, 32);
            w.bit(s.equal_picture_interval);
            if (s.equal_picture_interval) w.uvlc(s.num_ticks_per_picture - 1);
            w.bit(s.decoder_model_info_present);
            if (s.decoder_model_info_present) {
                w.bits(s.encoder_decoder_buffer_delay_length - 1, 5); w.bits(s.num_units_in_decoding_tick, 32);
                w.bits(s.buffer_removal_delay_length - 1, 5); w.bits(s.frame_presentation_delay_length - 1, 5);
            }
        }
        w.bit(s.display_model_info_present);
        w.bits(s.num_operating_points - 1, 5);
        for (int i = 0; i < s.num_operating_points; i++) {
            const auto &o = s.operating_points[i];
            w.bits(o.idc, 12); w.bits(o.major_level - 2, 3); w.bits(o.minor_level, 2);
            if (o.major_level > 3) w.bit(o.tier);
            if (s.decoder_model_info_present) {
                w.bit(o.decoder_model_param_present);
                if (o.decoder_model_param_present) {
                    const auto &q = s.operating_parameter_info[i];
                    w.bits(q.decoder_buffer_delay, s.encoder_decoder_buffer_delay_length);
                    w.bits(q.encoder_buffer_delay, s.encoder_decoder_buffer_delay_length);
                    w.bit(q.low_delay_mode);
                }
            }
            if (s.display_model_info_present) {
                w.bit(o.display_model_param_present);
                if (o.display_model_param_present) w.bits(o.initial_display_delay - 1, 4);
            }
        }
    }
    w.bits(s.width_n_bits - 1, 4); w.bits(s.height_n_bits - 1, 4);
    w.bits(s.max_width - 1, s.width_n_bits); w.bits(s.max_height - 1, s.height_n_bits);
    if (!s.reduced_still_picture_header) {
        w.bit(s.frame_id_numbers_present);
        if (s.frame_id_numbers_present) { w.bits(s.delta_frame_id_n_bits - 2, 4); w.bits(s.frame_id_n_bits - s.delta_frame_id_n_bits - 1, 3); }
    }
    w.bit(s.sb128); w.bit(s.filter_intra); w.bit(s.intra_edge_filter);
    if (!s.reduced_still_picture_header) {
        w.bit(s.inter_intra); w.bit(s.masked_compound); w.bit(s.warped_motion); w.bit(s.dual_filter); w.bit(s.order_hint);
        if (s.order_hint) { w.bit(s.jnt_comp); w.bit(s.ref_frame_mvs); }
        if (s.screen_content_tools == DAV1D_ADAPTIVE) w.bit(1); else { w.bit(0); w.bit(s.screen_content_tools); }
        if (s.screen_content_tools) { if (s.force_integer_mv == DAV1D_ADAPTIVE) w.bit(1); else { w.bit(0); w.bit(s.force_integer_mv); } }
        if (s.order_hint) w.bits(s.order_hint_n_bits - 1, 3);
    }
    w.bit(s.super_res); w.bit(s.cdef); w.bit(s.restoration);
    w.bit(!!s.hbd); if (s.profile == 2 && s.hbd) w.bit(s.hbd == 2);
    if (s.profile != 1) w.bit(s.monochrome);
    w.bit(s.color_description_present);
    if (s.color_description_present) { w.bits(s.pri, 8); w.bits(s.trc, 8); w.bits(s.mtrx, 8); }
    if (s.monochrome) w.bit(s.color_range);
    else if (s.pri == DAV1D_COLOR_PRI_BT709 && s.trc == DAV1D_TRC_SRGB && s.mtrx == DAV1D_MC_IDENTITY) {}
    else {
        w.bit(s.color_range);
        if (s.profile == 2 && s.hbd == 2) { w.bit(s.ss_hor); if (s.ss_hor) w.bit(s.ss_ver); }
        if (s.ss_hor && s.ss_ver) w.bits(s.chr, 2);
    }
    if (!s.monochrome) w.bit(s.separate_uv_delta_q);
    w.bit(s.film_grain_present);
}

static inline int tlog2(int sz, int tgt) { int k; for (k = 0; (sz << k) < tgt; k++); return k; }

static inline void write_size(BitWriter &w, const Dav1dSequenceHeader &s, const Dav1dFrameHeader &h, const RefSlot *refs, int found_ref, bool use_ref) {
    if (use_ref) {
        for (int i = 0; i < 7; i++) {
            w.bit(i == found_ref);
            if (i == found_ref) {
                if (s.super_res) { w.bit(h.super_res.enabled); if (h.super_res.enabled) w.bits(h.super_res.width_scale_denominator - 9, 3); }
                return;
            }
        }
    }
    (void)refs;
    if (h.frame_size_override) { w.bits(h.width[1] - 1, s.width_n_bits); w.bits(h.height - 1, s.height_n_bits); }
    if (s.super_res) { w.bit(h.super_res.enabled); if (h.super_res.enabled) w.bits(h.super_res.width_scale_denominator - 9, 3); }
    w.bit(h.have_render_size);
    if (h.have_render_size) { w.bits(h.render_width - 1, 16); w.bits(h.render_height - 1, 16); }
}

struct HdrAux { int found_ref = -1; /* refidx whose size is inherited */ int fg_ref = 0; /* slot grain is inherited from */ int imv_bit = 1; };
static inline void write_frame_hdr(BitWriter &w, const Dav1dSequenceHeader &s, const Dav1dFrameHeader &h, const RefSlot *refs, const HdrAux &aux) {
    const int found_ref = aux.found_ref;
    if (!s.reduced_still_picture_header) w.bit(h.show_existing_frame);
    if (h.show_existing_frame) {
        w.bits(h.existing_frame_idx, 3);
        if (s.decoder_model_info_present && !s.equal_picture_interval) w.bits(h.frame_presentation_delay, s.frame_presentation_delay_length);
        if (s.frame_id_numbers_present) w.bits(h.frame_id, s.frame_id_n_bits);
        return;
    }
    const bool intra = is_intra_type(h.frame_type), inter = !intra;
    if (!s.reduced_still_picture_header) {
        w.bits(h.frame_type, 2); w.bit(h.show_frame);
        if (h.show_frame) {
            if (s.decoder_model_info_present && !s.equal_picture_interval) w.bits(h.frame_presentation_delay, s.frame_presentation_delay_length);
        } else w.bit(h.showable_frame);
        if (!(h.frame_type == DAV1D_FRAME_TYPE_SWITCH || (h.frame_type == DAV1D_FRAME_TYPE_KEY && h.show_frame))) w.bit(h.error_resilient_mode);
    }
    w.bit(h.disable_cdf_update);
    if (s.screen_content_tools == DAV1D_ADAPTIVE) w.bit(h.allow_screen_content_tools);
    if (h.allow_screen_content_tools && s.force_integer_mv == DAV1D_ADAPTIVE)
        w.bit(intra ? aux.imv_bit : h.force_integer_mv);   // for intra frames the value is forced to 1 after parsing
    if (s.frame_id_numbers_present) w.bits(h.frame_id, s.frame_id_n_bits);
    if (!s.reduced_still_picture_header && h.frame_type != DAV1D_FRAME_TYPE_SWITCH) w.bit(h.frame_size_override);
    if (s.order_hint) w.bits(h.frame_offset, s.order_hint_n_bits);
    if (!h.error_resilient_mode && inter) w.bits(h.primary_ref_frame, 3);
    if (s.decoder_model_info_present) {
        w.bit(h.buffer_removal_time_present);
        if (h.buffer_removal_time_present)
            for (int i = 0; i < s.num_operating_points; i++) {
                const auto &o = s.operating_points[i];
                if (!o.decoder_model_param_present) continue;
                const bool in = ((o.idc >> h.temporal_id) & 1) && ((o.idc >> (h.spatial_id + 8)) & 1);
                if (!o.idc || in) w.bits(h.operating_points[i].buffer_removal_time, s.buffer_removal_delay_length);
            }
    }
    if (h.frame_type != DAV1D_FRAME_TYPE_SWITCH && !(h.frame_type == DAV1D_FRAME_TYPE_KEY && h.show_frame)) w.bits(h.refresh_frame_flags, 8);
    if ((!intra || h.refresh_frame_flags != 0xff) && h.error_resilient_mode && s.order_hint)
        for (int i = 0; i < 8; i++) w.bits(refs[i].valid ? refs[i].h.frame_offset : 0, s.order_hint_n_bits);
    if (intra) {
        write_size(w, s, h, refs, -1, false);
        if (h.allow_screen_content_tools && h.width[0] == h.width[1]) w.bit(h.allow_intrabc);
    } else {
        if (s.order_hint) w.bit(h.frame_ref_short_signaling);
        if (h.frame_ref_short_signaling) { w.bits(h.refidx[0], 3); w.bits(h.refidx[3], 3); }
        for (int i = 0; i < 7; i++) {
            if (!h.frame_ref_short_signaling) w.bits(h.refidx[i], 3);
            if (s.frame_id_numbers_present) {
                unsigned d = (h.frame_id - refs[h.refidx[i]].h.frame_id) & ((1u << s.frame_id_n_bits) - 1);
                w.bits(d - 1, s.delta_frame_id_n_bits);
            }
        }
        write_size(w, s, h, refs, found_ref, !h.error_resilient_mode && h.frame_size_override);
        if (!h.force_integer_mv) w.bit(h.hp);
        w.bit(h.subpel_filter_mode == DAV1D_FILTER_SWITCHABLE);
        if (h.subpel_filter_mode != DAV1D_FILTER_SWITCHABLE) w.bits(h.subpel_filter_mode, 2);
        w.bit(h.switchable_motion_mode);
        if (!h.error_resilient_mode && s.ref_frame_mvs && s.order_hint) w.bit(h.use_ref_frame_mvs);
    }
    if (!s.reduced_still_picture_header && !h.disable_cdf_update) w.bit(!h.refresh_context);
    // tiles
    const auto &t = h.tiling;
    w.bit(t.uniform);
    const int l2 = 6 + s.sb128, m1 = (1 << l2) - 1;
    const int sbw = (h.width[0] + m1) >> l2, sbh = (h.height + m1) >> l2;
    const int max_tw = 4096 >> l2;
    const int min_log2_tiles = std::max(tlog2(4096 * 2304 >> (2 * l2), sbw * sbh), (int)t.min_log2_cols);
    if (t.uniform) {
        for (int k = t.min_log2_cols; k < t.max_log2_cols; k++) { w.bit(k < t.log2_cols); if (k >= t.log2_cols) break; }
        for (int k = t.min_log2_rows; k < t.max_log2_rows; k++) { w.bit(k < t.log2_rows); if (k >= t.log2_rows) break; }
    } else {
        int widest = 0;
        for (int i = 0; i < t.cols; i++) {
            const int tw = t.col_start_sb[i + 1] - t.col_start_sb[i], m = std::min(sbw - t.col_start_sb[i], max_tw);
            if (m > 1) w.ns(tw - 1, m);
            widest = std::max(widest, tw);
        }
        int area = sbw * sbh; if (min_log2_tiles) area >>= min_log2_tiles + 1;
        const int maxh = std::max(area / widest, 1);
        for (int i = 0; i < t.rows; i++) {
            const int th = t.row_start_sb[i + 1] - t.row_start_sb[i], m = std::min(sbh - t.row_start_sb[i], maxh);
            if (m > 1) w.ns(th - 1, m);
        }
    }
    if (t.log2_cols || t.log2_rows) { w.bits(t.update, t.log2_cols + t.log2_rows); w.bits(t.n_bytes - 1, 2); }
    // quant
    auto dq = [&](int v) { w.bit(!!v); if (v) w.sbits(v, 7); };
    w.bits(h.quant.yac, 8); dq(h.quant.ydc_delta);
    if (!s.monochrome) {
        const bool diff = h.quant.vdc_delta != h.quant.udc_delta || h.quant.vac_delta != h.quant.uac_delta;
        if (s.separate_uv_delta_q) w.bit(diff);
        dq(h.quant.udc_delta); dq(h.quant.uac_delta);
        if (diff) { dq(h.quant.vdc_delta); dq(h.quant.vac_delta); }
    }
    w.bit(h.quant.qm);
    if (h.quant.qm) { w.bits(h.quant.qm_y, 4); w.bits(h.quant.qm_u, 4); if (s.separate_uv_delta_q) w.bits(h.quant.qm_v, 4); }
    // segmentation
    const auto &g = h.segmentation;
    w.bit(g.enabled);
    if (g.enabled) {
        if (h.primary_ref_frame != DAV1D_PRIMARY_REF_NONE) { w.bit(g.update_map); if (g.update_map) w.bit(g.temporal); w.bit(g.update_data); }
        if (g.update_data)
            for (int i = 0; i < 8; i++) {
                const auto &d = g.seg_data.d[i];
                w.bit(!!d.delta_q); if (d.delta_q) w.sbits(d.delta_q, 9);
                for (int v : { (int)d.delta_lf_y_v, (int)d.delta_lf_y_h, (int)d.delta_lf_u, (int)d.delta_lf_v }) { w.bit(!!v); if (v) w.sbits(v, 7); }
                w.bit(d.ref >= 0); if (d.ref >= 0) w.bits(d.ref, 3);
                w.bit(d.skip); w.bit(d.globalmv);
            }
    }
    // delta q/lf
    if (h.quant.yac) w.bit(h.delta.q.present);
    if (h.delta.q.present) {
        w.bits(h.delta.q.res_log2, 2);
        if (!h.allow_intrabc) { w.bit(h.delta.lf.present); if (h.delta.lf.present) { w.bits(h.delta.lf.res_log2, 2); w.bit(h.delta.lf.multi); } }
    }
    // loopfilter
    if (!(h.all_lossless || h.allow_intrabc)) {
        const auto &l = h.loopfilter;
        w.bits(l.level_y[0], 6); w.bits(l.level_y[1], 6);
        if (!s.monochrome && (l.level_y[0] || l.level_y[1])) { w.bits(l.level_u, 6); w.bits(l.level_v, 6); }
        w.bits(l.sharpness, 3); w.bit(l.mode_ref_delta_enabled);
        if (l.mode_ref_delta_enabled) {
            w.bit(l.mode_ref_delta_update);
            if (l.mode_ref_delta_update) {
                static const Dav1dLoopfilterModeRefDeltas def = { { 0, 0 }, { 1, 0, 0, 0, -1, 0, -1, -1 } };
                const auto &pr = h.primary_ref_frame == DAV1D_PRIMARY_REF_NONE ? def : refs[h.refidx[h.primary_ref_frame]].h.loopfilter.mode_ref_deltas;
                for (int i = 0; i < 8; i++) { const bool d = l.mode_ref_deltas.ref_delta[i] != pr.ref_delta[i]; w.bit(d); if (d) w.sbits(l.mode_ref_deltas.ref_delta[i], 7); }
                for (int i = 0; i < 2; i++) { const bool d = l.mode_ref_deltas.mode_delta[i] != pr.mode_delta[i]; w.bit(d); if (d) w.sbits(l.mode_ref_deltas.mode_delta[i], 7); }
            }
        }
    }
    if (!h.all_lossless && s.cdef && !h.allow_intrabc) {
        w.bits(h.cdef.damping - 3, 2); w.bits(h.cdef.n_bits, 2);
        for (int i = 0; i < (1 << h.cdef.n_bits); i++) { w.bits(h.cdef.y_strength[i], 6); if (!s.monochrome) w.bits(h.cdef.uv_strength[i], 6); }
    }
    if ((!h.all_lossless || h.width[0] != h.width[1]) && s.restoration && !h.allow_intrabc) {
        const auto &r = h.restoration;
        w.bits(r.type[0], 2);
        if (!s.monochrome) { w.bits(r.type[1], 2); w.bits(r.type[2], 2); }
        if (r.type[0] || r.type[1] || r.type[2]) {
            const int d = r.unit_size[0] - 6 - s.sb128;
            w.bit(d > 0); if (d > 0 && !s.sb128) w.bit(d > 1);
            if ((r.type[1] || r.type[2]) && s.ss_hor && s.ss_ver) w.bit(r.unit_size[0] != r.unit_size[1]);
        }
    }
    if (!h.all_lossless) w.bit(h.txfm_mode == DAV1D_TX_SWITCHABLE);
    if (inter) w.bit(h.switchable_comp_refs);
    if (h.skip_mode_allowed) w.bit(h.skip_mode_enabled);
    if (!h.error_resilient_mode && inter && s.warped_motion) w.bit(h.warp_motion);
    w.bit(h.reduced_txtp_set);
    if (inter)
        for (int i = 0; i < 7; i++) {
            const auto &m = h.gmv[i];
            w.bit(m.type != DAV1D_WM_TYPE_IDENTITY);
            if (m.type == DAV1D_WM_TYPE_IDENTITY) continue;
            w.bit(m.type == DAV1D_WM_TYPE_ROT_ZOOM);
            if (m.type != DAV1D_WM_TYPE_ROT_ZOOM) w.bit(m.type == DAV1D_WM_TYPE_TRANSLATION);
            static const int32_t def[6] = { 0, 0, 1 << 16, 0, 0, 1 << 16 };
            const int32_t *rm = h.primary_ref_frame == DAV1D_PRIMARY_REF_NONE ? def : refs[h.refidx[h.primary_ref_frame]].h.gmv[i].matrix;
            int bits = 9 - !h.hp, shift = 13 + !h.hp;
            if (m.type >= DAV1D_WM_TYPE_ROT_ZOOM) {
                w.subexp((m.matrix[2] - (1 << 16)) >> 1, (rm[2] - (1 << 16)) >> 1, 12);
                w.subexp(m.matrix[3] >> 1, rm[3] >> 1, 12);
                bits = 12; shift = 10;
            }
            if (m.type == DAV1D_WM_TYPE_AFFINE) {
                w.subexp(m.matrix[4] >> 1, rm[4] >> 1, 12);
                w.subexp((m.matrix[5] - (1 << 16)) >> 1, (rm[5] - (1 << 16)) >> 1, 12);
            }
            w.subexp(m.matrix[0] >> shift, rm[0] >> shift, bits);
            w.subexp(m.matrix[1] >> shift, rm[1] >> shift, bits);
        }
    if (s.film_grain_present && (h.show_frame || h.showable_frame)) {
        const auto &f = h.film_grain;
        w.bit(f.present);
        if (f.present) {
            w.bits(f.data.seed, 16);
            if (h.frame_type == DAV1D_FRAME_TYPE_INTER) w.bit(f.update);
            if (!f.update) w.bits(aux.fg_ref, 3);
            else {
                const auto &d = f.data;
                // (well-formed but too long point lists, too)
                auto pts = [&](int n, const uint8_t (*p)[2]) {
                    if (BitWriter::hostile(1)) { n = BitWriter::brng.r(11, 15); w.bits(n, 4); for (int i = 0; i < n; i++) { w.bits(i * 16 + 3, 8); w.bits(BitWriter::brng.n(256), 8); } return; }
                    w.bits(n, 4); for (int i = 0; i < n; i++) { w.bits(p[i][0], 8); w.bits(p[i][1], 8); }
                };
                pts(d.num_y_points, d.y_points);
                if (!s.monochrome) w.bit(d.chroma_scaling_from_luma);
                if (!(s.monochrome || d.chroma_scaling_from_luma || (s.ss_ver && s.ss_hor && !d.num_y_points)))
                    for (int p = 0; p < 2; p++) pts(d.num_uv_points[p], d.uv_points[p]);
                w.bits(d.scaling_shift - 8, 2); w.bits(d.ar_coeff_lag, 2);
                const int ny = 2 * d.ar_coeff_lag * (d.ar_coeff_lag + 1);
                if (d.num_y_points) for (int i = 0; i < ny; i++) w.bits(d.ar_coeffs_y[i] + 128, 8);
                for (int p = 0; p < 2; p++)
                    if (d.num_uv_points[p] || d.chroma_scaling_from_luma) {
                        const int nu = ny + !!d.num_y_points;
                        for (int i = 0; i < nu; i++) w.bits(d.ar_coeffs_uv[p][i] + 128, 8);
                    }
                w.bits(d.ar_coeff_shift - 6, 2); w.bits(d.grain_scale_shift, 2);
                for (int p = 0; p < 2; p++)
                    if (d.num_uv_points[p]) { w.bits(d.uv_mult[p] + 128, 8); w.bits(d.uv_luma_mult[p] + 128, 8); w.bits(d.uv_offset[p] + 256, 9); }
                w.bit(d.overlap_flag); w.bit(d.clip_to_restricted_range);
            }
        }
    }
}
