// Random AV1 stream generator.
//   STEERED build: linked with the steered library (genmsac.c); tile symbols are chosen while
//   the library walks the frame and are range-encoded afterwards -> conformant streams.
//   plain build: tile payload is random bytes (hostile, but header-valid streams).
#include "avgen.hpp"
#include <map>
#ifdef STEERED
#include "dav1d/dav1d.h"
#include "genmsac.h"
#endif

struct Cfg {
    std::map<std::string, std::string> m;
    int i(const char *k, int d) const { auto it = m.find(k); return it == m.end() ? d : atoi(it->second.c_str()); }
};

struct Gen {
    Cfg cfg; Rng rng; Dav1dSequenceHeader seq; RefSlot ref[8]; int slot_layer[8];
    int disp = 0; unsigned cur_id = 0; int tu_no = 0;
    int n_sl = 1, n_tl = 1;
    std::vector<std::vector<Bytes>> tus;    // per variant: list of temporal units
    std::vector<Bytes> cur;                 // current TU per variant
    int n_var = 1;
    std::string log;
    int n_frames_coded = 0;
#ifdef STEERED
    Dav1dContext *dec = nullptr;
#endif
    explicit Gen(const Cfg &c) : cfg(c), rng(c.i("seed", 1)) {
        memset(&seq, 0, sizeof seq);
        n_var = cfg.i("variants", 0) ? 8 : 1;
        tus.resize(n_var); cur.resize(n_var);
#ifdef STEERED
        Dav1dSettings s; dav1d_default_settings(&s);
        s.n_threads = 1; s.max_frame_delay = 1; s.apply_grain = 0; s.all_layers = 1; s.output_invisible_frames = 1;
        s.inloop_filters = (Dav1dInloopFilterType)0;
        if (!cfg.i("verbose", 0)) s.logger.callback = nullptr;
        if (dav1d_open(&dec, &s)) abort();
        gen_seed(cfg.i("seed", 1));
#endif
    }
    bool P(const char *k, int d) { return rng.p(cfg.i(k, d)); }

    template <class O> void level(O &o) { // only levels that are defined
        static const uint8_t lv[] = { 0, 1, 4, 5, 8, 9, 12, 13, 14, 15, 16, 17, 18, 19, 31 };
        const int v = lv[rng.n(15)]; o.major_level = 2 + (v >> 2); o.minor_level = v & 3;
    }
    void make_seq() {
        memset(&seq, 0, sizeof seq);
        const int fmt = cfg.i("fmt", 420), bd = cfg.i("bd", 8);
        seq.layout = fmt == 400 ? DAV1D_PIXEL_LAYOUT_I400 : fmt == 420 ? DAV1D_PIXEL_LAYOUT_I420 : fmt == 422 ? DAV1D_PIXEL_LAYOUT_I422 : DAV1D_PIXEL_LAYOUT_I444;
        seq.hbd = bd == 8 ? 0 : bd == 10 ? 1 : 2;
        seq.profile = (seq.hbd == 2 || fmt == 422) ? 2 : fmt == 444 ? 1 : 0;
        seq.ss_hor = fmt != 444; seq.ss_ver = fmt == 420 || fmt == 400; seq.monochrome = fmt == 400;
        seq.reduced_still_picture_header = cfg.i("reduced", 0);
        seq.still_picture = seq.reduced_still_picture_header || cfg.i("still", 0);
        seq.max_width = cfg.i("w", 128); seq.max_height = cfg.i("h", 96);
        auto nb = [](int v) { int n = 1; while ((v - 1) >> n) n++; return n; };
        seq.width_n_bits = std::min(16, nb(seq.max_width) + rng.n(3)); seq.height_n_bits = std::min(16, nb(seq.max_height) + rng.n(3));
        n_sl = cfg.i("slayers", 1); n_tl = cfg.i("tlayers", 1);
        if (seq.reduced_still_picture_header) {
            seq.num_operating_points = 1; level(seq.operating_points[0]);
            seq.operating_points[0].initial_display_delay = 10;
            seq.screen_content_tools = DAV1D_ADAPTIVE; seq.force_integer_mv = DAV1D_ADAPTIVE;
        } else {
            seq.timing_info_present = P("timing", 25);
            if (seq.timing_info_present) {
                seq.num_units_in_tick = 1 + rng.n(1000); seq.time_scale = 1 + rng.n(60000);
                seq.equal_picture_interval = rng.p(50);
                if (seq.equal_picture_interval) seq.num_ticks_per_picture = 1 + rng.n(rng.p(50) ? 4 : 100000);
                seq.decoder_model_info_present = rng.p(60);
                if (seq.decoder_model_info_present) {
                    seq.encoder_decoder_buffer_delay_length = rng.r(1, 32); seq.num_units_in_decoding_tick = 1 + rng.n(100000);
                    seq.buffer_removal_delay_length = rng.r(1, 32); seq.frame_presentation_delay_length = rng.r(1, 32);
                }
            }
            seq.display_model_info_present = rng.p(20);
            if (n_sl * n_tl > 1) {
                std::vector<int> ops;
                for (int t = n_tl; t >= 1; t--) for (int s = n_sl; s >= 1; s--)
                    ops.push_back((((1 << s) - 1) << 8) | ((1 << t) - 1));
                seq.num_operating_points = ops.size();
                for (size_t i = 0; i < ops.size(); i++) seq.operating_points[i].idc = ops[i];
            } else seq.num_operating_points = 1 + (rng.p(10) ? rng.n(3) : 0);
            for (int i = 0; i < seq.num_operating_points; i++) {
                auto &o = seq.operating_points[i];
                level(o); if (o.major_level > 3) o.tier = rng.n(2);
                if (seq.decoder_model_info_present) {
                    o.decoder_model_param_present = rng.p(70);
                    if (o.decoder_model_param_present) fill_opinfo(i);
                }
                if (seq.display_model_info_present) o.display_model_param_present = rng.p(50);
                o.initial_display_delay = o.display_model_param_present ? 1 + rng.n(10) : 10;
            }
            seq.frame_id_numbers_present = P("frameid", 15);
            if (seq.frame_id_numbers_present) { seq.delta_frame_id_n_bits = rng.r(10, 14); seq.frame_id_n_bits = seq.delta_frame_id_n_bits + 1 + rng.n(2); if (seq.frame_id_n_bits > 16) seq.frame_id_n_bits = 16; }
            seq.inter_intra = P("t_interintra", 80); seq.masked_compound = P("t_masked", 80); seq.warped_motion = P("t_warped", 80);
            seq.dual_filter = P("t_dual", 60); seq.order_hint = P("t_oh", 90);
            if (seq.order_hint) { seq.jnt_comp = P("t_jnt", 80); seq.ref_frame_mvs = P("t_rfmv", 80); seq.order_hint_n_bits = cfg.i("ohbits", rng.r(4, 8)); }
            const int scc = cfg.i("scc", rng.p(50) ? 2 : rng.n(2));
            seq.screen_content_tools = (Dav1dAdaptiveBoolean)scc;
            seq.force_integer_mv = scc ? (rng.p(60) ? DAV1D_ADAPTIVE : rng.p(75) ? DAV1D_OFF : DAV1D_ON) : (Dav1dAdaptiveBoolean)2;
        }
        seq.sb128 = cfg.i("sb128", rng.n(2)); seq.filter_intra = P("t_fi", 80); seq.intra_edge_filter = P("t_ie", 80);
        seq.super_res = cfg.i("superres", 0); seq.cdef = P("t_cdef", 85); seq.restoration = P("t_lr", 80);
        seq.color_description_present = rng.p(40);
        seq.pri = DAV1D_COLOR_PRI_UNKNOWN; seq.trc = DAV1D_TRC_UNKNOWN; seq.mtrx = DAV1D_MC_UNKNOWN;
        if (seq.color_description_present) {
            static const int pri[] = { 1, 2, 4, 5, 6, 7, 8, 9, 10, 11, 12, 22 };
            seq.pri = (Dav1dColorPrimaries)pri[rng.n(12)]; seq.trc = (Dav1dTransferCharacteristics)(rng.n(2) ? 2 : 4 + rng.n(15));
            seq.mtrx = (Dav1dMatrixCoefficients)(fmt == 444 ? (rng.p(40) ? 0 : 4 + rng.n(11)) : 4 + rng.n(11));
            if (cfg.i("srgb", 0) && fmt == 444) { seq.pri = DAV1D_COLOR_PRI_BT709; seq.trc = DAV1D_TRC_SRGB; seq.mtrx = DAV1D_MC_IDENTITY; }
        }
        const bool srgb = seq.pri == DAV1D_COLOR_PRI_BT709 && seq.trc == DAV1D_TRC_SRGB && seq.mtrx == DAV1D_MC_IDENTITY;
        seq.color_range = srgb ? 1 : rng.n(2);
        seq.chr = (fmt == 420 && !srgb) ? (Dav1dChromaSamplePosition)rng.n(3) : DAV1D_CHR_UNKNOWN;
        if (seq.monochrome) seq.chr = DAV1D_CHR_UNKNOWN;
        seq.separate_uv_delta_q = seq.monochrome ? 0 : rng.n(2);
        seq.film_grain_present = cfg.i("fg", 0) > 0;
    }
    void fill_opinfo(int i) {
        auto &q = seq.operating_parameter_info[i];
        const uint64_t mx = (1ull << seq.encoder_decoder_buffer_delay_length) - 1;
        q.decoder_buffer_delay = rng.u() & mx; q.encoder_buffer_delay = rng.u() & mx; q.low_delay_mode = rng.n(2);
    }
    int edge(int a, int b) { const int k = rng.n(10); return k == 0 ? a : k == 1 ? b : rng.r(a, b); }

    // ---- frame header filling ----
    bool size_ok(int w0, int h, const RefSlot &r) {
        return r.valid && 2 * w0 >= r.h.width[1] && 2 * h >= r.h.height && w0 <= 16 * r.h.width[1] && h <= 16 * r.h.height;
    }
    static int sr_width(int w, int d) { return d == 8 ? w : std::max((w * 8 + (d >> 1)) / d, std::min(16, w)); }

    bool short_refs(Dav1dFrameHeader &h) {
        int so[8]; const int cur = 1 << (seq.order_hint_n_bits - 1);
        for (int i = 0; i < 8; i++) { if (!ref[i].valid) return false; so[i] = cur + poc_diff(seq.order_hint_n_bits, ref[i].h.frame_offset, h.frame_offset); }
        const int last = h.refidx[0], gold = h.refidx[3];
        if (so[last] >= cur || so[gold] >= cur) return false;
        int out[7] = { last, -1, -1, gold, -1, -1, -1 }; bool used[8] = {}; used[last] = used[gold] = true;
        auto find = [&](int mode) { // 0 latest backward, 1 earliest backward, 2 latest forward
            int best = -1, bh = 0;
            for (int i = 0; i < 8; i++) {
                if (used[i]) continue;
                if (mode < 2 ? so[i] < cur : so[i] >= cur) continue;
                if (best < 0 || (mode == 1 ? so[i] < bh : so[i] >= bh)) { best = i; bh = so[i]; }
            }
            if (best >= 0) used[best] = true;
            return best;
        };
        out[6] = find(0); out[4] = find(1); out[5] = find(1);
        const int order[5] = { 1, 2, 4, 5, 6 };
        for (int k : order) if (out[k] < 0) out[k] = find(2);
        int e = -1; for (int i = 0; i < 8; i++) if (e < 0 || so[i] < so[e]) e = i;
        for (int k = 0; k < 7; k++) if (out[k] < 0) out[k] = e;
        for (int k = 0; k < 7; k++) h.refidx[k] = out[k];
        return true;
    }
    void skip_mode(Dav1dFrameHeader &h) {
        h.skip_mode_allowed = 0;
        if (!h.switchable_comp_refs || is_intra_type(h.frame_type) || !seq.order_hint) return;
        const int nb = seq.order_hint_n_bits; int fi = -1, bi = -1, fh = 0, bh = 0;
        for (int i = 0; i < 7; i++) {
            const int rh = ref[h.refidx[i]].h.frame_offset, d = poc_diff(nb, rh, h.frame_offset);
            if (d < 0) { if (fi < 0 || poc_diff(nb, rh, fh) > 0) { fi = i; fh = rh; } }
            else if (d > 0) { if (bi < 0 || poc_diff(nb, rh, bh) < 0) { bi = i; bh = rh; } }
        }
        if (fi < 0) return;
        if (bi < 0) {
            int si = -1, sh = 0;
            for (int i = 0; i < 7; i++) {
                const int rh = ref[h.refidx[i]].h.frame_offset;
                if (poc_diff(nb, rh, fh) < 0 && (si < 0 || poc_diff(nb, rh, sh) > 0)) { si = i; sh = rh; }
            }
            if (si < 0) return;
            bi = si;
        }
        h.skip_mode_allowed = 1; h.skip_mode_refs[0] = std::min(fi, bi); h.skip_mode_refs[1] = std::max(fi, bi);
    }
    void tiling(Dav1dFrameHeader &h) {
        auto &t = h.tiling;
        const int l2 = 6 + seq.sb128, m1 = (1 << l2) - 1;
        const int sbw = (h.width[0] + m1) >> l2, sbh = (h.height + m1) >> l2, max_tw = 4096 >> l2;
        t.min_log2_cols = tlog2(max_tw, sbw); t.max_log2_cols = tlog2(1, std::min(sbw, 64)); t.max_log2_rows = tlog2(1, std::min(sbh, 64));
        const int mint = std::max(tlog2(4096 * 2304 >> (2 * l2), sbw * sbh), (int)t.min_log2_cols);
        const int minw = h.super_res.enabled ? 2 >> seq.sb128 : 1; // inner tiles at least 128 wide with super-resolution
        const bool many = P("tiles", 35);
        t.uniform = rng.p(60);
        if (t.uniform) {
            t.log2_cols = t.min_log2_cols; while (many && t.log2_cols < t.max_log2_cols && 1 + ((sbw - 1) >> (t.log2_cols + 1)) >= minw && rng.p(60)) t.log2_cols++;
            const int tw = 1 + ((sbw - 1) >> t.log2_cols); t.cols = 0;
            for (int x = 0; x < sbw; x += tw) t.col_start_sb[t.cols++] = x;
            t.min_log2_rows = std::max(mint - t.log2_cols, 0);
            t.log2_rows = t.min_log2_rows; while (many && t.log2_rows < t.max_log2_rows && rng.p(60)) t.log2_rows++;
            const int th = 1 + ((sbh - 1) >> t.log2_rows); t.rows = 0;
            for (int y = 0; y < sbh; y += th) t.row_start_sb[t.rows++] = y;
        } else {
            t.cols = 0; int widest = 0;
            for (int x = 0; x < sbw && t.cols < 64;) { const int m = std::min(sbw - x, max_tw); int tw = many ? 1 + rng.n(m) : m; if (tw < minw) tw = std::min(m, minw); if (t.cols == 63) tw = m; t.col_start_sb[t.cols++] = x; x += tw; widest = std::max(widest, tw); }
            t.log2_cols = tlog2(1, t.cols);
            int area = sbw * sbh; if (mint) area >>= mint + 1;
            const int maxh = std::max(area / widest, 1); t.rows = 0;
            for (int y = 0; y < sbh && t.rows < 64;) { const int m = std::min(sbh - y, maxh); const int th = many ? 1 + rng.n(m) : m; t.row_start_sb[t.rows++] = y; y += th; }
            t.log2_rows = tlog2(1, t.rows);
        }
        t.col_start_sb[t.cols] = sbw; t.row_start_sb[t.rows] = sbh;
        if (t.log2_cols || t.log2_rows) { t.update = rng.n(t.cols * t.rows); t.n_bytes = 4; }
    }
    void fill_fg(Dav1dFilmGrainData &d) {
        memset(&d, 0, sizeof d);
        auto pts = [&](uint8_t (*p)[2], int mx) {
            int n = rng.p(15) ? 0 : rng.p(15) ? mx : 1 + rng.n(mx);
            std::vector<int> v; while ((int)v.size() < n) { int x = rng.n(256); if (std::find(v.begin(), v.end(), x) == v.end()) v.push_back(x); }
            std::sort(v.begin(), v.end()); if (n && rng.p(30)) v[0] = 0;
            for (int i = 0; i < n; i++) { p[i][0] = v[i]; p[i][1] = rng.p(10) ? 255 : rng.n(200); }
            return n;
        };
        d.num_y_points = pts(d.y_points, 14);
        d.chroma_scaling_from_luma = !seq.monochrome && rng.p(30);
        if (!(seq.monochrome || d.chroma_scaling_from_luma || (seq.ss_ver && seq.ss_hor && !d.num_y_points))) {
            d.num_uv_points[0] = pts(d.uv_points[0], 10);
            d.num_uv_points[1] = pts(d.uv_points[1], 10);
            if (seq.ss_ver && seq.ss_hor && !d.num_uv_points[0] != !d.num_uv_points[1]) {
                memset(d.uv_points, 0, sizeof d.uv_points); d.num_uv_points[0] = d.num_uv_points[1] = 0;
            }
        }
        d.scaling_shift = 8 + rng.n(4); d.ar_coeff_lag = rng.n(4);
        const int ny = 2 * d.ar_coeff_lag * (d.ar_coeff_lag + 1), amp = rng.p(30) ? 127 : 20;
        auto ac = [&] { return rng.r(-amp, amp); };
        if (d.num_y_points) for (int i = 0; i < ny; i++) d.ar_coeffs_y[i] = ac();
        for (int p = 0; p < 2; p++) if (d.num_uv_points[p] || d.chroma_scaling_from_luma) for (int i = 0; i < ny + !!d.num_y_points; i++) d.ar_coeffs_uv[p][i] = ac();
        d.ar_coeff_shift = 6 + rng.n(4); d.grain_scale_shift = rng.n(4);
        for (int p = 0; p < 2; p++) if (d.num_uv_points[p]) { d.uv_mult[p] = rng.r(-128, 127); d.uv_luma_mult[p] = rng.r(-128, 127); d.uv_offset[p] = rng.r(-256, 255); }
        d.overlap_flag = rng.n(2); d.clip_to_restricted_range = rng.n(2);
    }
    int max_seg_active = -1;

    // type: -1 random. returns false if not possible
    bool fill_frame(Dav1dFrameHeader &h, HdrAux &aux, int type, bool show, int tid, int sid) {
        memset(&h, 0, sizeof h); aux = HdrAux();
        const bool first = !ref[0].valid;
        const bool red = seq.reduced_still_picture_header;
        h.temporal_id = tid; h.spatial_id = sid;
        h.frame_type = (Dav1dFrameType)type;
        if (red || first) { h.frame_type = DAV1D_FRAME_TYPE_KEY; show = red || show; }
        if (first) show = true;
        h.show_frame = show;
        if (show && seq.decoder_model_info_present && !seq.equal_picture_interval)
            h.frame_presentation_delay = rng.u() & ((1ull << seq.frame_presentation_delay_length) - 1);
        h.showable_frame = show ? h.frame_type != DAV1D_FRAME_TYPE_KEY : rng.p(75);
        const bool intra = is_intra_type(h.frame_type), layered = n_sl * n_tl > 1;
        h.error_resilient_mode = (h.frame_type == DAV1D_FRAME_TYPE_KEY && show) || h.frame_type == DAV1D_FRAME_TYPE_SWITCH || red || (!layered && P("errres", 12));
        h.disable_cdf_update = P("nocdfupd", 12);
        h.allow_screen_content_tools = seq.screen_content_tools == DAV1D_ADAPTIVE ? P("sccframe", 60) : seq.screen_content_tools;
        h.force_integer_mv = h.allow_screen_content_tools ? (seq.force_integer_mv == DAV1D_ADAPTIVE ? P("imv", 25) : seq.force_integer_mv) : 0;
        aux.imv_bit = rng.n(2);
        if (intra) h.force_integer_mv = 1;
        const unsigned idmask = (1u << seq.frame_id_n_bits) - 1;
        if (seq.frame_id_numbers_present) {
            if (h.frame_type == DAV1D_FRAME_TYPE_KEY && show) h.frame_id = rng.u() & idmask;
            else h.frame_id = (cur_id + 1 + rng.n(3)) & idmask;
        }
        const int order = show ? disp : disp + rng.r(1, 4);
        h.frame_offset = seq.order_hint ? order & ((1 << seq.order_hint_n_bits) - 1) : 0;
        if (seq.decoder_model_info_present) {
            h.buffer_removal_time_present = rng.p(40);
            if (h.buffer_removal_time_present)
                for (int i = 0; i < seq.num_operating_points; i++) {
                    const auto &o = seq.operating_points[i];
                    if (!o.decoder_model_param_present) continue;
                    if (!o.idc || (((o.idc >> tid) & 1) && ((o.idc >> (sid + 8)) & 1)))
                        h.operating_points[i].buffer_removal_time = rng.u() & ((1ull << seq.buffer_removal_delay_length) - 1);
                }
        }
        // refresh
        if (h.frame_type == DAV1D_FRAME_TYPE_SWITCH || (h.frame_type == DAV1D_FRAME_TYPE_KEY && show)) h.refresh_frame_flags = 0xff;
        else if (layered) {
            int lay = tid * n_sl + sid, n = n_tl * n_sl, per = 8 / n;
            h.refresh_frame_flags = 0;
            for (int i = lay * per; i < (lay + 1) * per; i++) if (rng.p(60)) h.refresh_frame_flags |= 1 << i;
            if (rng.p(80) && !h.refresh_frame_flags) h.refresh_frame_flags = 1 << (lay * per);
        } else {
            h.refresh_frame_flags = rng.p(15) ? rng.n(256) : rng.p(10) ? 0 : 1 << rng.n(8) | (rng.p(40) ? 1 << rng.n(8) : 0);
            if (h.frame_type == DAV1D_FRAME_TYPE_INTRA && h.refresh_frame_flags == 0xff) h.refresh_frame_flags = 0x7f;
        }
        // size
        const bool sz = P("sizechg", 0) || (n_sl > 1 && sid < n_sl - 1);
        h.frame_size_override = red ? 0 : h.frame_type == DAV1D_FRAME_TYPE_SWITCH ? 1 : (sz || rng.p(8));
        if (h.frame_size_override && sz) {
            if (n_sl > 1) { const int sh = n_sl - 1 - sid; h.width[1] = std::max(1, seq.max_width >> sh); h.height = std::max(1, seq.max_height >> sh); }
            else { h.width[1] = rng.r(std::max(1, (seq.max_width * 9 + 15) / 16), seq.max_width); h.height = rng.r(std::max(1, (seq.max_height * 9 + 15) / 16), seq.max_height);
                   if (P("bigchg", 0)) { h.width[1] = rng.r(std::max(1, seq.max_width / 8), seq.max_width); h.height = rng.r(std::max(1, seq.max_height / 8), seq.max_height); } }
        } else { h.width[1] = seq.max_width; h.height = seq.max_height; }
        h.have_render_size = rng.p(15);
        if (h.have_render_size) { h.render_width = 1 + rng.n(65536); h.render_height = 1 + rng.n(65536); } else { h.render_width = h.width[1]; h.render_height = h.height; }
        auto set_sr = [&] {
            h.super_res.enabled = seq.super_res && rng.p(60);
            h.super_res.width_scale_denominator = h.super_res.enabled ? 9 + rng.n(8) : 8;
            { const int d = h.super_res.width_scale_denominator; if ((h.width[1] * 8 + (d >> 1)) / d < 16 && h.width[1] > 16) { h.super_res.enabled = 0; h.super_res.width_scale_denominator = 8; } } // Appendix A: FrameWidth >= 16
            h.width[0] = h.width[1] <= 16 ? h.width[1] : sr_width(h.width[1], h.super_res.width_scale_denominator);
        };
        set_sr();
        h.primary_ref_frame = DAV1D_PRIMARY_REF_NONE;
        if (!intra) {
            auto usable = [&](int i) {
                if (!ref[i].valid) return false;
                if (!layered) return true;
                const int n = n_tl * n_sl, per = 8 / n, lay = std::min(i / per, n - 1), t2 = lay / n_sl, s2 = lay % n_sl;
                return t2 <= tid && s2 <= sid;
            };
            // inherit size
            if (!h.error_resilient_mode && h.frame_size_override && rng.p(40)) {
                int k = rng.n(7), s = rng.n(8);
                if (usable(s)) { aux.found_ref = k; h.refidx[k] = s; h.width[1] = ref[s].h.width[1]; h.height = ref[s].h.height;
                    h.render_width = ref[s].h.render_width; h.render_height = ref[s].h.render_height; h.have_render_size = 0; set_sr(); }
            }
            std::vector<int> ok; for (int i = 0; i < 8; i++) if (usable(i) && size_ok(h.width[0], h.height, ref[i])) ok.push_back(i);
            if (ok.empty() && h.super_res.enabled) { h.super_res.enabled = 0; h.super_res.width_scale_denominator = 8; h.width[0] = h.width[1]; for (int i = 0; i < 8; i++) if (usable(i) && size_ok(h.width[0], h.height, ref[i])) ok.push_back(i); }
            if (ok.empty()) return false;
            if (aux.found_ref >= 0 && std::find(ok.begin(), ok.end(), (int)h.refidx[aux.found_ref]) == ok.end()) return false;
            for (int i = 0; i < 7; i++) if (i != aux.found_ref) h.refidx[i] = ok[rng.n(ok.size())];
            if (seq.order_hint && !layered && aux.found_ref < 0 && P("shortref", 15)) {
                Dav1dFrameHeader t = h;
                if (short_refs(t)) {
                    bool good = true; for (int i = 0; i < 7; i++) good &= size_ok(h.width[0], h.height, ref[t.refidx[i]]);
                    if (good) { memcpy(h.refidx, t.refidx, sizeof h.refidx); h.frame_ref_short_signaling = 1; }
                }
            }
            if (!h.error_resilient_mode && rng.p(75)) h.primary_ref_frame = rng.n(7);
            if (seq.frame_id_numbers_present)
                for (int i = 0; i < 7; i++) { unsigned d = (h.frame_id - ref[h.refidx[i]].h.frame_id) & idmask; if (d == 0 || d > (1u << seq.delta_frame_id_n_bits)) return false; }
            h.hp = !h.force_integer_mv && rng.p(60);
            h.subpel_filter_mode = rng.p(55) ? DAV1D_FILTER_SWITCHABLE : (Dav1dFilterMode)rng.n(4);
            h.switchable_motion_mode = rng.p(75);
            h.use_ref_frame_mvs = !h.error_resilient_mode && seq.ref_frame_mvs && seq.order_hint && rng.p(75);
        } else {
            h.allow_intrabc = h.allow_screen_content_tools && h.width[0] == h.width[1] && P("intrabc", 20);
        }
        h.refresh_context = !red && !h.disable_cdf_update && rng.p(75);
        tiling(h);
        // quant
        auto dqv = [&] { return rng.p(70) ? 0 : edge(-64, 63); };
        const bool lossless = P("lossless", 0);
        h.quant.yac = lossless ? 0 : cfg.i("q", rng.p(10) ? 255 : rng.p(20) ? rng.r(1, 30) : rng.r(1, 255));
        if (!lossless) {
            h.quant.ydc_delta = dqv();
            if (!seq.monochrome) {
                h.quant.udc_delta = dqv(); h.quant.uac_delta = dqv(); h.quant.vdc_delta = h.quant.udc_delta; h.quant.vac_delta = h.quant.uac_delta;
                if (seq.separate_uv_delta_q && rng.p(50)) { h.quant.vdc_delta = dqv(); h.quant.vac_delta = dqv(); }
            }
        }
        h.quant.qm = P("qm", 25);
        if (h.quant.qm) { h.quant.qm_y = rng.n(16); h.quant.qm_u = rng.n(16); h.quant.qm_v = seq.separate_uv_delta_q ? rng.n(16) : h.quant.qm_u; }
        // segmentation
        auto &g = h.segmentation;
        g.enabled = P("seg", 30);
        const Dav1dFrameHeader *pri = h.primary_ref_frame == DAV1D_PRIMARY_REF_NONE ? nullptr : &ref[h.refidx[h.primary_ref_frame]].h;
        if (g.enabled) {
            g.update_map = 1; g.update_data = 1;
            if (pri) {
                const bool keep = cfg.i("segkeep", 0) && rng.p(cfg.i("segkeep", 0));     // maps kept from frames with any segmentation, or none
                const bool prev_full = keep || (pri->segmentation.enabled && pri->segmentation.seg_data.last_active_segid == 7);
                g.update_map = !(prev_full && rng.p(30)); g.temporal = g.update_map && prev_full && rng.p(50);
                g.update_data = !(pri->segmentation.enabled && rng.p(30));
            }
            if (g.update_data) {
                auto &sd = g.seg_data; sd.last_active_segid = -1; sd.preskip = 0;
                const bool needfull = rng.p(80) || !g.update_map || g.temporal;
                const int nseg = needfull ? 8 : 1 + rng.n(8), dens = rng.r(10, 40);
                const bool pre = rng.p(60);
                for (int i = 0; i < 8; i++) {
                    auto &d = sd.d[i]; d.ref = -1;
                    if (i >= nseg) continue;
                    bool any = false;
                    if (rng.p(dens)) { d.delta_q = lossless ? (rng.p(50) ? rng.r(1, 100) : -rng.r(1, 100)) : rng.p(10) ? -255 : edge(-255, 255); }
                    if (rng.p(dens)) d.delta_lf_y_v = edge(-63, 63);
                    if (rng.p(dens)) d.delta_lf_y_h = edge(-63, 63);
                    if (rng.p(dens)) d.delta_lf_u = edge(-63, 63);
                    if (rng.p(dens)) d.delta_lf_v = edge(-63, 63);
                    if (pre && rng.p(dens / 2)) d.ref = rng.n(8);
                    if (pre && rng.p(dens / 3)) d.skip = 1;
                    if (pre && rng.p(dens / 2)) d.globalmv = 1;
                    any = d.delta_q || d.delta_lf_y_v || d.delta_lf_y_h || d.delta_lf_u || d.delta_lf_v || d.ref >= 0 || d.skip || d.globalmv;
                    if (i == nseg - 1 && !any) { d.delta_lf_y_v = 5; any = true; }
                    if (any) sd.last_active_segid = i;
                    if (d.ref >= 0 || d.skip || d.globalmv) sd.preskip = 1;
                }
            } else g.seg_data = pri->segmentation.seg_data;
        } else for (auto &d : g.seg_data.d) d.ref = -1;
        h.delta.q.present = h.quant.yac ? P("deltaq", 30) : 0;
        if (h.delta.q.present) {
            h.delta.q.res_log2 = rng.n(4);
            h.delta.lf.present = !h.allow_intrabc && rng.p(60);
            if (h.delta.lf.present) { h.delta.lf.res_log2 = rng.n(4); h.delta.lf.multi = rng.n(2); }
        }
        const bool dl = !h.quant.ydc_delta && !h.quant.udc_delta && !h.quant.uac_delta && !h.quant.vdc_delta && !h.quant.vac_delta;
        h.all_lossless = 1;
        for (int i = 0; i < 8; i++) {
            int q = h.quant.yac + (g.enabled ? g.seg_data.d[i].delta_q : 0); q = std::max(0, std::min(255, q));
            g.qidx[i] = q; g.lossless[i] = !q && dl; h.all_lossless &= g.lossless[i];
        }
        auto &l = h.loopfilter;
        static const Dav1dLoopfilterModeRefDeltas def = { { 0, 0 }, { 1, 0, 0, 0, -1, 0, -1, -1 } };
        if (h.all_lossless || h.allow_intrabc) { l.mode_ref_delta_enabled = l.mode_ref_delta_update = 1; l.mode_ref_deltas = def; }
        else {
            if (P("lf", 80)) { l.level_y[0] = rng.p(10) ? 0 : rng.n(64); l.level_y[1] = rng.p(10) ? 0 : rng.n(64); }
            if (!seq.monochrome && (l.level_y[0] || l.level_y[1])) { l.level_u = rng.p(15) ? 0 : rng.n(64); l.level_v = rng.p(15) ? 0 : rng.n(64); }
            l.sharpness = rng.p(60) ? 0 : rng.n(8);
            l.mode_ref_deltas = pri ? pri->loopfilter.mode_ref_deltas : def;
            l.mode_ref_delta_enabled = rng.p(60);
            if (l.mode_ref_delta_enabled) {
                l.mode_ref_delta_update = rng.p(50);
                if (l.mode_ref_delta_update) {
                    for (int i = 0; i < 8; i++) if (rng.p(30)) l.mode_ref_deltas.ref_delta[i] = edge(-63, 63);
                    for (int i = 0; i < 2; i++) if (rng.p(30)) l.mode_ref_deltas.mode_delta[i] = edge(-63, 63);
                }
            }
        }
        if (!h.all_lossless && seq.cdef && !h.allow_intrabc) {
            h.cdef.damping = 3 + rng.n(4); h.cdef.n_bits = rng.n(4);
            for (int i = 0; i < (1 << h.cdef.n_bits); i++) { h.cdef.y_strength[i] = rng.p(20) ? 0 : rng.n(64); if (!seq.monochrome) h.cdef.uv_strength[i] = rng.p(20) ? 0 : rng.n(64); }
            if (!P("cdef", 80)) { h.cdef.n_bits = 0; memset(h.cdef.y_strength, 0, 8); memset(h.cdef.uv_strength, 0, 8); }
        }
        if ((!h.all_lossless || h.width[0] != h.width[1]) && seq.restoration && !h.allow_intrabc) {
            auto &r = h.restoration;
            if (P("lr", 70)) for (int i = 0; i < (seq.monochrome ? 1 : 3); i++) r.type[i] = rng.p(20) ? DAV1D_RESTORATION_NONE : (Dav1dRestorationType)(1 + rng.n(3));
            if (r.type[0] || r.type[1] || r.type[2]) {
                r.unit_size[0] = 6 + seq.sb128; if (rng.p(40)) { r.unit_size[0]++; if (!seq.sb128) r.unit_size[0] += rng.n(2); }
                r.unit_size[1] = r.unit_size[0];
                if ((r.type[1] || r.type[2]) && seq.ss_hor && seq.ss_ver) r.unit_size[1] -= rng.n(2);
            } else r.unit_size[0] = 8;
        }
        h.txfm_mode = h.all_lossless ? DAV1D_TX_4X4_ONLY : rng.p(80) ? DAV1D_TX_SWITCHABLE : DAV1D_TX_LARGEST;
        h.switchable_comp_refs = !intra && P("compref", 75);
        skip_mode(h);
        h.skip_mode_enabled = h.skip_mode_allowed && rng.p(70);
        h.warp_motion = !h.error_resilient_mode && !intra && seq.warped_motion && rng.p(80);
        h.reduced_txtp_set = rng.p(20);
        for (auto &m : h.gmv) { m.type = DAV1D_WM_TYPE_IDENTITY; m.matrix[2] = m.matrix[5] = 1 << 16; }
        if (!intra)
            for (int i = 0; i < 7; i++) {
                auto &m = h.gmv[i];
                if (!P("gm", 35)) continue;
                m.type = (Dav1dWarpedMotionType)(1 + rng.n(3));
                auto clip = [&](int v, int n) { return std::max(-(1 << n), std::min(1 << n, v)); };
                const int amp = rng.p(15) ? 4096 : rng.p(50) ? 600 : 60;
                int shift = 13 + !h.hp, bits = 9 - !h.hp;
                if (m.type >= DAV1D_WM_TYPE_ROT_ZOOM) {
                    m.matrix[2] = (1 << 16) + 2 * clip(rng.r(-amp, amp), 12); m.matrix[3] = 2 * clip(rng.r(-amp, amp), 12);
                    if (m.type == DAV1D_WM_TYPE_AFFINE) { m.matrix[4] = 2 * clip(rng.r(-amp, amp), 12); m.matrix[5] = (1 << 16) + 2 * clip(rng.r(-amp, amp), 12); }
                    else { m.matrix[4] = -m.matrix[3]; m.matrix[5] = m.matrix[2]; }
                    shift = 10; bits = 12;
                }
                const int tamp = rng.p(10) ? 1 << bits : rng.p(50) ? std::min(1 << bits, 40) : std::min(1 << bits, 1000);
                m.matrix[0] = clip(rng.r(-tamp, tamp), bits) * (1 << shift); m.matrix[1] = clip(rng.r(-tamp, tamp), bits) * (1 << shift);
            }
        if (seq.film_grain_present && (h.show_frame || h.showable_frame)) {
            auto &f = h.film_grain; f.present = P("fg", 0);
            if (f.present) {
                const int seed = rng.n(65536);
                f.update = h.frame_type != DAV1D_FRAME_TYPE_INTER || rng.p(60);
                aux.fg_ref = h.refidx[rng.n(7)];
                if (!f.update && !ref[aux.fg_ref].h.film_grain.present) f.update = 1;
                if (f.update) fill_fg(f.data); else f.data = ref[aux.fg_ref].h.film_grain.data;
                f.data.seed = seed;
            }
        }
        return true;
    }

#ifdef STEERED
    std::vector<std::string> mism;
    void cmp_hdr(const Dav1dFrameHeader *p, const Dav1dFrameHeader &want) {
        Dav1dFrameHeader a = *p, b = want;
        for (auto *x : { &a, &b }) {
            for (auto &m : x->gmv) memset(&m.u, 0, sizeof m.u);
            x->tiling.n_bytes = 0; x->tiling.min_log2_rows = 0;
            if (!x->restoration.type[0] && !x->restoration.type[1] && !x->restoration.type[2]) x->restoration.unit_size[0] = x->restoration.unit_size[1] = 0;
            memset(&x->loopfilter.mode_ref_delta_update, 0, 1);
            if (!x->skip_mode_allowed) x->skip_mode_refs[0] = x->skip_mode_refs[1] = 0;
        }
        if (memcmp(&a, &b, sizeof a)) {
            for (size_t i = 0; i < sizeof a; i++) if (((uint8_t *)&a)[i] != ((uint8_t *)&b)[i]) { char t[128]; snprintf(t, sizeof t, "hdr mismatch at byte %zu (parsed %d, coded %d)", i, ((uint8_t *)&a)[i], ((uint8_t *)&b)[i]); mism.push_back(t); fprintf(stderr, "%s\n", t); if (mism.size() > 6) break; }
            exit(3);
        }
    }
    void feed(const Bytes &d, const Dav1dFrameHeader *want) {
        Dav1dData data; memset(&data, 0, sizeof data);
        uint8_t *p = dav1d_data_create(&data, d.size()); memcpy(p, d.data(), d.size());
        int res = dav1d_send_data(dec, &data);
        if (res < 0) { fprintf(stderr, "steered decoder rejected data: %d\n", res); exit(4); }
        int got = 0;
        for (;;) {
            Dav1dPicture pic; memset(&pic, 0, sizeof pic);
            res = dav1d_get_picture(dec, &pic);
            if (res == -EAGAIN) { if (data.sz) { dav1d_send_data(dec, &data); continue; } break; }
            if (res < 0) { fprintf(stderr, "steered decoder error: %d\n", res); exit(4); }
            got++;
            if (want && !want->show_existing_frame) cmp_hdr(pic.frame_hdr, *want);
            dav1d_picture_unref(&pic);
        }
        if (data.sz) { fprintf(stderr, "left over\n"); exit(4); }
        if (want && !got) { fprintf(stderr, "no picture for frame\n"); exit(4); }
    }
#endif
    int ext_of(int tid, int sid) { return n_sl * n_tl > 1 ? tid << 5 | sid << 3 : -1; }

    static Dav1dFrameHeader variant(const Dav1dFrameHeader &h, int mask) { // mask: filters kept (1 deblock, 2 cdef, 4 restoration)
        Dav1dFrameHeader v = h;
        if (!(mask & 1)) { v.loopfilter.level_y[0] = v.loopfilter.level_y[1] = v.loopfilter.level_u = v.loopfilter.level_v = 0; }
        if (!(mask & 2)) { memset(v.cdef.y_strength, 0, 8); memset(v.cdef.uv_strength, 0, 8); }
        if (!(mask & 4)) { v.restoration.type[0] = v.restoration.type[1] = v.restoration.type[2] = DAV1D_RESTORATION_NONE; v.restoration.unit_size[0] = 8; v.restoration.unit_size[1] = 0; }
        return v;
    }
    // Emits a coded frame. kind: 0 FRAME obu, 1 FRAME_HDR + tile groups
    void emit(const Dav1dFrameHeader &h, const HdrAux &aux) {
        const int nt = h.tiling.cols * h.tiling.rows;
        const int ext = ext_of(h.temporal_id, h.spatial_id);
        std::vector<std::vector<Bytes>> tiles(2, std::vector<Bytes>(nt));
#ifdef STEERED
        {
            GenPolicy &p = gen_policy; const int rich = cfg.i("rich", 40);
            p.uniform = rng.p(30) ? 0 : rng.n(60); p.skip = rng.p(20) ? -1 : rng.r(20, 80); p.txskip = rng.p(20) ? -1 : rng.r(30, 85);
            p.eob_cap = rng.p(10) ? 11 : rng.r(1, 6); p.tok_small = rng.r(40, 95); p.hi_cap = rng.p(15) ? 60 : rng.n(30);
            p.part_none = rng.p(30) ? 0 : rng.r(0, 100 - rich); p.part_split = rng.n(40); p.mv_class_cap = cfg.i("mvcap", rng.p(20) ? 7 : rng.r(0, 5));
            p.intrabc = rng.r(20, 70); p.palette = rng.p(40) ? -1 : rng.r(10, 60); p.inter = rng.p(30) ? -1 : rng.r(50, 95);
            p.comp = rng.p(30) ? -1 : rng.r(20, 80); p.newmv = rng.p(40) ? -1 : rng.r(10, 70); p.no_lr = 0;
            if (cfg.i("thin", 0)) { p.part_none = 80; p.skip = 70; p.txskip = 80; p.eob_cap = 3; }
            gen_begin_frame();
            Dav1dFrameHeader hh = h; if (nt > 1) hh.tiling.n_bytes = 4;
            BitWriter w; BitWriter::on = 1; write_frame_hdr(w, seq, hh, ref, aux); BitWriter::on = 0; w.align0();
            if (nt > 1) { w.bit(0); w.align0(); }
            Bytes pl = w.b;
            for (int i = 0; i < nt; i++) { if (i < nt - 1) { pl.insert(pl.end(), 4, 0); } pl.push_back(0x80); }
            feed(obu(DAV1D_OBU_FRAME, pl, ext), &h);
            if (gen_n_tiles != nt) { fprintf(stderr, "tile count %d != %d\n", gen_n_tiles, nt); exit(5); }
            for (int v = 0; v < 2; v++) for (int i = 0; i < nt; i++) { size_t sz; uint8_t *b = gen_encode_tile(&gen_tiles[i], v, &sz); tiles[v][i].assign(b, b + sz); free(b); }
        }
#else
        for (int i = 0; i < nt; i++) {
            const int tw = h.tiling.col_start_sb[i % h.tiling.cols + 1] - h.tiling.col_start_sb[i % h.tiling.cols], th = h.tiling.row_start_sb[i / h.tiling.cols + 1] - h.tiling.row_start_sb[i / h.tiling.cols];
            int area = tw * th * (seq.sb128 ? 4 : 1);
            int n = rng.p(85) ? area * cfg.i("bytes_per_sb", 900) + 40 : 1 + rng.n(area * 400 + 8);
            Bytes &b = tiles[0][i]; b.resize(n);
            const int kind = rng.n(8);
            for (auto &x : b) x = kind == 0 ? 0xff : kind == 1 ? 0 : rng.u();
            if (kind < 2) for (int k = 0; k < n / 20; k++) b[rng.n(n)] = rng.u();
            tiles[1][i] = b;
        }
#endif
        int kind = rng.p(65) ? 0 : 1;
        const int tgpct = cfg.i("tg", 30); const int extra_nb = rng.p(20) ? 1 : 0; const int redundant = rng.p(cfg.i("redundant", 15)) ? 1 : 0;
        const int lebpad = rng.p(10) ? rng.n(3) : 0;
        std::vector<int> cuts; for (int i = 1; i < nt; i++) if (rng.p(tgpct)) cuts.push_back(i);
        if (!cuts.empty()) kind = 1; // an OBU_FRAME holds all tiles and no start/end flag
        const int flag1 = kind && rng.n(2);
        for (int v = 0; v < n_var; v++) {
            const int mask = n_var == 1 ? 7 : v;
            Dav1dFrameHeader hh = n_var == 1 ? h : variant(h, mask);
            const auto &tl = tiles[!(mask & 4)];
            size_t mx = 0; for (auto &t : tl) mx = std::max(mx, t.size());
            if (nt > 1) { int nb = 1; while (nb < 4 && (mx - 1) >> (8 * nb)) nb++; hh.tiling.n_bytes = std::min(4, nb + extra_nb); }
            BitWriter w; BitWriter::on = 1; write_frame_hdr(w, seq, hh, ref, aux); BitWriter::on = 0;
            auto tg = [&](int a, int b, BitWriter &bw) { // tiles a..b
                const bool whole = a == 0 && b == nt - 1;
                if (nt > 1) { const int f = !whole || flag1; bw.bit(f); if (f) { const int n = h.tiling.log2_cols + h.tiling.log2_rows; BitWriter::on = 1; if (BitWriter::hostile(1)) { const int x = rng.n(nt), y = rng.n(nt); bw.bits(x, n); bw.bits(y, n); } else { bw.bits(a, n); bw.bits(b, n); } BitWriter::on = 0; } }
                bw.align0();
                for (int i = a; i <= b; i++) {
                    if (i < b) for (int k = 0; k < hh.tiling.n_bytes; k++) bw.bits(((tl[i].size() - 1) >> (8 * k)) & 255, 8);
                    bw.b.insert(bw.b.end(), tl[i].begin(), tl[i].end());
                }
            };
            std::vector<std::pair<int, int>> groups; int s = 0; for (int c : cuts) { groups.push_back({ s, c - 1 }); s = c; } groups.push_back({ s, nt - 1 });
            auto put = [&](const Bytes &o) { cur[v].insert(cur[v].end(), o.begin(), o.end()); };
            size_t g = 0;
            if (kind == 0) {
                w.align0(); tg(groups[0].first, groups[0].second, w); put(obu(DAV1D_OBU_FRAME, w.b, ext, true, lebpad)); g = 1;
            } else {
                w.trailing(); put(obu(DAV1D_OBU_FRAME_HDR, w.b, ext, true, lebpad));
            }
            for (; g < groups.size(); g++) {
                if (kind == 1 && redundant && g > 0) put(obu(DAV1D_OBU_REDUNDANT_FRAME_HDR, w.b, ext));
                BitWriter t; tg(groups[g].first, groups[g].second, t); put(obu(DAV1D_OBU_TILE_GRP, t.b, ext));
            }
        }
        n_frames_coded++;
    }
    void refresh(const Dav1dFrameHeader &h) {
        for (int i = 0; i < 8; i++) if (h.refresh_frame_flags >> i & 1) { ref[i].valid = true; ref[i].h = h; }
        cur_id = h.frame_id;
    }
    bool code_frame(int type, bool show, int tid, int sid) {
        Dav1dFrameHeader h; HdrAux aux;
        for (int k = 0; k < 20; k++) {
            if (fill_frame(h, aux, type, show, tid, sid)) { emit(h, aux); refresh(h); if (h.show_frame) disp++; return true; }
        }
        return false;
    }
    bool show_existing() {
        std::vector<int> ok;
        for (int i = 0; i < 8; i++) if (ref[i].valid && ref[i].h.showable_frame) ok.push_back(i);
        if (ok.empty()) return false;
        Dav1dFrameHeader h; memset(&h, 0, sizeof h); HdrAux aux;
        h.show_existing_frame = 1; h.existing_frame_idx = ok[rng.n(ok.size())];
        RefSlot &r = ref[h.existing_frame_idx];
        h.frame_id = r.h.frame_id;
        if (seq.decoder_model_info_present && !seq.equal_picture_interval) h.frame_presentation_delay = rng.u() & ((1ull << seq.frame_presentation_delay_length) - 1);
        BitWriter w; BitWriter::on = 1; write_frame_hdr(w, seq, h, ref, aux); BitWriter::on = 0; w.trailing();
        const Bytes o = obu(DAV1D_OBU_FRAME_HDR, w.b, ext_of(0, 0));
#ifdef STEERED
        feed(o, &h);
#endif
        for (auto &c : cur) c.insert(c.end(), o.begin(), o.end());
        if (r.h.frame_type == DAV1D_FRAME_TYPE_KEY) {
            r.h.showable_frame = 0;
            const RefSlot k = r; for (auto &x : ref) x = k;
            cur_id = k.h.frame_id;
        }
        disp++;
        return true;
    }
    void put_all(const Bytes &o) { for (auto &c : cur) c.insert(c.end(), o.begin(), o.end()); }
    void emit_seq() {
        BitWriter w; BitWriter::on = 1; write_seq(w, seq); BitWriter::on = 0; w.trailing();
        const Bytes o = obu(DAV1D_OBU_SEQ_HDR, w.b);
#ifdef STEERED
        feed(o, nullptr);
#endif
        put_all(o);
    }
    void emit_meta() {
        const int n = 1 + rng.n(3);
        for (int k = 0; k < n; k++) {
            BitWriter w; const int kind = rng.n(5);
            if (kind == 0) { w.leb(1); w.bits(rng.n(65536), 16); w.bits(rng.n(65536), 16); }
            else if (kind == 1) { w.leb(2); for (int i = 0; i < 8; i++) w.bits(rng.n(65536), 16); w.bits(rng.u(), 32); w.bits(rng.u(), 32); }
            else if (kind == 4) { const int mt = rng.p(30) ? 3 : 6 + rng.n(25); w.leb(mt); const int m = mt == 3 ? 0 : rng.n(30); if (mt == 3) w.bits(rng.n(14), 8); for (int i = 0; i < m; i++) w.bits(rng.n(256), 8); } // scalability / reserved
            else { w.leb(4); int cc = rng.p(25) ? 0xff : rng.n(255); w.bits(cc, 8); if (cc == 0xff) w.bits(rng.n(256), 8); const int m = 1 + rng.n(rng.p(10) ? 2000 : 60); for (int i = 0; i < m; i++) w.bits(rng.n(256), 8); }
            w.trailing();
            put_all(obu(DAV1D_OBU_METADATA, w.b, n_sl * n_tl > 1 && rng.p(0) ? 0 : -1));
        }
    }
    void emit_pad() {
        BitWriter w; const int n = rng.n(20); for (int i = 0; i < n; i++) w.bits(rng.n(256), 8);
        w.trailing();
        const int t = rng.n(3); put_all(obu(t == 0 ? DAV1D_OBU_PADDING : t == 1 ? 9 + rng.n(6) : DAV1D_OBU_PADDING, w.b));
    }
    void run() {
        const int n = cfg.i("frames", 6);
        make_seq();
        if (seq.reduced_still_picture_header) { }
        for (tu_no = 0; tu_no < n; tu_no++) {
            for (auto &c : cur) c.clear();
            put_all(obu(DAV1D_OBU_TD, {}));
            bool newseq = false;
            if (tu_no && P("newseq", 0)) {
                const int what = rng.n(3);
                if (what == 0 && seq.decoder_model_info_present) { for (int i = 0; i < seq.num_operating_points; i++) if (seq.operating_points[i].decoder_model_param_present) fill_opinfo(i); emit_seq(); }
                else { // new coded video sequence
                    if (cfg.i("newseq_fmt", 1)) { static const int f[] = { 400, 420, 422, 444 }, b[] = { 8, 10, 12 }; cfg.m["fmt"] = std::to_string(f[rng.n(4)]); cfg.m["bd"] = std::to_string(b[rng.n(3)]);
                        cfg.m["w"] = std::to_string(rng.r(16, 200)); cfg.m["h"] = std::to_string(rng.r(16, 160)); }
                    make_seq(); for (auto &r : ref) r = RefSlot(); newseq = true;
                }
            }
            const bool key = tu_no == 0 || newseq || P("key", 4);
            if (key || P("repseq", 5)) emit_seq();
            if (P("meta", 15)) emit_meta();
            if (P("pad", 10)) emit_pad();
            int tid = 0;
            if (n_tl == 2) tid = tu_no & 1; else if (n_tl == 3) { static const int t3[] = { 0, 2, 1, 2 }; tid = t3[tu_no & 3]; }
            if (key) tid = 0;
            const bool io = cfg.i("intra", 0);
            auto pick = [&] { return io ? (rng.p(50) ? DAV1D_FRAME_TYPE_KEY : DAV1D_FRAME_TYPE_INTRA) : P("intraonly", 8) ? DAV1D_FRAME_TYPE_INTRA : P("switch", 4) ? DAV1D_FRAME_TYPE_SWITCH : DAV1D_FRAME_TYPE_INTER; };
            if (n_sl * n_tl > 1) {
                for (int s = 0; s < n_sl; s++) {
                    if (n_sl > 1 && s == n_sl - 1 && n_sl > 1 && !key && rng.p(cfg.i("droptop", 15))) continue; // TU without the top layer
                    int d0 = disp;
                    if (key && s == 0) code_frame(DAV1D_FRAME_TYPE_KEY, true, 0, 0);
                    else if (!code_frame(DAV1D_FRAME_TYPE_INTER, true, tid, s)) { fprintf(stderr, "layer frame failed\n"); exit(6); }
                    disp = d0;
                }
                disp++;
            } else {
                if (!key && !seq.reduced_still_picture_header && !seq.still_picture)
                    while (P("hidden", 20)) code_frame(P("hiddenkey", 6) ? DAV1D_FRAME_TYPE_KEY : pick(), false, 0, 0);
                if (key) code_frame(DAV1D_FRAME_TYPE_KEY, true, 0, 0);
                else if (P("showex", 15) && show_existing()) {}
                else if (!code_frame(pick(), true, 0, 0)) code_frame(DAV1D_FRAME_TYPE_KEY, true, 0, 0);
            }
            for (int v = 0; v < n_var; v++) tus[v].push_back(cur[v]);
        }
    }
};

int main(int argc, char **argv) {
    Cfg c; std::string out;
    for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto e = a.find('='); if (e == std::string::npos) out = a; else c.m[a.substr(0, e)] = a.substr(e + 1); }
    BitWriter::bad = c.i("bad", 0); BitWriter::brng = Rng(c.i("seed", 1) * 31 + 5);
    Gen g(c); g.run();
    for (int v = 0; v < g.n_var; v++) {
        std::string name = out; if (g.n_var > 1) name += "." + std::to_string(v);
        FILE *f = fopen(name.c_str(), "wb"); if (!f) { perror(name.c_str()); return 2; }
        for (auto &t : g.tus[v]) fwrite(t.data(), 1, t.size(), f);
        fclose(f);
    }
    return 0;
}
