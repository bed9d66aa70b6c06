#!/bin/bash
# Offline authoring tool: builds the steered library from a private copy of /repo's sources.
set -e
D=${1:-/tmp/genlib}
H=$(cd "$(dirname "$0")" && pwd)
rm -rf "$D"; mkdir -p "$D"
cp -a /repo/{src,include,meson.build,meson_options.txt,tools,tests,examples,doc} "$D"/
cp "$H/genmsac.c" "$D/src/msac.c"; cp "$H/genmsac.h" "$D/src/"
python3 - "$D/src/decode.c" <<'PY'
import sys
p=sys.argv[1]; s=open(p).read()
def rep(a,b,n=1):
    global s
    assert s.count(a)==n,(a,s.count(a)); s=s.replace(a,b)
rep('''        b->intra = !dav1d_msac_decode_bool_adapt(&ts->msac, ts->cdf.m.intrabc);
''','''        const int gen_ibc = gen_find_dv(t, bw4, bh4, has_chroma, &gen_dv_y, &gen_dv_x);
        gen_force(gen_ibc);
        b->intra = !dav1d_msac_decode_bool_adapt(&ts->msac, ts->cdf.m.intrabc);
''')
rep('''        const union mv ref = b->mv[0];
        read_mv_residual(ts, &b->mv[0], -1);
''','''        const union mv ref = b->mv[0];
        gen_force_dv(ref.y, ref.x, gen_dv_y, gen_dv_x);
        read_mv_residual(ts, &b->mv[0], -1);
        if (b->mv[0].y != gen_dv_y || b->mv[0].x != gen_dv_x) abort();
''')
rep('''        b->mv[0].x = (src_left - t->bx * 4) * 8;
        b->mv[0].y = (src_top  - t->by * 4) * 8;
''','''        b->mv[0].x = (src_left - t->bx * 4) * 8;
        b->mv[0].y = (src_top  - t->by * 4) * 8;
        if (b->mv[0].y != gen_dv_y || b->mv[0].x != gen_dv_x) { fprintf(stderr, "dv clipped\\n"); gen_dv_clipped++; }
''')
rep('''                    read_restoration_info(t, lr, p, frame_type);
''','''                    gen_lr_depth++; read_restoration_info(t, lr, p, frame_type); gen_lr_depth--;
''')
rep('''                read_restoration_info(t, lr, p, frame_type);
            }
        }
''','''                gen_lr_depth++; read_restoration_info(t, lr, p, frame_type); gen_lr_depth--;
            }
        }
''')
rep('''                const unsigned diff = dav1d_msac_decode_symbol_adapt8(&ts->msac,
                                          ts->cdf.m.seg_id[seg_ctx],
''','''                gen_force(gen_seg_diff(pred_seg_id, f->frame_hdr->segmentation.seg_data.last_active_segid));
                const unsigned diff = dav1d_msac_decode_symbol_adapt8(&ts->msac,
                                          ts->cdf.m.seg_id[seg_ctx],
''',2)
i=s.index('static int read_mv_residual') if 'static int read_mv_residual' in s else s.index('static void read_tx_tree')
i=s.index('static int neg_deinterleave'); i=s.index('\n}\n',i)+3
s=s[:i]+'''
int gen_rand(int n);
static int gen_seg_diff(int pred, int last) {
    if (last < 0) last = 0;
    const int want = gen_rand(last + 1);
    for (int d = 0; d < 8; d++) if (neg_deinterleave(d, pred, last + 1) == want) return d;
    return 0;
}
'''+s[i:]
rep('''            bp = dav1d_msac_decode_symbol_adapt16(&ts->msac, pc,
''','''            gen_422 = f->cur.p.layout == DAV1D_PIXEL_LAYOUT_I422;
            bp = dav1d_msac_decode_symbol_adapt16(&ts->msac, pc,
''')
rep('''            is_split = dav1d_msac_decode_bool(&ts->msac,
                           gather_left_partition_prob(pc, bl));
''','''            if (f->cur.p.layout == DAV1D_PIXEL_LAYOUT_I422) gen_force(1);
            is_split = dav1d_msac_decode_bool(&ts->msac,
                           gather_left_partition_prob(pc, bl));
''')
i=s.index('static void init_quant_tables')
s=s[:i]+'''extern int gen_lr_depth, gen_422; int gen_dv_clipped; static int gen_dv_y, gen_dv_x;
int gen_find_dv(const Dav1dTaskContext *t, int bw4, int bh4, int has_chroma, int *y, int *x);
void gen_force(int v); void gen_force_dv(int ry, int rx, int y, int x);
'''+s[i:]
open(p,'w').write(s)
PY
cd "$D"
CC=gcc meson setup b -Denable_asm=false -Ddefault_library=static -Denable_tests=false -Denable_tools=false -Dbuildtype=release -Dc_args=-g >/dev/null
ninja -C b 2>&1 | tail -3
