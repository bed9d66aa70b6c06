From db140b7bff969ad5c653ac94e9c395a0c267e716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:53 +0000
Subject: [PATCH 01/30] fix: obu: Report the level of reduced still picture
 headers like all others

major_level is 2 + the upper bits of seq_level_idx, but the offset was
missing when the level came from a reduced_still_picture_header.
---
 src/obu.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/obu.c b/src/obu.c
index 78d652b..dea3728 100644
--- a/src/obu.c
+++ b/src/obu.c
@@ -97,7 +97,7 @@ static NOINLINE int parse_seq_hdr(Dav1dSequenceHeader *const hdr,
 
     if (hdr->reduced_still_picture_header) {
         hdr->num_operating_points = 1;
-        hdr->operating_points[0].major_level = dav1d_get_bits(gb, 3);
+        hdr->operating_points[0].major_level = 2 + dav1d_get_bits(gb, 3);
         hdr->operating_points[0].minor_level = dav1d_get_bits(gb, 2);
         hdr->operating_points[0].initial_display_delay = 10;
     } else {
-- 
2.43.0


From 84d96f14f525dd5603db7cc6302f05a01712e6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:14 +0000
Subject: [PATCH 02/30] fix: Keep the frame task scan in step with the frame
 queue when draining

drain_picture() advances frame_thread.next past empty slots, and
dav1d_submit_frame() and the show-existing-frame path advance it past slots
that never held a picture, but task_thread.first only followed when the slot
was occupied or had failed; the error flag of a slot that had been drained was
also never cleared and was accounted for again. Once the two are out of step,
tasks of queued frames can be left out of the scan for runnable tasks, and the
decoder waits for them forever (e.g. when dav1d_get_picture() is called twice
in a row in the middle of a stream and decoding then goes on).
---
 src/decode.c | 2 +-
 src/lib.c    | 8 +++++---
 src/obu.c    | 2 +-
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/decode.c b/src/decode.c
index a3b1b9c..d14efab 100644
--- a/src/decode.c
+++ b/src/decode.c
@@ -3343,7 +3343,7 @@ int dav1d_submit_frame(Dav1dContext *const c) {
             pthread_cond_wait(&f->task_thread.cond,
                               &c->task_thread.lock);
         out_delayed = &c->frame_thread.out_delayed[next];
-        if (out_delayed->p.data[0] || atomic_load(&f->task_thread.error)) {
+        {
             unsigned first = atomic_load(&c->task_thread.first);
             if (first + 1U < c->n_fc)
                 atomic_fetch_add(&c->task_thread.first, 1U);
diff --git a/src/lib.c b/src/lib.c
index 8ced796..c49cc17 100644
--- a/src/lib.c
+++ b/src/lib.c
@@ -360,7 +360,8 @@ static int drain_picture(Dav1dContext *const c, Dav1dPicture *const out) {
                               &f->task_thread.ttd->lock);
         Dav1dThreadPicture *const out_delayed =
             &c->frame_thread.out_delayed[next];
-        if (out_delayed->p.data[0] || atomic_load(&f->task_thread.error)) {
+        const int occupied = out_delayed->p.data[0] || atomic_load(&f->task_thread.error);
+        if (occupied || !drained) {
             unsigned first = atomic_load(&c->task_thread.first);
             if (first + 1U < c->n_fc)
                 atomic_fetch_add(&c->task_thread.first, 1U);
@@ -370,8 +371,9 @@ static int drain_picture(Dav1dContext *const c, Dav1dPicture *const out) {
                                            &first, UINT_MAX);
             if (c->task_thread.cur && c->task_thread.cur < c->n_fc)
                 c->task_thread.cur--;
-            drained = 1;
-        } else if (drained) {
+            atomic_store(&f->task_thread.error, 0);
+            drained |= occupied;
+        } else {
             pthread_mutex_unlock(&c->task_thread.lock);
             break;
         }
diff --git a/src/obu.c b/src/obu.c
index dea3728..efe9b29 100644
--- a/src/obu.c
+++ b/src/obu.c
@@ -1616,7 +1616,7 @@ ptrdiff_t dav1d_parse_obus(Dav1dContext *const c, Dav1dData *const in) {
                                       &f->task_thread.ttd->lock);
                 Dav1dThreadPicture *const out_delayed =
                     &c->frame_thread.out_delayed[next];
-                if (out_delayed->p.data[0] || atomic_load(&f->task_thread.error)) {
+                {
                     unsigned first = atomic_load(&c->task_thread.first);
                     if (first + 1U < c->n_fc)
                         atomic_fetch_add(&c->task_thread.first, 1U);
-- 
2.43.0


From 8ae117c89a51d50e726ca61d0c2bb052bc38e483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:00 +0000
Subject: [PATCH 03/30] fix: Don't left shift negative picture strides

Allocators may return negative strides, for which the left shifts are
undefined behaviour.
---
 src/fg_apply_tmpl.c | 2 +-
 src/ipred_tmpl.c    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fg_apply_tmpl.c b/src/fg_apply_tmpl.c
index 044e257..1394a8d 100644
--- a/src/fg_apply_tmpl.c
+++ b/src/fg_apply_tmpl.c
@@ -197,7 +197,7 @@ void bitfn(dav1d_apply_grain_row)(const Dav1dFilmGrainDSPContext *const dsp,
         pixel *ptr = luma_src;
         for (int y = 0; y < bh; y++) {
             ptr[out->p.w] = ptr[out->p.w - 1];
-            ptr += PXSTRIDE(in->stride[0]) << ss_y;
+            ptr += PXSTRIDE(in->stride[0]) * (1 << ss_y);
         }
     }
 
diff --git a/src/ipred_tmpl.c b/src/ipred_tmpl.c
index 9cad40e..902f445 100644
--- a/src/ipred_tmpl.c
+++ b/src/ipred_tmpl.c
@@ -678,7 +678,7 @@ cfl_ac_c(int16_t *ac, const pixel *ypx, const ptrdiff_t stride,
         for (; x < width; x++)
             ac[x] = ac[x - 1];
         ac += width;
-        ypx += PXSTRIDE(stride) << ss_ver;
+        ypx += PXSTRIDE(stride) * (1 << ss_ver);
     }
     for (; y < height; y++) {
         memcpy(ac, &ac[-width], width * sizeof(*ac));
-- 
2.43.0


From 16090824d5109157cd7c701da9d325f918320ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:48 +0000
Subject: [PATCH 04/30] fix: obu: Don't leak or reuse stale T.35 metadata state
 after a failed allocation

---
 src/obu.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/obu.c b/src/obu.c
index efe9b29..5093dc0 100644
--- a/src/obu.c
+++ b/src/obu.c
@@ -1507,9 +1507,14 @@ ptrdiff_t dav1d_parse_obus(Dav1dContext *const c, Dav1dData *const in) {
             }
 
             if ((c->n_itut_t35 + 1) > INT_MAX / (int)sizeof(*c->itut_t35)) goto error;
+            uint8_t *const payload = dav1d_malloc(ALLOC_OBU_META, payload_size);
+            if (!payload) goto error;
             struct Dav1dITUTT35 *itut_t35 = dav1d_realloc(ALLOC_OBU_META, c->itut_t35,
                                                           (c->n_itut_t35 + 1) * sizeof(*c->itut_t35));
-            if (!itut_t35) goto error;
+            if (!itut_t35) {
+                dav1d_free(payload);
+                goto error;
+            }
             c->itut_t35 = itut_t35;
             memset(c->itut_t35 + c->n_itut_t35, 0, sizeof(*c->itut_t35));
 
@@ -1517,7 +1522,12 @@ ptrdiff_t dav1d_parse_obus(Dav1dContext *const c, Dav1dData *const in) {
             if (!c->n_itut_t35) {
                 assert(!c->itut_t35_ref);
                 itut_t35_ctx = dav1d_malloc(ALLOC_OBU_META, sizeof(struct itut_t35_ctx_context));
-                if (!itut_t35_ctx) goto error;
+                if (!itut_t35_ctx) {
+                    dav1d_free(payload);
+                    dav1d_free(c->itut_t35);
+                    c->itut_t35 = NULL;
+                    goto error;
+                }
                 c->itut_t35_ref = dav1d_ref_init(&itut_t35_ctx->ref, c->itut_t35,
                                                  dav1d_picture_free_itut_t35, itut_t35_ctx, 0);
             } else {
@@ -1529,9 +1539,7 @@ ptrdiff_t dav1d_parse_obus(Dav1dContext *const c, Dav1dData *const in) {
             itut_t35_ctx->n_itut_t35 = c->n_itut_t35 + 1;
 
             Dav1dITUTT35 *const itut_t35_metadata = &c->itut_t35[c->n_itut_t35];
-            itut_t35_metadata->payload = dav1d_malloc(ALLOC_OBU_META, payload_size);
-            if (!itut_t35_metadata->payload) goto error;
-
+            itut_t35_metadata->payload = payload;
             itut_t35_metadata->country_code = country_code;
             itut_t35_metadata->country_code_extension_byte = country_code_extension_byte;
             itut_t35_metadata->payload_size = payload_size;
-- 
2.43.0


From b7b00d5428833a830952ee28c078bf943fa9405c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:48 +0000
Subject: [PATCH 05/30] fix: decode: Reset n_ts when allocating the tile states
 fails

---
 src/decode.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/decode.c b/src/decode.c
index d14efab..39119c6 100644
--- a/src/decode.c
+++ b/src/decode.c
@@ -2782,7 +2782,10 @@ int dav1d_decode_frame_init(Dav1dFrameContext *const f) {
         }
         dav1d_free_aligned(f->ts);
         f->ts = dav1d_alloc_aligned(ALLOC_TILE, sizeof(*f->ts) * n_ts, 32);
-        if (!f->ts) goto error;
+        if (!f->ts) {
+            f->n_ts = 0;
+            goto error;
+        }
         f->n_ts = n_ts;
     }
 
-- 
2.43.0


From 88fba8545896ffc147964b20444b2e0fcf7d769d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:48 +0000
Subject: [PATCH 06/30] fix: thread_task: Abort the frame when its tile tasks
 can't be allocated

Passing on to the second pass after a failure in the first used task and
tile state that was never set up, and a failure in the second pass left
without releasing the lock.
---
 src/thread_task.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/thread_task.c b/src/thread_task.c
index 1ededde..4332968 100644
--- a/src/thread_task.c
+++ b/src/thread_task.c
@@ -722,20 +722,27 @@ void *dav1d_worker_task(void *data) {
                     if (res) {
                         pthread_mutex_lock(&ttd->lock);
                         // memory allocation failed
+                        if (p == 1) { // nothing has been scheduled yet
+                            abort_frame(f, DAV1D_ERR(ENOMEM));
+                            reset_task_cur(c, ttd, t->frame_idx);
+                            atomic_store(&f->task_thread.init_done, 1);
+                            pthread_mutex_unlock(&ttd->lock);
+                            break;
+                        }
                         atomic_store(&f->task_thread.done[2 - p], 1);
                         atomic_store(&f->task_thread.error, -1);
                         atomic_fetch_sub(&f->task_thread.task_counter,
                                          f->frame_hdr->tiling.cols *
                                          f->frame_hdr->tiling.rows + f->sbh);
                         atomic_store(&f->sr_cur.progress[p - 1], FRAME_ERROR);
-                        if (p == 2 && atomic_load(&f->task_thread.done[1])) {
-                            assert(!atomic_load(&f->task_thread.task_counter));
+                        if (atomic_load(&f->task_thread.done[1]) &&
+                            !atomic_load(&f->task_thread.task_counter))
+                        {
                             dav1d_decode_frame_exit(f, DAV1D_ERR(ENOMEM));
                             f->n_tile_data = 0;
                             pthread_cond_signal(&f->task_thread.cond);
-                        } else {
-                            pthread_mutex_unlock(&ttd->lock);
                         }
+                        pthread_mutex_unlock(&ttd->lock);
                     }
                 }
                 pthread_mutex_lock(&ttd->lock);
-- 
2.43.0


From 629736144971fa4889324a1ddeb4c82770aeadd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:48 +0000
Subject: [PATCH 07/30] fix: lib: Don't lose a decoding error when a picture is
 output by the same call

---
 src/lib.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib.c b/src/lib.c
index c49cc17..fa40901 100644
--- a/src/lib.c
+++ b/src/lib.c
@@ -426,8 +426,11 @@ static int gen_picture(Dav1dContext *const c)
             in->data += res;
             if (!in->sz) dav1d_data_unref_internal(in);
         }
-        if (output_picture_ready(c, 0))
+        if (output_picture_ready(c, 0)) {
+            // output the picture that is ready, but don't lose the error
+            if (res < 0) c->cached_error = (int)res;
             break;
+        }
         if (res < 0)
             return (int)res;
     }
-- 
2.43.0


From 00cd4deab22e88945dc1b001fcdf7f15821488da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:58 +0000
Subject: [PATCH 08/30] fix: decode: Don't ignore a failure to create the tile
 tasks

---
 src/decode.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/decode.c b/src/decode.c
index 39119c6..f34f9f5 100644
--- a/src/decode.c
+++ b/src/decode.c
@@ -3306,9 +3306,11 @@ int dav1d_decode_frame(Dav1dFrameContext *const f) {
                     pthread_cond_wait(&f->task_thread.cond,
                                       &f->task_thread.ttd->lock);
                 }
+                res = f->task_thread.retval;
+            } else {
+                res = DAV1D_ERR(ENOMEM);
             }
             pthread_mutex_unlock(&f->task_thread.ttd->lock);
-            res = f->task_thread.retval;
         } else {
             res = dav1d_decode_frame_main(f);
             if (!res && f->frame_hdr->refresh_context && f->task_thread.update_set) {
-- 
2.43.0


From 340c9aca3b896af20683287ac76dd09f4d25e493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:51 +0000
Subject: [PATCH 09/30] fix: Don't lose event flags when a frame fails to
 decode with frame threading

Without frame threading the flags are collected when the frame is
submitted, so they are reported also if the frame then fails to decode.
---
 src/decode.c | 3 +++
 src/lib.c    | 3 +++
 src/obu.c    | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/src/decode.c b/src/decode.c
index f34f9f5..9aa2022 100644
--- a/src/decode.c
+++ b/src/decode.c
@@ -3364,6 +3364,9 @@ int dav1d_submit_frame(Dav1dContext *const c) {
             f->task_thread.retval = 0;
             c->cached_error = error;
             dav1d_data_props_copy(&c->cached_error_props, &out_delayed->p.m);
+            if (out_delayed->p.data[0] &&
+                (out_delayed->visible || c->output_invisible_frames))
+                c->event_flags |= dav1d_picture_get_event_flags(out_delayed);
             dav1d_thread_picture_unref(out_delayed);
         } else if (out_delayed->p.data[0]) {
             const unsigned progress = atomic_load_explicit(&out_delayed->progress[1],
diff --git a/src/lib.c b/src/lib.c
index fa40901..400f1f7 100644
--- a/src/lib.c
+++ b/src/lib.c
@@ -384,6 +384,9 @@ static int drain_picture(Dav1dContext *const c, Dav1dPicture *const out) {
         if (error) {
             f->task_thread.retval = 0;
             dav1d_data_props_copy(&c->cached_error_props, &out_delayed->p.m);
+            if (out_delayed->p.data[0] &&
+                (out_delayed->visible || c->output_invisible_frames))
+                c->event_flags |= dav1d_picture_get_event_flags(out_delayed);
             dav1d_thread_picture_unref(out_delayed);
             return error;
         }
diff --git a/src/obu.c b/src/obu.c
index 5093dc0..f8bc722 100644
--- a/src/obu.c
+++ b/src/obu.c
@@ -1640,6 +1640,9 @@ ptrdiff_t dav1d_parse_obus(Dav1dContext *const c, Dav1dData *const in) {
                     c->cached_error = error;
                     f->task_thread.retval = 0;
                     dav1d_data_props_copy(&c->cached_error_props, &out_delayed->p.m);
+                    if (out_delayed->p.data[0] &&
+                        (out_delayed->visible || c->output_invisible_frames))
+                        c->event_flags |= dav1d_picture_get_event_flags(out_delayed);
                     dav1d_thread_picture_unref(out_delayed);
                 } else if (out_delayed->p.data[0]) {
                     const unsigned progress = atomic_load_explicit(&out_delayed->progress[1],
-- 
2.43.0


From d05f5fde621cdc634b42a9cdd33884c6ee483652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:41 +0000
Subject: [PATCH 10/30] fix: lib: Reset the pending event flags when flushing

---
 src/lib.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib.c b/src/lib.c
index 400f1f7..9ab9cb7 100644
--- a/src/lib.c
+++ b/src/lib.c
@@ -538,6 +538,8 @@ void dav1d_flush(Dav1dContext *const c) {
 
     c->drain = 0;
     c->cached_error = 0;
+    c->frame_flags = 0;
+    c->event_flags = 0;
 
     for (int i = 0; i < 8; i++) {
         if (c->refs[i].p.p.frame_hdr)
-- 
2.43.0


From 8971bcb9ac41405945b60233e2efd2e7050af042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:20 +0000
Subject: [PATCH 11/30] fix: obu: Derive allow_intrabc and restoration presence
 from the frame widths

The presence of allow_intrabc and of the loop restoration parameters depends
on whether the frame width differs from the upscaled width, not on the
use_superres flag. Both can be equal with use_superres set if the frame is at
most 16 pixels wide.
---
 src/obu.c        | 4 ++--
 src/recon_tmpl.c | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/obu.c b/src/obu.c
index f8bc722..ff99570 100644
--- a/src/obu.c
+++ b/src/obu.c
@@ -504,7 +504,7 @@ static int parse_frame_hdr(Dav1dContext *const c, GetBits *const gb) {
         }
         if (read_frame_size(c, gb, 0) < 0) goto error;
         hdr->allow_intrabc = hdr->allow_screen_content_tools &&
-                             !hdr->super_res.enabled && dav1d_get_bit(gb);
+                             hdr->width[0] == hdr->width[1] && dav1d_get_bit(gb);
         hdr->use_ref_frame_mvs = 0;
     } else {
         hdr->allow_intrabc = 0;
@@ -925,7 +925,7 @@ static int parse_frame_hdr(Dav1dContext *const c, GetBits *const gb) {
 #endif
 
     // restoration
-    if ((!hdr->all_lossless || hdr->super_res.enabled) &&
+    if ((!hdr->all_lossless || hdr->width[0] != hdr->width[1]) &&
         seqhdr->restoration && !hdr->allow_intrabc)
     {
         hdr->restoration.type[0] = dav1d_get_bits(gb, 2);
diff --git a/src/recon_tmpl.c b/src/recon_tmpl.c
index 426fa40..a16fa0d 100644
--- a/src/recon_tmpl.c
+++ b/src/recon_tmpl.c
@@ -1585,7 +1585,7 @@ int bytefn(dav1d_recon_b_inter)(Dav1dTaskContext *const t, const enum BlockSize
         4 * ((t->bx >> ss_hor) + (t->by >> ss_ver) * PXSTRIDE(f->cur.stride[1]));
     if (IS_KEY_OR_INTRA(f->frame_hdr)) {
         // intrabc
-        assert(!f->frame_hdr->super_res.enabled);
+        assert(f->frame_hdr->width[0] == f->frame_hdr->width[1]);
         res = mc(t, dst, NULL, f->cur.stride[0], bw4, bh4, t->bx, t->by, 0,
                  b->mv[0], &f->sr_cur, 0 /* unused */, FILTER_2D_BILINEAR);
         if (res) return res;
-- 
2.43.0


From 8035e7ec4079722fd5f0aee86bd73faaf93885fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:24 +0000
Subject: [PATCH 12/30] fix: lib: Raise the event flags of a picture when it is
 returned

With all_layers=0, the picture returned last is not the one placed in
c->out last, so that the event flags were raised one picture early,
or for a layer that is never returned.
---
 src/decode.c | 8 ++++----
 src/lib.c    | 5 ++++-
 src/obu.c    | 2 --
 3 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/decode.c b/src/decode.c
index 9aa2022..b0dcd01 100644
--- a/src/decode.c
+++ b/src/decode.c
@@ -3375,7 +3375,6 @@ int dav1d_submit_frame(Dav1dContext *const c) {
                 progress != FRAME_ERROR)
             {
                 dav1d_thread_picture_ref(&c->out, out_delayed);
-                c->event_flags |= dav1d_picture_get_event_flags(out_delayed);
             }
             dav1d_thread_picture_unref(out_delayed);
         }
@@ -3553,7 +3552,6 @@ int dav1d_submit_frame(Dav1dContext *const c) {
     if (c->n_fc == 1) {
         if (f->frame_hdr->show_frame || c->output_invisible_frames) {
             dav1d_thread_picture_ref(&c->out, &f->sr_cur);
-            c->event_flags |= dav1d_picture_get_event_flags(&f->sr_cur);
         }
     } else {
         dav1d_thread_picture_ref(out_delayed, &f->sr_cur);
@@ -3706,6 +3704,7 @@ int dav1d_submit_frame(Dav1dContext *const c) {
 
     if (c->n_fc == 1) {
         if ((res = dav1d_decode_frame(f)) < 0) {
+            c->event_flags |= dav1d_picture_get_event_flags(&c->out);
             dav1d_thread_picture_unref(&c->out);
             for (int i = 0; i < 8; i++) {
                 if (refresh_frame_flags & (1 << i)) {
@@ -3734,9 +3733,10 @@ error:
             dav1d_thread_picture_unref(&f->refp[i]);
         dav1d_ref_dec(&f->ref_mvs_ref[i]);
     }
-    if (c->n_fc == 1)
+    if (c->n_fc == 1) {
+        c->event_flags |= dav1d_picture_get_event_flags(&c->out);
         dav1d_thread_picture_unref(&c->out);
-    else
+    } else
         dav1d_thread_picture_unref(out_delayed);
     dav1d_picture_unref_internal(&f->cur);
     dav1d_thread_picture_unref(&f->sr_cur);
diff --git a/src/lib.c b/src/lib.c
index 9ab9cb7..90a4494 100644
--- a/src/lib.c
+++ b/src/lib.c
@@ -312,6 +312,7 @@ static int output_image(Dav1dContext *const c, Dav1dPicture *const out)
 
     Dav1dThreadPicture *const in = (c->all_layers || !c->max_spatial_id)
                                    ? &c->out : &c->cache;
+    c->event_flags |= dav1d_picture_get_event_flags(in);
     if (!c->apply_grain || !has_grain(&in->p)) {
         dav1d_picture_move_ref(out, &in->p);
         dav1d_thread_picture_unref(in);
@@ -334,6 +335,9 @@ static int output_picture_ready(Dav1dContext *const c, const int drain) {
             if (c->max_spatial_id == c->cache.p.frame_hdr->spatial_id ||
                 c->out.flags & PICTURE_FLAG_NEW_TEMPORAL_UNIT)
                 return 1;
+            // a lower spatial layer that isn't output hands on its events
+            c->out.flags |= c->cache.flags & (PICTURE_FLAG_NEW_SEQUENCE |
+                                              PICTURE_FLAG_NEW_OP_PARAMS_INFO);
             dav1d_thread_picture_unref(&c->cache);
             dav1d_thread_picture_move_ref(&c->cache, &c->out);
             return 0;
@@ -398,7 +402,6 @@ static int drain_picture(Dav1dContext *const c, Dav1dPicture *const out) {
                 progress != FRAME_ERROR)
             {
                 dav1d_thread_picture_ref(&c->out, out_delayed);
-                c->event_flags |= dav1d_picture_get_event_flags(out_delayed);
             }
             dav1d_thread_picture_unref(out_delayed);
             if (output_picture_ready(c, 0))
diff --git a/src/obu.c b/src/obu.c
index ff99570..c5eb434 100644
--- a/src/obu.c
+++ b/src/obu.c
@@ -1610,7 +1610,6 @@ ptrdiff_t dav1d_parse_obus(Dav1dContext *const c, Dav1dData *const in) {
                 dav1d_ref_dec(&c->itut_t35_ref);
                 c->itut_t35 = NULL;
                 c->n_itut_t35 = 0;
-                c->event_flags |= dav1d_picture_get_event_flags(&c->refs[c->frame_hdr->existing_frame_idx].p);
             } else {
                 pthread_mutex_lock(&c->task_thread.lock);
                 // need to append this to the frame output queue
@@ -1651,7 +1650,6 @@ ptrdiff_t dav1d_parse_obus(Dav1dContext *const c, Dav1dData *const in) {
                         progress != FRAME_ERROR)
                     {
                         dav1d_thread_picture_ref(&c->out, out_delayed);
-                        c->event_flags |= dav1d_picture_get_event_flags(out_delayed);
                     }
                     dav1d_thread_picture_unref(out_delayed);
                 }
-- 
2.43.0


From 7009a9ec5e2d3dd6bfe7b5bd1fc009748d5b33c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:23 +0000
Subject: [PATCH 13/30] fix: picture: Use up the event flags with the first
 picture that is output

They were repeated with every picture below the highest spatial layer
of the operating point, whether that one is present or not.
---
 src/picture.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/picture.c b/src/picture.c
index 290bd09..52f8b1f 100644
--- a/src/picture.c
+++ b/src/picture.c
@@ -203,8 +203,7 @@ int dav1d_thread_picture_alloc(Dav1dContext *const c, Dav1dFrameContext *const f
 
     // Don't clear these flags from c->frame_flags if the frame is not going to be output.
     // This way they will be added to the next visible frame too.
-    const int flags_mask = ((f->frame_hdr->show_frame || c->output_invisible_frames) &&
-                            c->max_spatial_id == f->frame_hdr->spatial_id)
+    const int flags_mask = (f->frame_hdr->show_frame || c->output_invisible_frames)
                            ? 0 : (PICTURE_FLAG_NEW_SEQUENCE | PICTURE_FLAG_NEW_OP_PARAMS_INFO);
     p->flags = c->frame_flags;
     c->frame_flags &= flags_mask;
-- 
2.43.0


From 3f71c47afda1fdbe57f78f81c98b796e22a979cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:25 +0000
Subject: [PATCH 14/30] fix: lib: Select the spatial layers to output by the
 sequence of each picture

With frame threading, pictures of the previous sequence are still to be
output when a new sequence header arrives. The highest spatial layer of
the new sequence was applied to them, so that lower layers were
returned with all_layers=0, or a picture of a sequence without layers
was held back.
---
 src/internal.h |  1 -
 src/lib.c      | 23 ++++++++++++++++-------
 src/obu.c      |  2 --
 3 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/internal.h b/src/internal.h
index 96bf409..91c8c61 100644
--- a/src/internal.h
+++ b/src/internal.h
@@ -183,7 +183,6 @@ struct Dav1dContext {
     int operating_point;
     unsigned operating_point_idc;
     int all_layers;
-    int max_spatial_id;
     unsigned frame_size_limit;
     int strict_std_compliance;
     int output_invisible_frames;
diff --git a/src/lib.c b/src/lib.c
index 90a4494..db4387a 100644
--- a/src/lib.c
+++ b/src/lib.c
@@ -306,12 +306,22 @@ static int has_grain(const Dav1dPicture *const pic)
                                         fgdata->chroma_scaling_from_luma);
 }
 
+// Highest spatial layer of the operating point in the sequence of a picture,
+// which is not the current sequence if the picture was delayed
+static int max_spatial_id(const Dav1dContext *const c, const Dav1dPicture *const pic)
+{
+    const Dav1dSequenceHeader *const seq_hdr = pic->seq_hdr;
+    const int op_idx =
+        c->operating_point < seq_hdr->num_operating_points ? c->operating_point : 0;
+    const unsigned spatial_mask = seq_hdr->operating_points[op_idx].idc >> 8;
+    return spatial_mask ? ulog2(spatial_mask) : 0;
+}
+
 static int output_image(Dav1dContext *const c, Dav1dPicture *const out)
 {
     int res = 0;
 
-    Dav1dThreadPicture *const in = (c->all_layers || !c->max_spatial_id)
-                                   ? &c->out : &c->cache;
+    Dav1dThreadPicture *const in = c->cache.p.data[0] ? &c->cache : &c->out;
     c->event_flags |= dav1d_picture_get_event_flags(in);
     if (!c->apply_grain || !has_grain(&in->p)) {
         dav1d_picture_move_ref(out, &in->p);
@@ -322,17 +332,16 @@ static int output_image(Dav1dContext *const c, Dav1dPicture *const out)
     res = dav1d_apply_grain(c, out, &in->p);
     dav1d_thread_picture_unref(in);
 end:
-    if (!c->all_layers && c->max_spatial_id && c->out.p.data[0]) {
+    if (in == &c->cache && c->out.p.data[0] && max_spatial_id(c, &c->out.p))
         dav1d_thread_picture_move_ref(in, &c->out);
-    }
     return res;
 }
 
 static int output_picture_ready(Dav1dContext *const c, const int drain) {
     if (c->cached_error) return 1;
-    if (!c->all_layers && c->max_spatial_id) {
+    if (!c->all_layers) {
         if (c->out.p.data[0] && c->cache.p.data[0]) {
-            if (c->max_spatial_id == c->cache.p.frame_hdr->spatial_id ||
+            if (max_spatial_id(c, &c->cache.p) == c->cache.p.frame_hdr->spatial_id ||
                 c->out.flags & PICTURE_FLAG_NEW_TEMPORAL_UNIT)
                 return 1;
             // a lower spatial layer that isn't output hands on its events
@@ -343,7 +352,7 @@ static int output_picture_ready(Dav1dContext *const c, const int drain) {
             return 0;
         } else if (c->cache.p.data[0] && drain) {
             return 1;
-        } else if (c->out.p.data[0]) {
+        } else if (c->out.p.data[0] && max_spatial_id(c, &c->out.p)) {
             dav1d_thread_picture_move_ref(&c->cache, &c->out);
             return 0;
         }
diff --git a/src/obu.c b/src/obu.c
index c5eb434..0855553 100644
--- a/src/obu.c
+++ b/src/obu.c
@@ -1268,8 +1268,6 @@ ptrdiff_t dav1d_parse_obus(Dav1dContext *const c, Dav1dData *const in) {
         const int op_idx =
             c->operating_point < seq_hdr->num_operating_points ? c->operating_point : 0;
         c->operating_point_idc = seq_hdr->operating_points[op_idx].idc;
-        const unsigned spatial_mask = c->operating_point_idc >> 8;
-        c->max_spatial_id = spatial_mask ? ulog2(spatial_mask) : 0;
 
         // If we have read a sequence header which is different from
         // the old one, this is a new video sequence and can't use any
-- 
2.43.0


From 4b7978873e040e1fb07d6d8b293577905eb4a5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:00 +0000
Subject: [PATCH 15/30] fix: obu: Don't retry showing a frame that could not be
 shown

---
 src/obu.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/obu.c b/src/obu.c
index 0855553..d21df62 100644
--- a/src/obu.c
+++ b/src/obu.c
@@ -1738,6 +1738,9 @@ skip:
     return gb.ptr_end - gb.ptr_start;
 
 error:
+    // a frame that could not be shown must not be retried by every later OBU
+    if (c->frame_hdr && c->frame_hdr->show_existing_frame)
+        c->frame_hdr = NULL;
     dav1d_data_props_copy(&c->cached_error_props, &in->m);
     dav1d_log(c, gb.error ? "Overrun in OBU bit buffer\n" :
                             "Error parsing OBU data\n");
-- 
2.43.0


From e490f68021e91707dcc21eeb80c5ba51eaf3c4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:09 +0000
Subject: [PATCH 16/30] fix: lib: Report the data properties for every error
 when parsing data

---
 src/lib.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib.c b/src/lib.c
index db4387a..20629e5 100644
--- a/src/lib.c
+++ b/src/lib.c
@@ -434,6 +434,7 @@ static int gen_picture(Dav1dContext *const c)
     while (in->sz > 0) {
         const ptrdiff_t res = dav1d_parse_obus(c, in);
         if (res < 0) {
+            dav1d_data_props_copy(&c->cached_error_props, &in->m);
             dav1d_data_unref_internal(in);
         } else {
             assert((size_t)res <= in->sz);
-- 
2.43.0


From d36970fc2355e37d864eedcd27ca3a0c9c966bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:04 +0000
Subject: [PATCH 17/30] fix: tools: don't divide by zero on IVF files without
 frames

---
 tools/input/ivf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/input/ivf.c b/tools/input/ivf.c
index d1fa05e..51e0c2b 100644
--- a/tools/input/ivf.c
+++ b/tools/input/ivf.c
@@ -124,7 +124,7 @@ static int ivf_open(IvfInputContext *const c, const char *const file,
         fps[0] = fps[1] = 0;
     }
     c->timebase = (double)timebase[0] / timebase[1];
-    c->step = duration / *num_frames;
+    c->step = *num_frames ? duration / *num_frames : 0;
 
     fseeko(c->f, 32, SEEK_SET);
     c->last_ts = 0;
-- 
2.43.0


From 5c89b3ec1683f345a53bf46fb240f2ab5c44bd87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:04 +0000
Subject: [PATCH 18/30] fix: tools: don't probe uninitialized memory for small
 input files

---
 tools/input/input.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/input/input.c b/tools/input/input.c
index 2dfaa97..efde79a 100644
--- a/tools/input/input.c
+++ b/tools/input/input.c
@@ -77,7 +77,7 @@ int input_open(DemuxerContext **const c_out,
         int probe_sz = 0;
         for (i = 0; demuxers[i]; i++)
             probe_sz = imax(probe_sz, demuxers[i]->probe_sz);
-        uint8_t *const probe_data = malloc(probe_sz);
+        uint8_t *const probe_data = calloc(1, probe_sz);
         if (!probe_data) {
             fprintf(stderr, "Failed to allocate memory\n");
             return DAV1D_ERR(ENOMEM);
-- 
2.43.0


From 9a63e37461f46636165d61288f8fb1f08f7f71c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:38 +0000
Subject: [PATCH 19/30] fix: tools: initialize the elapsed time used for the
 first frame time

---
 tools/dav1d.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/dav1d.c b/tools/dav1d.c
index eb19a80..e256721 100644
--- a/tools/dav1d.c
+++ b/tools/dav1d.c
@@ -198,7 +198,7 @@ int main(const int argc, char *const *const argv) {
     Dav1dContext *c;
     Dav1dData data;
     unsigned n_out = 0, total, fps[2], timebase[2];
-    uint64_t nspf, tfirst, elapsed;
+    uint64_t nspf, tfirst, elapsed = 0;
     double i_fps;
     FILE *frametimes = NULL;
     const unsigned version = dav1d_version_api();
-- 
2.43.0


From 54e087021463b2a61890bf61752dc4ea5ad686f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:38 +0000
Subject: [PATCH 20/30] fix: tools: release the packets skipped when searching
 for a sequence header

---
 tools/dav1d.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tools/dav1d.c b/tools/dav1d.c
index e256721..6715632 100644
--- a/tools/dav1d.c
+++ b/tools/dav1d.c
@@ -244,6 +244,7 @@ int main(const int argc, char *const *const argv) {
         Dav1dSequenceHeader seq;
         unsigned seq_skip = 0;
         while (dav1d_parse_sequence_header(&seq, data.data, data.sz)) {
+            dav1d_data_unref(&data);
             if ((res = input_read(in, &data)) < 0) {
                 input_close(in);
                 return EXIT_FAILURE;
-- 
2.43.0


From d94fe5924a070ee3bd0b9dcade494534d8aed844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:06 +0000
Subject: [PATCH 21/30] fix: tools: report errors that occur when the output is
 flushed and closed

---
 tools/dav1d.c         |  2 +-
 tools/output/md5.c    |  5 ++---
 tools/output/muxer.h  | 17 ++++++++++++++++-
 tools/output/output.c |  9 +++++----
 tools/output/output.h |  2 +-
 tools/output/xxhash.c |  5 ++---
 tools/output/y4m2.c   |  5 ++---
 tools/output/yuv.c    |  5 ++---
 8 files changed, 31 insertions(+), 19 deletions(-)

diff --git a/tools/dav1d.c b/tools/dav1d.c
index 6715632..255b913 100644
--- a/tools/dav1d.c
+++ b/tools/dav1d.c
@@ -383,7 +383,7 @@ int main(const int argc, char *const *const argv) {
         if (cli_settings.verify)
             res |= output_verify(out, cli_settings.verify);
         else
-            output_close(out);
+            res |= output_close(out);
     } else {
         fprintf(stderr, "No data decoded\n");
         res = 1;
diff --git a/tools/output/md5.c b/tools/output/md5.c
index cfad4f0..2e0dafc 100644
--- a/tools/output/md5.c
+++ b/tools/output/md5.c
@@ -259,7 +259,7 @@ static void md5_finish(MD5Context *const md5) {
     md5_update(md5, (const uint8_t *) &len, 8);
 }
 
-static void md5_close(MD5Context *const md5) {
+static int md5_close(MD5Context *const md5) {
     md5_finish(md5);
     for (int i = 0; i < 4; i++)
         fprintf(md5->f, "%2.2x%2.2x%2.2x%2.2x",
@@ -274,8 +274,7 @@ static void md5_close(MD5Context *const md5) {
     md5->bswap_w = 0;
 #endif
 
-    if (md5->f != stdout)
-        fclose(md5->f);
+    return muxer_close_file(md5->f);
 }
 
 static int md5_verify(MD5Context *const md5, const char *md5_str) {
diff --git a/tools/output/muxer.h b/tools/output/muxer.h
index 54b3f6a..175ea15 100644
--- a/tools/output/muxer.h
+++ b/tools/output/muxer.h
@@ -28,6 +28,10 @@
 #ifndef DAV1D_OUTPUT_MUXER_H
 #define DAV1D_OUTPUT_MUXER_H
 
+#include <errno.h>
+#include <stdio.h>
+#include <string.h>
+
 #include "picture.h"
 
 typedef struct MuxerPriv MuxerPriv;
@@ -38,7 +42,7 @@ typedef struct Muxer {
     int (*write_header)(MuxerPriv *ctx, const char *filename,
                         const Dav1dPictureParameters *p, const unsigned fps[2]);
     int (*write_picture)(MuxerPriv *ctx, Dav1dPicture *p);
-    void (*write_trailer)(MuxerPriv *ctx);
+    int (*write_trailer)(MuxerPriv *ctx);
     /**
      * Verifies the muxed data (for example in the md5 muxer). Replaces write_trailer.
      *
@@ -49,4 +53,15 @@ typedef struct Muxer {
     int (*verify)(MuxerPriv *ctx, const char *hash_string);
 } Muxer;
 
+/* Flushes and closes an output file, reporting any error that has occurred
+ * while writing to it. */
+static inline int muxer_close_file(FILE *const f) {
+    const int err = ferror(f);
+    if ((f == stdout ? fflush(f) : fclose(f)) || err) {
+        fprintf(stderr, "Failed to write output: %s\n", strerror(errno));
+        return -1;
+    }
+    return 0;
+}
+
 #endif /* DAV1D_OUTPUT_MUXER_H */
diff --git a/tools/output/output.c b/tools/output/output.c
index f8910d4..475e5da 100644
--- a/tools/output/output.c
+++ b/tools/output/output.c
@@ -242,15 +242,16 @@ int output_write(MuxerContext *const ctx, Dav1dPicture *const p) {
     if ((res = ctx->impl->write_picture(ctx->data, p)) < 0)
         return res;
     if (ctx->one_file_per_frame && ctx->impl->write_trailer)
-        ctx->impl->write_trailer(ctx->data);
+        return ctx->impl->write_trailer(ctx->data);
 
     return 0;
 }
 
-void output_close(MuxerContext *const ctx) {
-    if (!ctx->one_file_per_frame && ctx->impl->write_trailer)
-        ctx->impl->write_trailer(ctx->data);
+int output_close(MuxerContext *const ctx) {
+    const int res = !ctx->one_file_per_frame && ctx->impl->write_trailer ?
+        ctx->impl->write_trailer(ctx->data) : 0;
     free(ctx);
+    return res;
 }
 
 int output_verify(MuxerContext *const ctx, const char *const md5_str) {
diff --git a/tools/output/output.h b/tools/output/output.h
index 6111c86..52f5d72 100644
--- a/tools/output/output.h
+++ b/tools/output/output.h
@@ -35,7 +35,7 @@ typedef struct MuxerContext MuxerContext;
 int output_open(MuxerContext **c, const char *name, const char *filename,
                 const Dav1dPictureParameters *p, const unsigned fps[2]);
 int output_write(MuxerContext *ctx, Dav1dPicture *pic);
-void output_close(MuxerContext *ctx);
+int output_close(MuxerContext *ctx);
 /**
  * Verifies the muxed data (for example in the md5 muxer). Replaces output_close.
  *
diff --git a/tools/output/xxhash.c b/tools/output/xxhash.c
index 53e7f2b..6a9d938 100644
--- a/tools/output/xxhash.c
+++ b/tools/output/xxhash.c
@@ -97,7 +97,7 @@ static int xxh3_write(xxh3Context *const xxh3, Dav1dPicture *const p) {
     return 0;
 }
 
-static void xxh3_close(xxh3Context *const xxh3) {
+static int xxh3_close(xxh3Context *const xxh3) {
     XXH128_hash_t hash = XXH3_128bits_digest(xxh3->state);
     XXH3_freeState(xxh3->state);
     XXH128_canonical_t c;
@@ -107,8 +107,7 @@ static void xxh3_close(xxh3Context *const xxh3) {
         fprintf(xxh3->f, "%2.2x", c.digest[i]);
     fprintf(xxh3->f, "\n");
 
-    if (xxh3->f != stdout)
-        fclose(xxh3->f);
+    return muxer_close_file(xxh3->f);
 }
 
 static int xxh3_verify(xxh3Context *const xxh3, const char * xxh3_str) {
diff --git a/tools/output/y4m2.c b/tools/output/y4m2.c
index 40411d1..f275206 100644
--- a/tools/output/y4m2.c
+++ b/tools/output/y4m2.c
@@ -135,9 +135,8 @@ error:
     return -1;
 }
 
-static void y4m2_close(Y4m2OutputContext *const c) {
-    if (c->f != stdout)
-        fclose(c->f);
+static int y4m2_close(Y4m2OutputContext *const c) {
+    return muxer_close_file(c->f);
 }
 
 const Muxer y4m2_muxer = {
diff --git a/tools/output/yuv.c b/tools/output/yuv.c
index e0c0ec4..4a70b3e 100644
--- a/tools/output/yuv.c
+++ b/tools/output/yuv.c
@@ -88,9 +88,8 @@ error:
     return -1;
 }
 
-static void yuv_close(YuvOutputContext *const c) {
-    if (c->f != stdout)
-        fclose(c->f);
+static int yuv_close(YuvOutputContext *const c) {
+    return muxer_close_file(c->f);
 }
 
 const Muxer yuv_muxer = {
-- 
2.43.0


From 80cceaa1f296f5f40ef0505f6ea885de09f8d4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:20 +0000
Subject: [PATCH 22/30] fix: tools: don't truncate per-frame file names and
 their number fields

---
 tools/output/output.c | 75 ++++++++++++++++++++++---------------------
 1 file changed, 38 insertions(+), 37 deletions(-)

diff --git a/tools/output/output.c b/tools/output/output.c
index 475e5da..bdbeff1 100644
--- a/tools/output/output.c
+++ b/tools/output/output.c
@@ -157,51 +157,46 @@ int output_open(MuxerContext **const c_out,
     return 0;
 }
 
-static void safe_strncat(char *const dst, const int dst_len,
-                         const char *const src, const int src_len)
+static int safe_strncat(char *const dst, const size_t dst_len,
+                        const char *const src, const size_t src_len)
 {
-    if (!src_len) return;
-    const int dst_fill = (int) strlen(dst);
+    const size_t dst_fill = strlen(dst);
     assert(dst_fill < dst_len);
-    const int to_copy = imin(src_len, dst_len - dst_fill - 1);
-    if (!to_copy) return;
-    memcpy(dst + dst_fill, src, to_copy);
-    dst[dst_fill + to_copy] = 0;
+    if (src_len >= dst_len - dst_fill) return -1;
+    memcpy(dst + dst_fill, src, src_len);
+    dst[dst_fill + src_len] = 0;
+    return 0;
 }
 
-static void assemble_field(char *const dst, const int dst_len,
-                           const char *const fmt, const int fmt_len,
-                           const int field)
+static int assemble_field(char *const dst, const int dst_len,
+                          const char *const fmt, const int fmt_len,
+                          const int field)
 {
-    char fmt_copy[32];
-
     assert(fmt[0] == '%');
-    fmt_copy[0] = '%';
-    if (fmt[1] >= '1' && fmt[1] <= '9') {
-        fmt_copy[1] = '0'; // pad with zeroes, not spaces
-        fmt_copy[2] = 0;
-    } else {
-        fmt_copy[1] = 0;
+    int width = 0; // pad with zeroes, not spaces
+    for (int i = 1; i < fmt_len; i++) {
+        width = width * 10 + fmt[i] - '0';
+        if (width >= dst_len) return -1;
     }
-    safe_strncat(fmt_copy, sizeof(fmt_copy), &fmt[1], fmt_len - 1);
-    safe_strncat(fmt_copy, sizeof(fmt_copy), "d", 1);
-
-    char tmp[32];
-    snprintf(tmp, sizeof(tmp), fmt_copy, field);
 
-    safe_strncat(dst, dst_len, tmp, (int) strlen(tmp));
+    const int dst_fill = (int) strlen(dst);
+    assert(dst_fill < dst_len);
+    const int len = snprintf(dst + dst_fill, dst_len - dst_fill, "%0*d",
+                             width, field);
+    return len < 0 || len >= dst_len - dst_fill ? -1 : 0;
 }
 
-static void assemble_filename(MuxerContext *const ctx, char *const filename,
-                              const int filename_size,
-                              const Dav1dPictureParameters *const p)
+static int assemble_filename(MuxerContext *const ctx, char *const filename,
+                             const int filename_size,
+                             const Dav1dPictureParameters *const p)
 {
+    int res = 0;
     filename[0] = 0;
     const int framenum = ctx->framenum++;
     assert(ctx->filename);
     const char *ptr = ctx->filename, *iptr;
     while ((iptr = strchr(ptr, '%'))) {
-        safe_strncat(filename, filename_size, ptr, (int) (iptr - ptr));
+        res |= safe_strncat(filename, filename_size, ptr, iptr - ptr);
         ptr = iptr;
 
         const char *iiptr = &iptr[1]; // skip '%'
@@ -210,23 +205,26 @@ static void assemble_filename(MuxerContext *const ctx, char *const filename,
 
         switch (*iiptr) {
         case 'w':
-            assemble_field(filename, filename_size, ptr, (int) (iiptr - ptr), p->w);
+            res |= assemble_field(filename, filename_size, ptr, (int) (iiptr - ptr), p->w);
             break;
         case 'h':
-            assemble_field(filename, filename_size, ptr, (int) (iiptr - ptr), p->h);
+            res |= assemble_field(filename, filename_size, ptr, (int) (iiptr - ptr), p->h);
             break;
         case 'n':
-            assemble_field(filename, filename_size, ptr, (int) (iiptr - ptr), framenum);
+            res |= assemble_field(filename, filename_size, ptr, (int) (iiptr - ptr), framenum);
             break;
         default:
-            safe_strncat(filename, filename_size, "%", 1);
+            res |= safe_strncat(filename, filename_size, "%", 1);
             ptr = &iptr[1];
             continue;
         }
 
         ptr = &iiptr[1];
     }
-    safe_strncat(filename, filename_size, ptr, (int) strlen(ptr));
+    res |= safe_strncat(filename, filename_size, ptr, strlen(ptr));
+    if (res)
+        fprintf(stderr, "Output file name too long: %s\n", ctx->filename);
+    return res;
 }
 
 int output_write(MuxerContext *const ctx, Dav1dPicture *const p) {
@@ -234,10 +232,13 @@ int output_write(MuxerContext *const ctx, Dav1dPicture *const p) {
 
     if (ctx->one_file_per_frame && ctx->impl->write_header) {
         char filename[1024];
-        assemble_filename(ctx, filename, sizeof(filename), &p->p);
-        res = ctx->impl->write_header(ctx->data, filename, &p->p, ctx->fps);
-        if (res < 0)
+        res = assemble_filename(ctx, filename, sizeof(filename), &p->p);
+        if (!res)
+            res = ctx->impl->write_header(ctx->data, filename, &p->p, ctx->fps);
+        if (res < 0) {
+            dav1d_picture_unref(p);
             return res;
+        }
     }
     if ((res = ctx->impl->write_picture(ctx->data, p)) < 0)
         return res;
-- 
2.43.0


From 270649cdbfc2941a637c9fa1dace3591980d0e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:20 +0000
Subject: [PATCH 23/30] fix: tools: don't accept malformed hashes when
 verifying

---
 tools/output/md5.c    | 2 +-
 tools/output/xxhash.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/output/md5.c b/tools/output/md5.c
index 2e0dafc..94c3e79 100644
--- a/tools/output/md5.c
+++ b/tools/output/md5.c
@@ -280,7 +280,7 @@ static int md5_close(MD5Context *const md5) {
 static int md5_verify(MD5Context *const md5, const char *md5_str) {
     md5_finish(md5);
 
-    if (strlen(md5_str) < 32)
+    if (strlen(md5_str) != 32 || strspn(md5_str, "0123456789abcdefABCDEF") != 32)
         return -1;
 
     uint32_t abcd[4] = { 0 };
diff --git a/tools/output/xxhash.c b/tools/output/xxhash.c
index 6a9d938..bb61236 100644
--- a/tools/output/xxhash.c
+++ b/tools/output/xxhash.c
@@ -114,7 +114,7 @@ static int xxh3_verify(xxh3Context *const xxh3, const char * xxh3_str) {
     XXH128_hash_t hash = XXH3_128bits_digest(xxh3->state);
     XXH3_freeState(xxh3->state);
 
-    if (strlen(xxh3_str) < 32)
+    if (strlen(xxh3_str) != 32 || strspn(xxh3_str, "0123456789abcdefABCDEF") != 32)
         return -1;
 
     XXH128_canonical_t c;
-- 
2.43.0


From 15bb3a16855df45038fb379a9bfccf3a3e0d470d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:29 +0000
Subject: [PATCH 24/30] fix: tools: don't read before the start of output file
 names without extension

---
 tools/output/output.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tools/output/output.c b/tools/output/output.c
index bdbeff1..879d33e 100644
--- a/tools/output/output.c
+++ b/tools/output/output.c
@@ -71,9 +71,10 @@ static const char *find_extension(const char *const f) {
     if (l == 0) return NULL;
 
     const char *const end = &f[l - 1], *step = end;
-    while ((*step >= 'a' && *step <= 'z') ||
-           (*step >= 'A' && *step <= 'Z') ||
-           (*step >= '0' && *step <= '9'))
+    while (step > f &&
+           ((*step >= 'a' && *step <= 'z') ||
+            (*step >= 'A' && *step <= 'Z') ||
+            (*step >= '0' && *step <= '9')))
     {
         step--;
     }
-- 
2.43.0


From 593c60afddfa448a1d3f5322660be0577b0bdebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:10 +0000
Subject: [PATCH 25/30] fix: tools: avoid out-of-bounds reads when probing OBU
 files with huge sizes

---
 tools/input/annexb.c   | 16 ++++++++--------
 tools/input/parse.h    |  2 +-
 tools/input/section5.c |  4 +++-
 3 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/tools/input/annexb.c b/tools/input/annexb.c
index 8add61c..aa42310 100644
--- a/tools/input/annexb.c
+++ b/tools/input/annexb.c
@@ -33,8 +33,6 @@
 #include <stdlib.h>
 #include <string.h>
 
-#include "common/intops.h"
-
 #include "dav1d/headers.h"
 
 #include "input/demuxer.h"
@@ -74,11 +72,12 @@ static int annexb_probe(const uint8_t *data) {
     // Check that the first OBU is a Temporal Delimiter.
     size_t obu_size;
     enum Dav1dObuType type;
-    ret = parse_obu_header(data + cnt, imin(PROBE_SIZE - cnt, (int) obu_unit_size),
-                           &obu_size, &type, 1);
+    int avail = obu_unit_size < (size_t) (PROBE_SIZE - cnt) ?
+                (int) obu_unit_size : PROBE_SIZE - cnt;
+    ret = parse_obu_header(data + cnt, avail, &obu_size, &type, 1);
     if (ret < 0 || type != DAV1D_OBU_TD || obu_size > 0)
         return 0;
-    cnt += (int)obu_unit_size;
+    cnt += avail;
 
     // look for first frame and accompanying sequence header
     int seq = 0;
@@ -90,11 +89,12 @@ static int annexb_probe(const uint8_t *data) {
         temporal_unit_size -= ret;
         frame_unit_size -= ret;
 
-        ret = parse_obu_header(data + cnt, imin(PROBE_SIZE - cnt, (int) obu_unit_size),
-                               &obu_size, &type, 1);
+        avail = obu_unit_size < (size_t) (PROBE_SIZE - cnt) ?
+                (int) obu_unit_size : PROBE_SIZE - cnt;
+        ret = parse_obu_header(data + cnt, avail, &obu_size, &type, 1);
         if (ret < 0)
             return 0;
-        cnt += (int)obu_unit_size;
+        cnt += avail;
 
         switch (type) {
         case DAV1D_OBU_SEQ_HDR:
diff --git a/tools/input/parse.h b/tools/input/parse.h
index f39f80f..239a5ed 100644
--- a/tools/input/parse.h
+++ b/tools/input/parse.h
@@ -98,7 +98,7 @@ static inline int parse_obu_header(const uint8_t *buf, int buf_size,
 
     if (has_size_flag) {
         ret = leb(buf, buf_size, obu_size);
-        if (ret < 0)
+        if (ret < 0 || *obu_size > (size_t) (INT_MAX - ret - 1 - extension_flag))
             return -1;
         return (int) *obu_size + ret + 1 + extension_flag;
     } else if (!allow_implicit_size)
diff --git a/tools/input/section5.c b/tools/input/section5.c
index 99cb761..46805e2 100644
--- a/tools/input/section5.c
+++ b/tools/input/section5.c
@@ -36,6 +36,8 @@
 #include <sys/types.h>
 #endif
 
+#include "common/intops.h"
+
 #include "dav1d/headers.h"
 
 #include "input/demuxer.h"
@@ -62,7 +64,7 @@ static int section5_probe(const uint8_t *data) {
                                &obu_size, &type, 0);
         if (ret < 0)
             return 0;
-        cnt += ret;
+        cnt += imin(ret, PROBE_SIZE - cnt);
 
         switch (type) {
         case DAV1D_OBU_SEQ_HDR:
-- 
2.43.0


From 1573c53911f1209a2dfdae83a662b781aa9dc78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:10 +0000
Subject: [PATCH 26/30] fix: tools: reject frame rates that are not positive

---
 tools/dav1d.c           | 2 +-
 tools/dav1d_cli_parse.c | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/dav1d.c b/tools/dav1d.c
index 255b913..e1a97f7 100644
--- a/tools/dav1d.c
+++ b/tools/dav1d.c
@@ -276,7 +276,7 @@ int main(const int argc, char *const *const argv) {
         }
     } else {
         i_fps = cli_settings.realtime_fps;
-        nspf = (uint64_t)(1000000000.0 / cli_settings.realtime_fps);
+        nspf = (uint64_t)fmin(1000000000.0 / cli_settings.realtime_fps, 1e18);
     }
     tfirst = get_time_nanos();
 
diff --git a/tools/dav1d_cli_parse.c b/tools/dav1d_cli_parse.c
index 134be46..b063191 100644
--- a/tools/dav1d_cli_parse.c
+++ b/tools/dav1d_cli_parse.c
@@ -199,6 +199,7 @@ static int parse_optional_fraction(const char *const optarg, const int option,
     } else if (*end || end == optarg) {
         error(app, optarg, option, "a fraction");
     }
+    if (!(*value > 0)) error(app, optarg, option, "a positive fraction");
     return 1;
 }
 
-- 
2.43.0


From 4ad3b9bf78a83f4306dc23c282b8b378cc2a796e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:48 +0000
Subject: [PATCH 27/30] fix: thread_task: Rescan tasks after failing to
 allocate the second pass

Frames referencing this one can be waiting for its reconstruction progress,
which is set to FRAME_ERROR here; without restarting the scan for runnable
tasks they may never be looked at again.
---
 src/thread_task.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/thread_task.c b/src/thread_task.c
index 4332968..f70648a 100644
--- a/src/thread_task.c
+++ b/src/thread_task.c
@@ -735,6 +735,7 @@ void *dav1d_worker_task(void *data) {
                                          f->frame_hdr->tiling.cols *
                                          f->frame_hdr->tiling.rows + f->sbh);
                         atomic_store(&f->sr_cur.progress[p - 1], FRAME_ERROR);
+                        reset_task_cur(c, ttd, t->frame_idx);
                         if (atomic_load(&f->task_thread.done[1]) &&
                             !atomic_load(&f->task_thread.task_counter))
                         {
-- 
2.43.0


From 972d1b3cc11618eb80555eddcf8125da85039e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:43 +0000
Subject: [PATCH 28/30] fix: lib: Reset the operating point's layers when
 flushing

---
 src/lib.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib.c b/src/lib.c
index 20629e5..84228cd 100644
--- a/src/lib.c
+++ b/src/lib.c
@@ -553,6 +553,7 @@ void dav1d_flush(Dav1dContext *const c) {
     c->cached_error = 0;
     c->frame_flags = 0;
     c->event_flags = 0;
+    c->operating_point_idc = 0;
 
     for (int i = 0; i < 8; i++) {
         if (c->refs[i].p.p.frame_hdr)
-- 
2.43.0


From de999e195a5400bc764f0b80134b978a2bd6fdf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:08 +0000
Subject: [PATCH 29/30] fix: picture: Forget the event flags of a picture that
 is gone

The output of a decoder without frame threading kept the flags of the
last picture, so that a hidden frame that failed to decode repeated the
events of the picture before it.
---
 src/picture.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/picture.c b/src/picture.c
index 52f8b1f..04ee81e 100644
--- a/src/picture.c
+++ b/src/picture.c
@@ -325,6 +325,7 @@ void dav1d_thread_picture_unref(Dav1dThreadPicture *const p) {
     dav1d_picture_unref_internal(&p->p);
 
     p->progress = NULL;
+    p->flags = 0;
 }
 
 enum Dav1dEventFlags dav1d_picture_get_event_flags(const Dav1dThreadPicture *const p) {
-- 
2.43.0


From d23e18b13f991f74a89fdba7881d419182c11ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:16 +0000
Subject: [PATCH 30/30] fix: decode: Don't read the frame header after giving
 it up

When a frame failed, and for every idle frame context when flushing, the
header was read although the reference to it had been released already.
---
 src/decode.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/decode.c b/src/decode.c
index b0dcd01..8b690c9 100644
--- a/src/decode.c
+++ b/src/decode.c
@@ -3271,7 +3271,7 @@ void dav1d_decode_frame_exit(Dav1dFrameContext *const f, int retval) {
     dav1d_picture_unref_internal(&f->cur);
     dav1d_thread_picture_unref(&f->sr_cur);
     dav1d_cdf_thread_unref(&f->in_cdf);
-    if (f->frame_hdr && f->frame_hdr->refresh_context) {
+    if (f->frame_hdr_ref && f->frame_hdr->refresh_context) {
         if (f->out_cdf.progress)
             atomic_store(f->out_cdf.progress, retval == 0 ? 1 : TILE_ERROR);
         dav1d_cdf_thread_unref(&f->out_cdf);
@@ -3726,7 +3726,7 @@ int dav1d_submit_frame(Dav1dContext *const c) {
 error:
     atomic_init(&f->task_thread.error, 1);
     dav1d_cdf_thread_unref(&f->in_cdf);
-    if (f->frame_hdr->refresh_context)
+    if (f->frame_hdr_ref && f->frame_hdr->refresh_context)
         dav1d_cdf_thread_unref(&f->out_cdf);
     for (int i = 0; i < 7; i++) {
         if (f->refp[i].p.frame_hdr)
-- 
2.43.0

