From eac1a6eb49dd444ca638f45d33759085cede5a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:41 +0000
Subject: [PATCH 1/5] fix: check the remaining space before writing the tileset
 and tile headers

---
 src/rfxencode_compose.c | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/rfxencode_compose.c b/src/rfxencode_compose.c
index 94236bd..2b9535d 100644
--- a/src/rfxencode_compose.c
+++ b/src/rfxencode_compose.c
@@ -228,6 +228,10 @@ rfx_compose_message_tile_yuv(struct rfxencode *enc, STREAM *s,
     int start_pos;
     int end_pos;
 
+    if (stream_get_left(s) < 19)
+    {
+        return 1;
+    }
     start_pos = stream_get_pos(s);
     stream_write_uint16(s, CBT_TILE); /* BlockT.blockType */
     stream_seek_uint32(s); /* set BlockT.blockLen later */
@@ -275,6 +279,10 @@ rfx_compose_message_tile_yuva(struct rfxencode *enc, STREAM *s,
     int start_pos;
     int end_pos;
 
+    if (stream_get_left(s) < 21)
+    {
+        return 1;
+    }
     start_pos = stream_get_pos(s);
     stream_write_uint16(s, CBT_TILE); /* BlockT.blockType */
     stream_seek_uint32(s); /* set BlockT.blockLen later */
@@ -320,6 +328,10 @@ rfx_compose_message_tile_rgb(struct rfxencode *enc, STREAM *s,
     int start_pos;
     int end_pos;
 
+    if (stream_get_left(s) < 19)
+    {
+        return 1;
+    }
     start_pos = stream_get_pos(s);
     stream_write_uint16(s, CBT_TILE); /* BlockT.blockType */
     stream_seek_uint32(s); /* set BlockT.blockLen later */
@@ -366,6 +378,10 @@ rfx_compose_message_tile_argb(struct rfxencode *enc, STREAM *s,
     int end_pos;
 
     LLOGLN(10, ("rfx_compose_message_tile_argb:"));
+    if (stream_get_left(s) < 21)
+    {
+        return 1;
+    }
     start_pos = stream_get_pos(s);
     stream_write_uint16(s, CBT_TILE); /* BlockT.blockType */
     stream_seek_uint32(s); /* set BlockT.blockLen later */
@@ -438,6 +454,10 @@ rfx_compose_message_tileset(struct rfxencode *enc, STREAM *s,
     }
     numTiles = num_tiles;
     size = 22 + numQuants * 5;
+    if (stream_get_left(s) < size)
+    {
+        return -1;
+    }
     start_pos = stream_get_pos(s);
     if (flags & RFX_FLAGS_ALPHAV1)
     {
@@ -614,6 +634,10 @@ rfx_compose_message_data(struct rfxencode *enc, STREAM *s,
     }
     tiles_written = rfx_compose_message_tileset(enc, s, buf, width, height, stride_bytes,
                    tiles, num_tiles, quants, num_quants, flags);
+    if (tiles_written < 0)
+    {
+        return -1;
+    }
     if (rfx_compose_message_frame_end(enc, s) != 0)
     {
         return -1;
-- 
2.43.0


From c0effd1a5dbdddb474136e1efb0360ad80119f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:09 +0000
Subject: [PATCH 2/5] fix: do not read past the last coefficient in the RLGR3
 pair coder

---
 src/rfxencode_diff_rlgr3.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/rfxencode_diff_rlgr3.c b/src/rfxencode_diff_rlgr3.c
index 1bb435e..5f93b69 100644
--- a/src/rfxencode_diff_rlgr3.c
+++ b/src/rfxencode_diff_rlgr3.c
@@ -249,7 +249,15 @@ rfx_encode_diff_rlgr3(sint16 *coef, uint8 *cdata, int cdata_size,
             y = input >> 15;
             twoMs1 = (((input ^ y) - y) << 1) + y;
 
-            GetNextInput;
+            /* the second value is zero if there is only one left */
+            if (coef_size > 0)
+            {
+                GetNextInput;
+            }
+            else
+            {
+                input = 0;
+            }
 
             y = input >> 15;
             twoMs2 = (((input ^ y) - y) << 1) + y;
-- 
2.43.0


From 63a6caa1c8ed5e22f35e393f1c9e4578fb7459a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:09 +0000
Subject: [PATCH 3/5] fix: keep the tiles already coded when a later
 progressive tile cannot be

The reference of the earlier tiles has been updated, so failing the whole
message would leave the decoder out of step.
---
 src/rfxencode_compose.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/rfxencode_compose.c b/src/rfxencode_compose.c
index 2b9535d..0ad51f0 100644
--- a/src/rfxencode_compose.c
+++ b/src/rfxencode_compose.c
@@ -835,14 +835,14 @@ rfx_pro_compose_message_region(struct rfxencode *enc, STREAM *s,
         if ((quantIdxY >= num_quants) || (quantIdxCb >= num_quants) ||
             (quantIdxCr >= num_quants))
         {
-            return -1;
+            break;
         }
         tile_data = buf + (y << 8) * (stride_bytes >> 8) + (x << 8);
         xIdx = x / 64;
         yIdx = y / 64;
         if ((xIdx >= RFX_MAX_RB_X) || (yIdx >= RFX_MAX_RB_Y))
         {
-            return -1;
+            break;
         }
         tile_start_pos = stream_get_pos(s);
         stream_write_uint16(s, PRO_WBT_TILE_SIMPLE);
@@ -866,7 +866,7 @@ rfx_pro_compose_message_region(struct rfxencode *enc, STREAM *s,
             rb = xnew(struct rfx_rb);
             if (rb == NULL)
             {
-                return -1;
+                break;
             }
             enc->rbs[xIdx][yIdx] = rb;
         }
-- 
2.43.0


From 4bce52cf1efbf255543b3b444f51b668a8cf6061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:19 +0000
Subject: [PATCH 4/5] fix: a failed encode call must not consume the stream
 header or a frame number

---
 src/rfxencode.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/rfxencode.c b/src/rfxencode.c
index 5e0e59d..06043a2 100644
--- a/src/rfxencode.c
+++ b/src/rfxencode.c
@@ -378,6 +378,8 @@ rfxcodec_encode_ex(void *handle, char *cdata, int *cdata_bytes,
 {
     struct rfxencode *enc;
     int tiles_written;
+    int frame_idx;
+    int header_processed;
     STREAM s;
 
     enc = (struct rfxencode *) handle;
@@ -392,6 +394,8 @@ rfxcodec_encode_ex(void *handle, char *cdata, int *cdata_bytes,
         {
             rfxencode_reset_encoder(handle);
         }
+        frame_idx = enc->frame_idx;
+        header_processed = enc->header_processed;
         /* Only the first frame should send the RemoteFX header */
         if ((enc->frame_idx == 0) && (enc->header_processed == 0))
         {
@@ -406,12 +410,17 @@ rfxcodec_encode_ex(void *handle, char *cdata, int *cdata_bytes,
                                          flags);
         if (tiles_written <= 0)
         {
+            /* nothing was sent */
+            enc->frame_idx = frame_idx;
+            enc->header_processed = header_processed;
             return -1;
         }
         *cdata_bytes = (int) (s.p - s.data);
         return tiles_written;
     }
 
+    frame_idx = enc->frame_idx;
+    header_processed = enc->header_processed;
     /* Only the first frame should send the RemoteFX header */
     if ((enc->frame_idx == 0) && (enc->header_processed == 0))
     {
@@ -424,6 +433,12 @@ rfxcodec_encode_ex(void *handle, char *cdata, int *cdata_bytes,
                                             buf, width, height, stride_bytes,
                                             tiles, num_tiles,
                                             quants, num_quants, flags);
+    if (tiles_written < 0)
+    {
+        /* nothing was sent */
+        enc->frame_idx = frame_idx;
+        enc->header_processed = header_processed;
+    }
     *cdata_bytes = (int) (s.p - s.data);
     return tiles_written;
 }
-- 
2.43.0


From ab12f9a04df90b57fc6503877c278333d9a0557f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:05 +0000
Subject: [PATCH 5/5] fix: reject progressive tiles whose quantiser or position
 only fits after truncation

---
 src/rfxencode_compose.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/rfxencode_compose.c b/src/rfxencode_compose.c
index 0ad51f0..5a354d9 100644
--- a/src/rfxencode_compose.c
+++ b/src/rfxencode_compose.c
@@ -759,9 +759,9 @@ rfx_pro_compose_message_region(struct rfxencode *enc, STREAM *s,
     int tiles_written;
     int x;
     int y;
-    uint8 quantIdxY;
-    uint8 quantIdxCb;
-    uint8 quantIdxCr;
+    int quantIdxY;
+    int quantIdxCb;
+    int quantIdxCr;
     const char *tile_data;
 
     int y_bytes;
@@ -769,8 +769,8 @@ rfx_pro_compose_message_region(struct rfxencode *enc, STREAM *s,
     int v_bytes;
     int tile_start_pos;
     int tile_end_pos;
-    uint16 xIdx;
-    uint16 yIdx;
+    int xIdx;
+    int yIdx;
 
     const uint8 *y_buffer;
     const uint8 *u_buffer;
@@ -832,6 +832,11 @@ rfx_pro_compose_message_region(struct rfxencode *enc, STREAM *s,
         quantIdxY = tiles[index].quant_y;
         quantIdxCb = tiles[index].quant_cb;
         quantIdxCr = tiles[index].quant_cr;
+        if ((x < 0) || (y < 0) ||
+            (quantIdxY < 0) || (quantIdxCb < 0) || (quantIdxCr < 0))
+        {
+            break;
+        }
         if ((quantIdxY >= num_quants) || (quantIdxCb >= num_quants) ||
             (quantIdxCr >= num_quants))
         {
-- 
2.43.0

