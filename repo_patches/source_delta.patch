From 163473651cb8cd725b320e9396eb34a0e04f37c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:59 +0000
Subject: [PATCH 01/10] fix: check output space before writing tileset and tile
 headers

rfx_compose_message_tileset() and the rfx_compose_message_tile_*()
functions wrote their headers without looking at the space left, so a
small output buffer was overrun.
---
 src/rfxencode_compose.c | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/rfxencode_compose.c b/src/rfxencode_compose.c
index 94236bd..2b9535d 100644
--- a/src/rfxencode_compose.c
+++ b/src/rfxencode_compose.c
@@ -228,6 +228,10 @@ rfx_compose_message_tile_yuv(struct rfxencode *enc, STREAM *s,
     int start_pos;
     int end_pos;
 
+    if (stream_get_left(s) < 19)
+    {
+        return 1;
+    }
     start_pos = stream_get_pos(s);
     stream_write_uint16(s, CBT_TILE); /* BlockT.blockType */
     stream_seek_uint32(s); /* set BlockT.blockLen later */
@@ -275,6 +279,10 @@ rfx_compose_message_tile_yuva(struct rfxencode *enc, STREAM *s,
     int start_pos;
     int end_pos;
 
+    if (stream_get_left(s) < 21)
+    {
+        return 1;
+    }
     start_pos = stream_get_pos(s);
     stream_write_uint16(s, CBT_TILE); /* BlockT.blockType */
     stream_seek_uint32(s); /* set BlockT.blockLen later */
@@ -320,6 +328,10 @@ rfx_compose_message_tile_rgb(struct rfxencode *enc, STREAM *s,
     int start_pos;
     int end_pos;
 
+    if (stream_get_left(s) < 19)
+    {
+        return 1;
+    }
     start_pos = stream_get_pos(s);
     stream_write_uint16(s, CBT_TILE); /* BlockT.blockType */
     stream_seek_uint32(s); /* set BlockT.blockLen later */
@@ -366,6 +378,10 @@ rfx_compose_message_tile_argb(struct rfxencode *enc, STREAM *s,
     int end_pos;
 
     LLOGLN(10, ("rfx_compose_message_tile_argb:"));
+    if (stream_get_left(s) < 21)
+    {
+        return 1;
+    }
     start_pos = stream_get_pos(s);
     stream_write_uint16(s, CBT_TILE); /* BlockT.blockType */
     stream_seek_uint32(s); /* set BlockT.blockLen later */
@@ -438,6 +454,10 @@ rfx_compose_message_tileset(struct rfxencode *enc, STREAM *s,
     }
     numTiles = num_tiles;
     size = 22 + numQuants * 5;
+    if (stream_get_left(s) < size)
+    {
+        return -1;
+    }
     start_pos = stream_get_pos(s);
     if (flags & RFX_FLAGS_ALPHAV1)
     {
@@ -614,6 +634,10 @@ rfx_compose_message_data(struct rfxencode *enc, STREAM *s,
     }
     tiles_written = rfx_compose_message_tileset(enc, s, buf, width, height, stride_bytes,
                    tiles, num_tiles, quants, num_quants, flags);
+    if (tiles_written < 0)
+    {
+        return -1;
+    }
     if (rfx_compose_message_frame_end(enc, s) != 0)
     {
         return -1;
-- 
2.43.0


From 5286c8854d1d2cc0ff18fc56c7bee6844d1f2226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:59 +0000
Subject: [PATCH 02/10] fix: a failed encode call must not consume the stream
 header or a frame number

When composing failed after the header or frame begin block was written,
the output is discarded but header_processed and frame_idx kept their new
values: the peer never got a header, and frame numbers had gaps.
---
 src/rfxencode.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/rfxencode.c b/src/rfxencode.c
index 5e0e59d..6313b23 100644
--- a/src/rfxencode.c
+++ b/src/rfxencode.c
@@ -378,6 +378,8 @@ rfxcodec_encode_ex(void *handle, char *cdata, int *cdata_bytes,
 {
     struct rfxencode *enc;
     int tiles_written;
+    int frame_idx;
+    int header_processed;
     STREAM s;
 
     enc = (struct rfxencode *) handle;
@@ -392,6 +394,9 @@ rfxcodec_encode_ex(void *handle, char *cdata, int *cdata_bytes,
         {
             rfxencode_reset_encoder(handle);
         }
+        /* a failed call must not consume the header or a frame number */
+        frame_idx = enc->frame_idx;
+        header_processed = enc->header_processed;
         /* Only the first frame should send the RemoteFX header */
         if ((enc->frame_idx == 0) && (enc->header_processed == 0))
         {
@@ -406,12 +411,17 @@ rfxcodec_encode_ex(void *handle, char *cdata, int *cdata_bytes,
                                          flags);
         if (tiles_written <= 0)
         {
+            enc->frame_idx = frame_idx;
+            enc->header_processed = header_processed;
             return -1;
         }
         *cdata_bytes = (int) (s.p - s.data);
         return tiles_written;
     }
 
+    /* a failed call must not consume the header or a frame number */
+    frame_idx = enc->frame_idx;
+    header_processed = enc->header_processed;
     /* Only the first frame should send the RemoteFX header */
     if ((enc->frame_idx == 0) && (enc->header_processed == 0))
     {
@@ -424,6 +434,11 @@ rfxcodec_encode_ex(void *handle, char *cdata, int *cdata_bytes,
                                             buf, width, height, stride_bytes,
                                             tiles, num_tiles,
                                             quants, num_quants, flags);
+    if (tiles_written < 0)
+    {
+        enc->frame_idx = frame_idx;
+        enc->header_processed = header_processed;
+    }
     *cdata_bytes = (int) (s.p - s.data);
     return tiles_written;
 }
-- 
2.43.0


From 7827c66a068aced01ce5219b3f01b85add38a21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:28 +0000
Subject: [PATCH 03/10] fix: progressive: do not fail after part of the tile
 history was updated

An invalid quant index or tile position, or an allocation failure, at a
later tile made the call fail although the history of the earlier tiles
already held content the peer never received.  Check all tiles first, and
deliver the tiles already written when memory runs out.
---
 src/rfxencode_compose.c | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/rfxencode_compose.c b/src/rfxencode_compose.c
index 2b9535d..ebc08e3 100644
--- a/src/rfxencode_compose.c
+++ b/src/rfxencode_compose.c
@@ -800,6 +800,24 @@ rfx_pro_compose_message_region(struct rfxencode *enc, STREAM *s,
         num_quants = 1;
         quants = (const char *) g_rfx_default_quantization_values;
     }
+    /* check all the tiles before any history is updated */
+    for (index = 0; index < num_tiles; index++)
+    {
+        quantIdxY = tiles[index].quant_y;
+        quantIdxCb = tiles[index].quant_cb;
+        quantIdxCr = tiles[index].quant_cr;
+        if ((quantIdxY >= num_quants) || (quantIdxCb >= num_quants) ||
+            (quantIdxCr >= num_quants))
+        {
+            return -1;
+        }
+        xIdx = tiles[index].x / 64;
+        yIdx = tiles[index].y / 64;
+        if ((xIdx >= RFX_MAX_RB_X) || (yIdx >= RFX_MAX_RB_Y))
+        {
+            return -1;
+        }
+    }
     start_pos = stream_get_pos(s);
     stream_write_uint16(s, PRO_WBT_REGION);
     stream_seek_uint32(s); /* blockLen, set later */
@@ -832,18 +850,9 @@ rfx_pro_compose_message_region(struct rfxencode *enc, STREAM *s,
         quantIdxY = tiles[index].quant_y;
         quantIdxCb = tiles[index].quant_cb;
         quantIdxCr = tiles[index].quant_cr;
-        if ((quantIdxY >= num_quants) || (quantIdxCb >= num_quants) ||
-            (quantIdxCr >= num_quants))
-        {
-            return -1;
-        }
         tile_data = buf + (y << 8) * (stride_bytes >> 8) + (x << 8);
         xIdx = x / 64;
         yIdx = y / 64;
-        if ((xIdx >= RFX_MAX_RB_X) || (yIdx >= RFX_MAX_RB_Y))
-        {
-            return -1;
-        }
         tile_start_pos = stream_get_pos(s);
         stream_write_uint16(s, PRO_WBT_TILE_SIMPLE);
         stream_seek_uint32(s); /* set later */
@@ -866,7 +875,8 @@ rfx_pro_compose_message_region(struct rfxencode *enc, STREAM *s,
             rb = xnew(struct rfx_rb);
             if (rb == NULL)
             {
-                return -1;
+                /* the tiles already written are in the history */
+                break;
             }
             enc->rbs[xIdx][yIdx] = rb;
         }
-- 
2.43.0


From 006f38043dc23e4bbcef70b4dd8b92343961a885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:28 +0000
Subject: [PATCH 04/10] fix: count the ALen field and the alpha flags byte in
 alpha tile lengths

The block length of tiles with alpha left out the two bytes of the ALen
field, and ALen left out the flags byte when the plane is run-length coded
(the raw case counts it), so readers could not find the end of a tile.
---
 src/rfxencode_alpha.c   | 1 +
 src/rfxencode_compose.c | 4 ++--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rfxencode_alpha.c b/src/rfxencode_alpha.c
index 065a6c7..c739764 100644
--- a/src/rfxencode_alpha.c
+++ b/src/rfxencode_alpha.c
@@ -279,6 +279,7 @@ rfx_encode_plane(struct rfxencode *enc, const uint8 *plane, int cx, int cy,
     else
     {
         LLOGLN(10, ("rfx_encode_plane: ok bytes %d", bytes));
+        bytes++; /* flags */
     }
     return bytes;
 }
diff --git a/src/rfxencode_compose.c b/src/rfxencode_compose.c
index ebc08e3..e886a0a 100644
--- a/src/rfxencode_compose.c
+++ b/src/rfxencode_compose.c
@@ -303,7 +303,7 @@ rfx_compose_message_tile_yuva(struct rfxencode *enc, STREAM *s,
     }
     end_pos = stream_get_pos(s);
     stream_set_pos(s, start_pos + 2);
-    stream_write_uint32(s, 19 + YLen + CbLen + CrLen + ALen); /* BlockT.blockLen */
+    stream_write_uint32(s, 21 + YLen + CbLen + CrLen + ALen); /* BlockT.blockLen */
     stream_set_pos(s, start_pos + 13);
     stream_write_uint16(s, YLen);
     stream_write_uint16(s, CbLen);
@@ -403,7 +403,7 @@ rfx_compose_message_tile_argb(struct rfxencode *enc, STREAM *s,
     }
     end_pos = stream_get_pos(s);
     stream_set_pos(s, start_pos + 2);
-    stream_write_uint32(s, 19 + YLen + CbLen + CrLen + ALen); /* BlockT.blockLen */
+    stream_write_uint32(s, 21 + YLen + CbLen + CrLen + ALen); /* BlockT.blockLen */
     stream_set_pos(s, start_pos + 13);
     stream_write_uint16(s, YLen);
     stream_write_uint16(s, CbLen);
-- 
2.43.0


From 4d34a824fb98502e0df6b5cf78c8426c00ce8e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:42 +0000
Subject: [PATCH 05/10] fix: diff rlgr3: do not read past the last coefficient

In Golomb-Rice mode with a single coefficient left the coder took its pair
partner from beyond the 4096 coefficients.
---
 src/rfxencode_diff_rlgr3.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/rfxencode_diff_rlgr3.c b/src/rfxencode_diff_rlgr3.c
index 1bb435e..0733288 100644
--- a/src/rfxencode_diff_rlgr3.c
+++ b/src/rfxencode_diff_rlgr3.c
@@ -249,7 +249,14 @@ rfx_encode_diff_rlgr3(sint16 *coef, uint8 *cdata, int cdata_size,
             y = input >> 15;
             twoMs1 = (((input ^ y) - y) << 1) + y;
 
-            GetNextInput;
+            if (coef_size > 0)
+            {
+                GetNextInput;
+            }
+            else
+            {
+                input = 0; /* no second value left */
+            }
 
             y = input >> 15;
             twoMs2 = (((input ^ y) - y) << 1) + y;
-- 
2.43.0


From 50968d386fe4e588f5933c87d309a28d82321377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:51 +0000
Subject: [PATCH 06/10] fix: progressive dwt: saturate the extrapolated corner
 sample

The extrapolated sample 2 * ic[63] - ic[62] of the extrapolated row can
reach +-36864 and wrapped around in 16 bits, turning a bright corner dark.
---
 src/rfxencode_dwt_shift_rem.c | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/rfxencode_dwt_shift_rem.c b/src/rfxencode_dwt_shift_rem.c
index bded0ef..8c163a1 100644
--- a/src/rfxencode_dwt_shift_rem.c
+++ b/src/rfxencode_dwt_shift_rem.c
@@ -157,16 +157,13 @@ rfx_rem_dwt_shift_encode_horz_lv1(const sint16 *in_buffer, sint16 *out_buffer,
 
         /* post */
         hn1 = hn;
-        ic62 = x2n = x2n2;
+        x2n = x2n2;
         x2n1 = ic[63];
-        x2n2 = 2 * x2n1 - x2n; /* ic[64] = 2 * ic[63] - ic[62] */
         lo[31] = x2n + (hn1 >> 1);
 
-        x2n = x2n2;
-        /* x2n1 already set, mirror 65 -> 63 */
-        x2n2 = ic62;      /* mirror 66 -> 62 */
-        hn = (x2n1 - ((x2n + x2n2) >> 1)) >> 1;
-        lo[32] = x2n + (hn >> 1);
+        /* ic[64] = 2 * ic[63] - ic[62], this can exceed 16 bits in the
+           extrapolated row, H[31] is always 0 */
+        lo[32] = MINMAX(2 * x2n1 - x2n, -32768, 32767);
 
     }
 
-- 
2.43.0


From 44b8ca35fb1f37ea04443da8727cabff5e3405b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:43 +0000
Subject: [PATCH 07/10] fix: progressive: check tile positions and quant
 indices untruncated

The checks were made after conversion to the 8 and 16 bit message fields,
so that for instance quant index 256 was taken for 0 and a negative
position of a few pixels for position 0.
---
 src/rfxencode_compose.c | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/rfxencode_compose.c b/src/rfxencode_compose.c
index e886a0a..2328e03 100644
--- a/src/rfxencode_compose.c
+++ b/src/rfxencode_compose.c
@@ -803,17 +803,14 @@ rfx_pro_compose_message_region(struct rfxencode *enc, STREAM *s,
     /* check all the tiles before any history is updated */
     for (index = 0; index < num_tiles; index++)
     {
-        quantIdxY = tiles[index].quant_y;
-        quantIdxCb = tiles[index].quant_cb;
-        quantIdxCr = tiles[index].quant_cr;
-        if ((quantIdxY >= num_quants) || (quantIdxCb >= num_quants) ||
-            (quantIdxCr >= num_quants))
+        if ((tiles[index].quant_y < 0) || (tiles[index].quant_y >= num_quants) ||
+            (tiles[index].quant_cb < 0) || (tiles[index].quant_cb >= num_quants) ||
+            (tiles[index].quant_cr < 0) || (tiles[index].quant_cr >= num_quants))
         {
             return -1;
         }
-        xIdx = tiles[index].x / 64;
-        yIdx = tiles[index].y / 64;
-        if ((xIdx >= RFX_MAX_RB_X) || (yIdx >= RFX_MAX_RB_Y))
+        if ((tiles[index].x < 0) || (tiles[index].x >= RFX_MAX_RB_X * 64) ||
+            (tiles[index].y < 0) || (tiles[index].y >= RFX_MAX_RB_Y * 64))
         {
             return -1;
         }
-- 
2.43.0


From eb27ae0fe941e00882830ac043db9992d731b83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:01 +0000
Subject: [PATCH 08/10] fix: reject quant indices outside the quantisation
 tables

The classic path used a tile's quant indices unchecked (the progressive
one refuses bad ones), reading outside the caller's tables and naming
tables that are not in the message.
---
 src/rfxencode_compose.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/rfxencode_compose.c b/src/rfxencode_compose.c
index 2328e03..2489c23 100644
--- a/src/rfxencode_compose.c
+++ b/src/rfxencode_compose.c
@@ -453,6 +453,15 @@ rfx_compose_message_tileset(struct rfxencode *enc, STREAM *s,
         quantVals = quants;
     }
     numTiles = num_tiles;
+    for (index = 0; index < numTiles; index++)
+    {
+        if ((tiles[index].quant_y < 0) || (tiles[index].quant_y >= numQuants) ||
+            (tiles[index].quant_cb < 0) || (tiles[index].quant_cb >= numQuants) ||
+            (tiles[index].quant_cr < 0) || (tiles[index].quant_cr >= numQuants))
+        {
+            return -1;
+        }
+    }
     size = 22 + numQuants * 5;
     if (stream_get_left(s) < size)
     {
-- 
2.43.0


From 445cb041fa09dbd57f862b3c3cd90a82f5ea41c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:28 +0000
Subject: [PATCH 09/10] fix: refuse counts that do not fit in their message
 fields

More than 255 quantisation tables, more than 65535 regions or tiles, and
negative counts were written truncated, giving a message that cannot be
parsed. Surplus tiles are left for another call, as when space runs out.
---
 src/rfxencode.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/rfxencode.c b/src/rfxencode.c
index 6313b23..6aa5217 100644
--- a/src/rfxencode.c
+++ b/src/rfxencode.c
@@ -384,6 +384,17 @@ rfxcodec_encode_ex(void *handle, char *cdata, int *cdata_bytes,
 
     enc = (struct rfxencode *) handle;
 
+    /* counts must fit in their message fields */
+    if ((num_regions < 0) || (num_regions > 0xFFFF) || (num_tiles < 0) ||
+        ((quants != NULL) && ((num_quants < 0) || (num_quants > 0xFF))))
+    {
+        return -1;
+    }
+    if (num_tiles > 0xFFFF)
+    {
+        num_tiles = 0xFFFF; /* the return value tells how many were done */
+    }
+
     s.data = (uint8 *) cdata;
     s.p = s.data;
     s.size = *cdata_bytes;
-- 
2.43.0


From e647f8785954bc01ff12a387ec47e6416ebde5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:28 +0000
Subject: [PATCH 10/10] fix: compute tile addresses in more than 32 bits

Offsets of tiles in pictures larger than 2 GB overflowed an int, so that
other memory than the tile's was read.
---
 src/rfxencode_compose.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/rfxencode_compose.c b/src/rfxencode_compose.c
index 2489c23..005c26a 100644
--- a/src/rfxencode_compose.c
+++ b/src/rfxencode_compose.c
@@ -22,6 +22,7 @@
 #include <config_ac.h>
 #endif
 
+#include <stddef.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -506,7 +507,7 @@ rfx_compose_message_tileset(struct rfxencode *enc, STREAM *s,
                 quantIdxY = tiles[index].quant_y;
                 quantIdxCb = tiles[index].quant_cb;
                 quantIdxCr = tiles[index].quant_cr;
-                tile_data = buf + (y << 8) * (stride_bytes >> 8) + (x << 8);
+                tile_data = buf + (ptrdiff_t) (y << 8) * (stride_bytes >> 8) + (x << 8);
                 if (rfx_compose_message_tile_yuva(enc, s,
                                                   tile_data, cx, cy, stride_bytes,
                                                   quantVals,
@@ -530,7 +531,7 @@ rfx_compose_message_tileset(struct rfxencode *enc, STREAM *s,
                 quantIdxY = tiles[index].quant_y;
                 quantIdxCb = tiles[index].quant_cb;
                 quantIdxCr = tiles[index].quant_cr;
-                tile_data = buf + (y << 8) * (stride_bytes >> 8) + (x << 8);
+                tile_data = buf + (ptrdiff_t) (y << 8) * (stride_bytes >> 8) + (x << 8);
                 if (rfx_compose_message_tile_yuv(enc, s,
                                                  tile_data, cx, cy, stride_bytes,
                                                  quantVals,
@@ -557,7 +558,7 @@ rfx_compose_message_tileset(struct rfxencode *enc, STREAM *s,
                 quantIdxY = tiles[index].quant_y;
                 quantIdxCb = tiles[index].quant_cb;
                 quantIdxCr = tiles[index].quant_cr;
-                tile_data = buf + y * stride_bytes + x * (enc->bits_per_pixel / 8);
+                tile_data = buf + (ptrdiff_t) y * stride_bytes + x * (enc->bits_per_pixel / 8);
                 if (rfx_compose_message_tile_argb(enc, s,
                                                   tile_data, cx, cy, stride_bytes,
                                                   quantVals,
@@ -581,7 +582,7 @@ rfx_compose_message_tileset(struct rfxencode *enc, STREAM *s,
                 quantIdxY = tiles[index].quant_y;
                 quantIdxCb = tiles[index].quant_cb;
                 quantIdxCr = tiles[index].quant_cr;
-                tile_data = buf + y * stride_bytes + x * (enc->bits_per_pixel / 8);
+                tile_data = buf + (ptrdiff_t) y * stride_bytes + x * (enc->bits_per_pixel / 8);
                 if (rfx_compose_message_tile_rgb(enc, s,
                                                  tile_data, cx, cy, stride_bytes,
                                                  quantVals,
@@ -856,7 +857,7 @@ rfx_pro_compose_message_region(struct rfxencode *enc, STREAM *s,
         quantIdxY = tiles[index].quant_y;
         quantIdxCb = tiles[index].quant_cb;
         quantIdxCr = tiles[index].quant_cr;
-        tile_data = buf + (y << 8) * (stride_bytes >> 8) + (x << 8);
+        tile_data = buf + (ptrdiff_t) (y << 8) * (stride_bytes >> 8) + (x << 8);
         xIdx = x / 64;
         yIdx = y / 64;
         tile_start_pos = stream_get_pos(s);
-- 
2.43.0

