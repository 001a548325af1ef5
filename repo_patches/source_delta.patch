From d2ea43ffecbb26efea027961457281a6d71558f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:53 +0000
Subject: [PATCH] fix: report the level of reduced still picture sequence
 headers with the same offset as other headers

---
 src/obu.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/obu.c b/src/obu.c
index 78d652b..dea3728 100644
--- a/src/obu.c
+++ b/src/obu.c
@@ -97,7 +97,7 @@ static NOINLINE int parse_seq_hdr(Dav1dSequenceHeader *const hdr,
 
     if (hdr->reduced_still_picture_header) {
         hdr->num_operating_points = 1;
-        hdr->operating_points[0].major_level = dav1d_get_bits(gb, 3);
+        hdr->operating_points[0].major_level = 2 + dav1d_get_bits(gb, 3);
         hdr->operating_points[0].minor_level = dav1d_get_bits(gb, 2);
         hdr->operating_points[0].initial_display_delay = 10;
     } else {
-- 
2.43.0

