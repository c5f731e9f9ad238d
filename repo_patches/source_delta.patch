From 57cd9539c0afe61c0bafdef95b33959d2867bcb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:14 +0000
Subject: [PATCH 01/10] fix: sanitize_degrees_double returned 360.0 for tiny
 negative angles

---
 src/utils/math_utils.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/utils/math_utils.rs b/src/utils/math_utils.rs
index c302bcc..1f91f8c 100644
--- a/src/utils/math_utils.rs
+++ b/src/utils/math_utils.rs
@@ -69,6 +69,10 @@ impl MathUtils {
         let mut degrees = degrees % 360.0;
         if degrees < 0.0 {
             degrees = degrees + 360.0;
+            // A tiny negative angle rounds up to 360.0, which is not in range.
+            if degrees >= 360.0 {
+                degrees = 0.0;
+            }
         }
         return degrees;
     }
-- 
2.43.0


From 8a6a976ad280ba25d4b6884e9de570605e67c729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:14 +0000
Subject: [PATCH 02/10] fix: Cam16 hue of 360.0 for colors a rounding error
 below hue 0

---
 src/hct/cam16.rs | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/src/hct/cam16.rs b/src/hct/cam16.rs
index 6a48248..431c62f 100644
--- a/src/hct/cam16.rs
+++ b/src/hct/cam16.rs
@@ -162,15 +162,7 @@ impl Cam16 {
         // hue
         let atan2 = (b).atan2(a);
         let atan_degrees = atan2 * 180.0 / std::f64::consts::PI;
-        let hue: f64 = {
-            if atan_degrees < 0.0 {
-                atan_degrees + 360.0
-            } else if atan_degrees >= 360.0 {
-                atan_degrees - 360.0
-            } else {
-                atan_degrees
-            }
-        };
+        let hue = MathUtils::sanitize_degrees_double(atan_degrees);
 
         let hue_radians = hue * std::f64::consts::PI / 180.0;
         assert!(hue >= 0.0 && hue < 360.0, "hue was really $hue");
@@ -265,10 +257,7 @@ impl Cam16 {
         let m = (a * a + b * b).sqrt();
         let m = ((m * 0.0228).exp() - 1.0) / 0.0228;
         let c = m / viewing_conditions.f_lroot;
-        let mut h = (b.atan2(a)) * (180.0 / std::f64::consts::PI);
-        if h < 0.0 {
-            h += 360.0;
-        }
+        let h = MathUtils::sanitize_degrees_double(b.atan2(a) * (180.0 / std::f64::consts::PI));
         let j = jstar / (1.0 - (jstar - 100.0) * 0.007);
 
         return Self::from_jch_in_viewing_conditions(j, c, h, viewing_conditions);
-- 
2.43.0


From 2091598a78fcfe18b1156c8e826594486a3dbb0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:14 +0000
Subject: [PATCH 03/10] fix: TemperatureCache panicked for hues that round to
 360

---
 src/temperature/temperature_cache.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/temperature/temperature_cache.rs b/src/temperature/temperature_cache.rs
index 152a039..9b09ef5 100644
--- a/src/temperature/temperature_cache.rs
+++ b/src/temperature/temperature_cache.rs
@@ -284,7 +284,7 @@ impl TemperatureCache {
             return self._hcts_by_hue.clone();
         }
         let mut hcts: Vec<Hct> = Vec::new();
-        for hue in 0..360 {
+        for hue in 0..=360 {
             let hue = hue as f64;
             let color_at_hue = Hct::from(hue, self.input.get_chroma(), self.input.get_tone());
             hcts.push(color_at_hue);
-- 
2.43.0


From a26a32c10804339ac398d05f9ef125477dea9a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:14 +0000
Subject: [PATCH 04/10] fix: TonalPalette::get_hct answered fractional tones
 from the cache of the truncated tone

---
 src/palettes/tonal_palette.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/palettes/tonal_palette.rs b/src/palettes/tonal_palette.rs
index 714d773..8c670a0 100644
--- a/src/palettes/tonal_palette.rs
+++ b/src/palettes/tonal_palette.rs
@@ -181,7 +181,13 @@ impl TonalPalette {
     /// If the palette is constructed from a hue and chroma (i.e. using [of] or
     /// [fromHct]), the result is generated from the given [hue] and [chroma].
     pub fn get_hct(&self, tone: f64) -> Hct {
-        let maybe_hct_int = self._cache.get(&(tone as i64));
+        // Only whole tones are cached: a fractional tone must not be answered
+        // with the color of the tone it truncates to.
+        let maybe_hct_int = if tone.fract() == 0.0 {
+            self._cache.get(&(tone as i64))
+        } else {
+            None
+        };
 
         match maybe_hct_int {
             Some(hct_int) => Hct::from_int(*hct_int),
-- 
2.43.0


From b5348c6b5fa0ce226b725020f008065c6ae87a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:11 +0000
Subject: [PATCH 05/10] fix: get_rotated_hue found no rotation for a hue on a
 breakpoint

The intervals were open at both ends, so a source hue equal to an entry of
the table (black has hue 0.0 exactly) fell through to the branch that should
never be reached, and SchemeVibrant and SchemeExpressive did not rotate the
secondary and tertiary palettes.
---
 src/dynamiccolor/dynamic_scheme.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynamiccolor/dynamic_scheme.rs b/src/dynamiccolor/dynamic_scheme.rs
index 621e006..376f2fc 100644
--- a/src/dynamiccolor/dynamic_scheme.rs
+++ b/src/dynamiccolor/dynamic_scheme.rs
@@ -124,7 +124,7 @@ impl DynamicScheme {
         while i <= (size - 2) {
             let this_hue = hues[i as usize];
             let next_hue = hues[i as usize + 1];
-            if this_hue < source_hue && source_hue < next_hue {
+            if this_hue <= source_hue && source_hue < next_hue {
                 return MathUtils::sanitize_degrees_double(source_hue + rotations[i as usize]);
             }
             i += 1;
-- 
2.43.0


From cd702168605254b124262b818f60b14b0330bc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:59 +0000
Subject: [PATCH 06/10] fix: start k-means from the Wu colours in a fixed order

QuantizerCelebi took the starting clusters in the iteration order of a HashMap,
which differs from run to run, so the same image gave different colours.
---
 src/quantize/quantizer_celebi.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/quantize/quantizer_celebi.rs b/src/quantize/quantizer_celebi.rs
index f69a973..b1e7baf 100644
--- a/src/quantize/quantizer_celebi.rs
+++ b/src/quantize/quantizer_celebi.rs
@@ -17,10 +17,14 @@ impl Quantizer for QuantizerCelebi {
             return_input_pixel_to_cluster_pixel.unwrap_or(false);
         let mut wu = QuantizerWu::new();
         let wu_result = wu.quantize(pixels, max_colors, None);
+        // The result depends on the order of the starting clusters, and a HashMap
+        // iterates in a different order every time.
+        let mut starting_clusters: Vec<i64> = wu_result.color_to_count.keys().cloned().collect();
+        starting_clusters.sort();
         let wsmeans_result = QuantizerWsmeans::quantize(
             pixels,
             max_colors,
-            Some(&wu_result.color_to_count.keys().cloned().collect()),
+            Some(&starting_clusters),
             Some(&PointProviderLab::new()),
             None,
             Some(return_input_pixel_to_cluster_pixel),
-- 
2.43.0


From 43e377ec2b8b6a673f8681c1d57434a46f3e1216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:58 +0000
Subject: [PATCH 07/10] fix: palettes and schemes with 0.0 and -0.0 compare
 equal but hashed differently

---
 src/dynamiccolor/dynamic_scheme.rs | 3 ++-
 src/palettes/tonal_palette.rs      | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/dynamiccolor/dynamic_scheme.rs b/src/dynamiccolor/dynamic_scheme.rs
index 376f2fc..737f512 100644
--- a/src/dynamiccolor/dynamic_scheme.rs
+++ b/src/dynamiccolor/dynamic_scheme.rs
@@ -76,7 +76,8 @@ impl Hash for DynamicScheme {
         self.source_color_hct.hash(state);
         self.variant.hash(state);
         self.is_dark.hash(state);
-        self.contrast_level.to_ne_bytes().hash(state);
+        // -0.0 == 0.0, so they must hash alike; adding 0.0 turns -0.0 into 0.0.
+        (self.contrast_level + 0.0).to_ne_bytes().hash(state);
         self.primary_palette.hash(state);
         self.secondary_palette.hash(state);
         self.tertiary_palette.hash(state);
diff --git a/src/palettes/tonal_palette.rs b/src/palettes/tonal_palette.rs
index 8c670a0..7955959 100644
--- a/src/palettes/tonal_palette.rs
+++ b/src/palettes/tonal_palette.rs
@@ -228,8 +228,9 @@ impl PartialEq for TonalPalette {
 impl Hash for TonalPalette {
     fn hash<H: Hasher>(&self, state: &mut H) {
         if !self._is_from_cache {
-            self.hue.to_ne_bytes().hash(state);
-            self.chroma.to_ne_bytes().hash(state);
+            // -0.0 == 0.0, so they must hash alike; adding 0.0 turns -0.0 into 0.0.
+            (self.hue + 0.0).to_ne_bytes().hash(state);
+            (self.chroma + 0.0).to_ne_bytes().hash(state);
         } else {
             let list = self.clone().get_as_list();
             hash_vec_i64(&list, state);
-- 
2.43.0


From 932654b7deed9fc7ab176a61af3f692a0077c0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:41 +0000
Subject: [PATCH 08/10] fix: Wu quantizer lost a box whenever a box could not
 be cut

---
 src/quantize/quantizer_wu.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/quantize/quantizer_wu.rs b/src/quantize/quantizer_wu.rs
index 4391115..b1873f1 100644
--- a/src/quantize/quantizer_wu.rs
+++ b/src/quantize/quantizer_wu.rs
@@ -149,7 +149,8 @@ impl QuantizerWu {
         let mut volume_variance: Vec<f64> = vec![0.0; max_color_count as usize];
         let mut next: i64 = 0;
         let mut generated_color_count: i64 = max_color_count;
-        for mut i in 1..max_color_count {
+        let mut i: i64 = 1;
+        while i < max_color_count {
             let one = next as usize;
             let two = i as usize;
             if self.cut(one, two) {
@@ -180,6 +181,7 @@ impl QuantizerWu {
                 generated_color_count = i + 1;
                 break;
             }
+            i += 1;
         }
 
         return CreateBoxesResult::new(max_color_count, generated_color_count);
-- 
2.43.0


From 3a9519676d3d20e379bd7cb8e168090320d6592b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:41 +0000
Subject: [PATCH 09/10] fix: Wu quantizer truncated the average colour of a box
 instead of rounding it

---
 src/quantize/quantizer_wu.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/quantize/quantizer_wu.rs b/src/quantize/quantizer_wu.rs
index b1873f1..cf23e02 100644
--- a/src/quantize/quantizer_wu.rs
+++ b/src/quantize/quantizer_wu.rs
@@ -193,11 +193,14 @@ impl QuantizerWu {
             let cube = &self.cubes[i as usize];
             let weight: i64 = Self::volume(cube.clone(), self.weights.clone());
             if weight > 0 {
-                let r: i64 = ((Self::volume(cube.clone(), self.moments_r.clone()) / weight) as f64)
+                let r: i64 = (Self::volume(cube.clone(), self.moments_r.clone()) as f64
+                    / weight as f64)
                     .round() as i64;
-                let g: i64 = ((Self::volume(cube.clone(), self.moments_g.clone()) / weight) as f64)
+                let g: i64 = (Self::volume(cube.clone(), self.moments_g.clone()) as f64
+                    / weight as f64)
                     .round() as i64;
-                let b: i64 = ((Self::volume(cube.clone(), self.moments_b.clone()) / weight) as f64)
+                let b: i64 = (Self::volume(cube.clone(), self.moments_b.clone()) as f64
+                    / weight as f64)
                     .round() as i64;
                 let color: i64 = ColorUtils::argb_from_rgb(r, g, b);
                 colors.push(color);
-- 
2.43.0


From f8ba55a1dc2d502a51d1c9770785d98220aa11de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:36 +0000
Subject: [PATCH 10/10] fix: k-means compared pixels with the distances of the
 wrong clusters

Each row of distances was sorted, and then looked up by cluster number to
decide which clusters a pixel need not be compared with, so that with three
or more clusters a pixel could be kept from the cluster nearest to it.
---
 src/quantize/quantizer_wsmeans.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/quantize/quantizer_wsmeans.rs b/src/quantize/quantizer_wsmeans.rs
index 16f8cdc..942910e 100644
--- a/src/quantize/quantizer_wsmeans.rs
+++ b/src/quantize/quantizer_wsmeans.rs
@@ -176,7 +176,6 @@ impl QuantizerWsmeans {
                     distance_to_index_matrix[i as usize][j as usize].distance = distance;
                     distance_to_index_matrix[i as usize][j as usize].index = j;
                 }
-                distance_to_index_matrix[i as usize].sort();
                 for j in 0..cluster_count {
                     index_matrix[i as usize][j as usize] =
                         distance_to_index_matrix[i as usize][j as usize].index;
-- 
2.43.0

