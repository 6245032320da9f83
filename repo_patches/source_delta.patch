From 4c106cf77005ba9b9a5d52a496de57ff73bc526b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:23 +0000
Subject: [PATCH 1/7] fix: quantize with Celebi independently of the hash map
 order of the Wu colors

---
 src/quantize/quantizer_celebi.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/quantize/quantizer_celebi.rs b/src/quantize/quantizer_celebi.rs
index f69a973..3781749 100644
--- a/src/quantize/quantizer_celebi.rs
+++ b/src/quantize/quantizer_celebi.rs
@@ -17,10 +17,14 @@ impl Quantizer for QuantizerCelebi {
             return_input_pixel_to_cluster_pixel.unwrap_or(false);
         let mut wu = QuantizerWu::new();
         let wu_result = wu.quantize(pixels, max_colors, None);
+        // A HashMap has no stable order, and k-means depends on the order of its
+        // starting clusters.
+        let mut starting_clusters: Vec<i64> = wu_result.color_to_count.keys().cloned().collect();
+        starting_clusters.sort();
         let wsmeans_result = QuantizerWsmeans::quantize(
             pixels,
             max_colors,
-            Some(&wu_result.color_to_count.keys().cloned().collect()),
+            Some(&starting_clusters),
             Some(&PointProviderLab::new()),
             None,
             Some(return_input_pixel_to_cluster_pixel),
-- 
2.43.0


From 673b509a9635136eaa9a558a02443002c8a5d1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:23 +0000
Subject: [PATCH 2/7] fix: rank equally scored colors independently of the hash
 map order

---
 src/score/score.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/score/score.rs b/src/score/score.rs
index d0343d9..ccc5751 100644
--- a/src/score/score.rs
+++ b/src/score/score.rs
@@ -89,7 +89,10 @@ impl Score {
         let mut colors_hct: Vec<Hct> = Vec::new();
         let mut hue_population = [0; 360]; //List<int>.filled(360, 0);
         let mut population_sum = 0;
-        for (key, value) in colors_to_population {
+        // A HashMap has no stable order; colors that score the same keep this one.
+        let mut entries: Vec<(&i64, &i64)> = colors_to_population.iter().collect();
+        entries.sort();
+        for (key, value) in entries {
             let argb = key;
             let population = value;
             let hct = Hct::from_int(*argb);
@@ -140,7 +143,7 @@ impl Score {
             scored_hcts.push(_ScoredHCT { hct, score })
         }
         // Sorted so that colors with higher scores come first.
-        scored_hcts.sort();
+        scored_hcts.sort_by(|a, b| b.score.total_cmp(&a.score));
 
         // Iterates through potential hue differences in degrees in order to select
         // the colors with the largest distribution of hues possible. Starting at
-- 
2.43.0


From d612a7718589cb077cd0a5b8d87c250bfc4dbb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:23 +0000
Subject: [PATCH 3/7] fix: do not answer a fractional tone from the cache of
 whole tones

---
 src/palettes/tonal_palette.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/palettes/tonal_palette.rs b/src/palettes/tonal_palette.rs
index 714d773..2153662 100644
--- a/src/palettes/tonal_palette.rs
+++ b/src/palettes/tonal_palette.rs
@@ -181,7 +181,12 @@ impl TonalPalette {
     /// If the palette is constructed from a hue and chroma (i.e. using [of] or
     /// [fromHct]), the result is generated from the given [hue] and [chroma].
     pub fn get_hct(&self, tone: f64) -> Hct {
-        let maybe_hct_int = self._cache.get(&(tone as i64));
+        // The cache holds whole tones only.
+        let maybe_hct_int = if tone.fract() == 0.0 {
+            self._cache.get(&(tone as i64))
+        } else {
+            None
+        };
 
         match maybe_hct_int {
             Some(hct_int) => Hct::from_int(*hct_int),
-- 
2.43.0


From 9e419f02d7fe8806f600b17adaa0a59b108a1cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:23 +0000
Subject: [PATCH 4/7] fix: give equal tonal palettes equal hashes

---
 src/palettes/tonal_palette.rs | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/src/palettes/tonal_palette.rs b/src/palettes/tonal_palette.rs
index 2153662..2b1e4d6 100644
--- a/src/palettes/tonal_palette.rs
+++ b/src/palettes/tonal_palette.rs
@@ -226,13 +226,9 @@ impl PartialEq for TonalPalette {
 }
 impl Hash for TonalPalette {
     fn hash<H: Hasher>(&self, state: &mut H) {
-        if !self._is_from_cache {
-            self.hue.to_ne_bytes().hash(state);
-            self.chroma.to_ne_bytes().hash(state);
-        } else {
-            let list = self.clone().get_as_list();
-            hash_vec_i64(&list, state);
-        }
+        // A palette created from hue and chroma can equal one created from a list,
+        // so only what both have in common can be hashed: the color of a tone.
+        self.get_hct(50.0).to_int().hash(state);
     }
 }
 
@@ -251,9 +247,3 @@ impl ListEquality {
         }
     }
 }
-
-fn hash_vec_i64<H: Hasher>(vec: &Vec<i64>, state: &mut H) {
-    for element in vec {
-        element.hash(state);
-    }
-}
-- 
2.43.0


From 677f700e1a3bc5139311dfab54bc15cd63c528d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:23 +0000
Subject: [PATCH 5/7] fix: do not equate dynamic schemes that resolve to
 different colors

---
 src/dynamiccolor/dynamic_scheme.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/dynamiccolor/dynamic_scheme.rs b/src/dynamiccolor/dynamic_scheme.rs
index 621e006..c7c5d4f 100644
--- a/src/dynamiccolor/dynamic_scheme.rs
+++ b/src/dynamiccolor/dynamic_scheme.rs
@@ -54,6 +54,13 @@ pub struct DynamicScheme {
     /// Given a tone, produces a reddish, colorful, color.
     pub error_palette: TonalPalette,
 }
+
+// Palettes can be equal, having the same common tones, and still differ in their
+// key colors and in every other tone.
+fn _resolve_alike(a: &TonalPalette, b: &TonalPalette) -> bool {
+    a == b && a.hue == b.hue && a.chroma == b.chroma && a.key_color == b.key_color
+}
+
 impl PartialEq for DynamicScheme {
     fn eq(&self, other: &Self) -> bool {
         self.source_color_argb == other.source_color_argb
@@ -61,12 +68,12 @@ impl PartialEq for DynamicScheme {
             && self.variant == other.variant
             && self.is_dark == other.is_dark
             && self.contrast_level == other.contrast_level
-            && self.primary_palette == other.primary_palette
-            && self.secondary_palette == other.secondary_palette
-            && self.tertiary_palette == other.tertiary_palette
-            && self.neutral_palette == other.neutral_palette
-            && self.neutral_variant_palette == other.neutral_variant_palette
-            && self.error_palette == other.error_palette
+            && _resolve_alike(&self.primary_palette, &other.primary_palette)
+            && _resolve_alike(&self.secondary_palette, &other.secondary_palette)
+            && _resolve_alike(&self.tertiary_palette, &other.tertiary_palette)
+            && _resolve_alike(&self.neutral_palette, &other.neutral_palette)
+            && _resolve_alike(&self.neutral_variant_palette, &other.neutral_variant_palette)
+            && _resolve_alike(&self.error_palette, &other.error_palette)
     }
 }
 impl Eq for DynamicScheme {}
@@ -76,7 +83,8 @@ impl Hash for DynamicScheme {
         self.source_color_hct.hash(state);
         self.variant.hash(state);
         self.is_dark.hash(state);
-        self.contrast_level.to_ne_bytes().hash(state);
+        // 0.0 and -0.0 are equal
+        (self.contrast_level + 0.0).to_ne_bytes().hash(state);
         self.primary_palette.hash(state);
         self.secondary_palette.hash(state);
         self.tertiary_palette.hash(state);
-- 
2.43.0


From f254e8aaac79161aec28995fe625dc15c30db890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:23 +0000
Subject: [PATCH 6/7] fix: change an Hct color all at once, not field by field

---
 src/hct/hct.rs | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/src/hct/hct.rs b/src/hct/hct.rs
index 31e0e15..87da97d 100644
--- a/src/hct/hct.rs
+++ b/src/hct/hct.rs
@@ -59,11 +59,7 @@ impl Hct {
     /// representation. If the HCT color is outside of the sRGB gamut, chroma
     /// will decrease until it is inside the gamut.
     pub fn set_hue(&mut self, new_hue: f64) {
-        self._argb = HctSolver::solve_to_int(new_hue, self.get_chroma(), self.get_tone());
-        let cam16 = Cam16::from_int(self._argb);
-        self._hue = cam16.hue;
-        self._chroma = cam16.chroma;
-        self._tone = ColorUtils::lstar_from_argb(self._argb);
+        *self = Hct::from(new_hue, self.get_chroma(), self.get_tone());
     }
 
     pub fn get_chroma(&self) -> f64 {
@@ -76,11 +72,7 @@ impl Hct {
     /// representation. If the HCT color is outside of the sRGB gamut, chroma
     /// will decrease until it is inside the gamut.
     pub fn set_chroma(&mut self, new_chroma: f64) {
-        self._argb = HctSolver::solve_to_int(self.get_hue(), new_chroma, self.get_tone());
-        let cam16 = Cam16::from_int(self._argb);
-        self._hue = cam16.hue;
-        self._chroma = cam16.chroma;
-        self._tone = ColorUtils::lstar_from_argb(self._argb);
+        *self = Hct::from(self.get_hue(), new_chroma, self.get_tone());
     }
 
     /// Lightness. Ranges from 0 to 100.
@@ -94,11 +86,7 @@ impl Hct {
     /// representation. If the HCT color is outside of the sRGB gamut, chroma
     /// will decrease until it is inside the gamut.
     pub fn set_tone(&mut self, new_tone: f64) {
-        self._argb = HctSolver::solve_to_int(self.get_hue(), self.get_chroma(), new_tone);
-        let cam16 = Cam16::from_int(self._argb);
-        self._hue = cam16.hue;
-        self._chroma = cam16.chroma;
-        self._tone = ColorUtils::lstar_from_argb(self._argb);
+        *self = Hct::from(self.get_hue(), self.get_chroma(), new_tone);
     }
 
     pub fn new(argb: i64) -> Hct {
-- 
2.43.0


From fd3a32c3414a22b230ed4a75b5db84b50f7cb02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:39 +0000
Subject: [PATCH 7/7] fix: cover hue 360 when listing the colors of every hue

---
 src/temperature/temperature_cache.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/temperature/temperature_cache.rs b/src/temperature/temperature_cache.rs
index 152a039..9b09ef5 100644
--- a/src/temperature/temperature_cache.rs
+++ b/src/temperature/temperature_cache.rs
@@ -284,7 +284,7 @@ impl TemperatureCache {
             return self._hcts_by_hue.clone();
         }
         let mut hcts: Vec<Hct> = Vec::new();
-        for hue in 0..360 {
+        for hue in 0..=360 {
             let hue = hue as f64;
             let color_at_hue = Hct::from(hue, self.input.get_chroma(), self.input.get_tone());
             hcts.push(color_at_hue);
-- 
2.43.0

