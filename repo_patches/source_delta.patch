From 5afe6718194fc7e50575179b3416519b06569399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:54 +0000
Subject: [PATCH 01/73] verif: guarded hooks exposing renderer internals to
 contract checks

---
 crates/ass-renderer/src/backends/software/mod.rs | 16 ++++++++++++++++
 crates/ass-renderer/src/lib.rs                   | 15 +++++++++++++++
 crates/ass-renderer/src/utils/mod.rs             |  6 ++++++
 3 files changed, 37 insertions(+)

diff --git a/crates/ass-renderer/src/backends/software/mod.rs b/crates/ass-renderer/src/backends/software/mod.rs
index d2797ed..6b7ae6f 100644
--- a/crates/ass-renderer/src/backends/software/mod.rs
+++ b/crates/ass-renderer/src/backends/software/mod.rs
@@ -245,3 +245,19 @@ impl RenderBackend for SoftwareBackend {
         Some(self.metrics.clone())
     }
 }
+
+/// Verification hooks (see the crate-level module of the same name).
+#[cfg(all(ass_verif, not(feature = "nostd")))]
+pub mod verif_hooks {
+    /// Forwards to the private scratch-clearing helper.
+    pub fn clear_region(pixmap: &mut tiny_skia::Pixmap, region: (i32, i32, u32, u32)) {
+        super::dirty::clear_region(pixmap, region);
+    }
+    /// Forwards to the private scratch-cropping helper.
+    pub fn crop_pixmap(
+        pixmap: &tiny_skia::Pixmap,
+        hint: Option<(i32, i32, i32, i32)>,
+    ) -> Option<crate::backends::coverage::RenderBitmap> {
+        super::dirty::crop_pixmap(pixmap, hint)
+    }
+}
diff --git a/crates/ass-renderer/src/lib.rs b/crates/ass-renderer/src/lib.rs
index 5c0fbdb..75bd27d 100644
--- a/crates/ass-renderer/src/lib.rs
+++ b/crates/ass-renderer/src/lib.rs
@@ -10,6 +10,7 @@
 #![allow(missing_docs)] // Allow missing docs for struct fields to reduce noise
 #![allow(dead_code)] // Allow dead code for work-in-progress features
 #![allow(unused_variables)] // Allow unused variables in development code
+#![allow(unexpected_cfgs)] // `cfg(ass_verif)` guards the verification hooks
 
 #[cfg(feature = "nostd")]
 extern crate alloc;
@@ -46,3 +47,17 @@ pub use ass_core::parser::{Event, Script, Section, Style};
 
 /// Library version
 pub const VERSION: &str = env!("CARGO_PKG_VERSION");
+
+/// Verification hooks: crate-private items re-exported for the contract checks.
+/// Compiled only with `RUSTFLAGS="--cfg ass_verif"`.
+#[cfg(all(ass_verif, feature = "software-backend", not(feature = "nostd")))]
+pub mod verif_hooks {
+    pub use crate::backends::software::verif_hooks::{clear_region, crop_pixmap};
+    pub use crate::pipeline::animation::{calculate_fade_progress, calculate_move_progress};
+    pub use crate::pipeline::shaping::ShapedText;
+    pub use crate::pipeline::tag_processor::{parse_alpha, parse_fade_args, parse_move_args};
+    pub use crate::pipeline::transform::{
+        interpolate_alpha, interpolate_color, interpolate_f32, TransformAnimation,
+    };
+    pub use crate::utils::verif_hooks::{AtlasRegion, CachedGlyph, GlyphKey};
+}
diff --git a/crates/ass-renderer/src/utils/mod.rs b/crates/ass-renderer/src/utils/mod.rs
index 919d97c..74fb844 100644
--- a/crates/ass-renderer/src/utils/mod.rs
+++ b/crates/ass-renderer/src/utils/mod.rs
@@ -9,3 +9,9 @@ pub use caches::{GlyphCache, TextureAtlas};
 pub use errors::RenderError;
 pub use math::{cubic_bezier, lerp, Matrix3x3, Transform2D};
 pub use regions::DirtyRegion;
+
+/// Verification hooks (see the crate-level module of the same name).
+#[cfg(ass_verif)]
+pub mod verif_hooks {
+    pub use super::caches::{AtlasRegion, CachedGlyph, GlyphKey};
+}
-- 
2.43.0


From b8685eda72053c53b15d835fcfe5838b4dfb85e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:54 +0000
Subject: [PATCH 02/73] fix: event selector time-jump test overflowed for
 timestamps past 2^31 cs

---
 crates/ass-renderer/src/renderer/event_selector.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/ass-renderer/src/renderer/event_selector.rs b/crates/ass-renderer/src/renderer/event_selector.rs
index d2f9ae8..f813bea 100644
--- a/crates/ass-renderer/src/renderer/event_selector.rs
+++ b/crates/ass-renderer/src/renderer/event_selector.rs
@@ -154,7 +154,7 @@ impl EventSelector {
             || self.has_animated_events(&active_events, time_cs)
             || self
                 .last_timestamp
-                .is_none_or(|last| (time_cs as i32 - last as i32).abs() > 100);
+                .is_none_or(|last| time_cs.abs_diff(last) > 100);
 
         // Update state
         self.previous_active = current_active;
-- 
2.43.0


From 927ed641fd0a099f4bbd928912950d727d52eecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:54 +0000
Subject: [PATCH 03/73] fix: selector dirty-region merge overflowed for regions
 near u32::MAX

---
 .../src/renderer/event_selector.rs             | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/crates/ass-renderer/src/renderer/event_selector.rs b/crates/ass-renderer/src/renderer/event_selector.rs
index f813bea..da7c07a 100644
--- a/crates/ass-renderer/src/renderer/event_selector.rs
+++ b/crates/ass-renderer/src/renderer/event_selector.rs
@@ -219,8 +219,14 @@ impl EventSelector {
                 // Expand existing region
                 let min_x = region.x.min(x);
                 let min_y = region.y.min(y);
-                let max_x = (region.x + region.width).max(x + width);
-                let max_y = (region.y + region.height).max(y + height);
+                let max_x = region
+                    .x
+                    .saturating_add(region.width)
+                    .max(x.saturating_add(width));
+                let max_y = region
+                    .y
+                    .saturating_add(region.height)
+                    .max(y.saturating_add(height));
                 region.x = min_x;
                 region.y = min_y;
                 region.width = max_x - min_x;
@@ -239,10 +245,10 @@ impl EventSelector {
 
     /// Check if two regions overlap
     fn regions_overlap(region: &DirtyRegion, x: u32, y: u32, width: u32, height: u32) -> bool {
-        !(x >= region.x + region.width
-            || x + width <= region.x
-            || y >= region.y + region.height
-            || y + height <= region.y)
+        !(x >= region.x.saturating_add(region.width)
+            || x.saturating_add(width) <= region.x
+            || y >= region.y.saturating_add(region.height)
+            || y.saturating_add(height) <= region.y)
     }
 
     /// Get current dirty regions
-- 
2.43.0


From 131c306cae7dd108529f104082b89096ff4f78f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:20 +0000
Subject: [PATCH 04/73] fix: event selector reused a stale time index for a new
 script at the same address

---
 .../src/renderer/event_selector.rs            |  2 +-
 .../ass-renderer/src/renderer/time_index.rs   | 25 +++++++++++++++----
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/crates/ass-renderer/src/renderer/event_selector.rs b/crates/ass-renderer/src/renderer/event_selector.rs
index da7c07a..42efdbf 100644
--- a/crates/ass-renderer/src/renderer/event_selector.rs
+++ b/crates/ass-renderer/src/renderer/event_selector.rs
@@ -175,7 +175,7 @@ impl EventSelector {
     /// kept, so each event's start/end time string is parsed only once per script
     /// rather than on every frame.
     fn ensure_index(&mut self, events: &[Event]) {
-        let key = (events.as_ptr() as usize, events.len(), self.render_comments);
+        let key = TimeIndex::key_for(events, self.render_comments);
         if self
             .time_index
             .as_ref()
diff --git a/crates/ass-renderer/src/renderer/time_index.rs b/crates/ass-renderer/src/renderer/time_index.rs
index 8e065a3..a42856a 100644
--- a/crates/ass-renderer/src/renderer/time_index.rs
+++ b/crates/ass-renderer/src/renderer/time_index.rs
@@ -1,5 +1,8 @@
 //! Parsed timing index used by the event selector for incremental rendering.
 
+use core::hash::{Hash, Hasher};
+
+use ahash::AHasher;
 use ass_core::parser::{ast::EventType, Event};
 
 #[cfg(feature = "nostd")]
@@ -7,17 +10,29 @@ use alloc::vec::Vec;
 
 /// Parsed, start-sorted timing index for a script's events.
 ///
-/// Keyed by the events `Vec`'s address, length, and the comment-rendering flag,
-/// so it is reused across frames and rebuilt only when the script (or that flag)
-/// changes. Each entry is `(start_cs, end_cs, original_index)`; the original
+/// Keyed by a fingerprint of the events' types and times, their count, and the
+/// comment-rendering flag, so it is reused across frames and rebuilt only when the
+/// script (or that flag) changes. The events' address alone would not do: a new
+/// script is often allocated where a dropped one used to live. Each entry is `(start_cs, end_cs, original_index)`; the original
 /// index preserves file-order rendering when active events are emitted.
 #[derive(Debug, Clone)]
 pub(super) struct TimeIndex {
-    pub(super) key: (usize, usize, bool),
+    pub(super) key: (u64, usize, bool),
     pub(super) by_start: Vec<(u32, u32, usize)>,
 }
 
 impl TimeIndex {
+    /// Identity of the timing data in `events`, used to detect a stale index.
+    pub(super) fn key_for(events: &[Event], render_comments: bool) -> (u64, usize, bool) {
+        let mut hasher = AHasher::default();
+        for event in events {
+            core::mem::discriminant(&event.event_type).hash(&mut hasher);
+            event.start.hash(&mut hasher);
+            event.end.hash(&mut hasher);
+        }
+        (hasher.finish(), events.len(), render_comments)
+    }
+
     /// Build the parsed time index for `events`.
     ///
     /// Each included event's start/end time string is parsed once here, and the
@@ -25,7 +40,7 @@ impl TimeIndex {
     /// per-frame scan with `partition_point`. `Dialogue` events are always
     /// included; `Comment` events only when `render_comments` is set.
     pub(super) fn build(events: &[Event], render_comments: bool) -> Self {
-        let key = (events.as_ptr() as usize, events.len(), render_comments);
+        let key = Self::key_for(events, render_comments);
 
         let mut by_start = Vec::new();
         for (idx, event) in events.iter().enumerate() {
-- 
2.43.0


From faedbffa88005797f334d31b8172443e7f7dcfff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:20 +0000
Subject: [PATCH 05/73] fix: DirtyRegion merge and contains_point overflowed
 for full-screen regions

---
 crates/ass-renderer/src/utils/regions.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/crates/ass-renderer/src/utils/regions.rs b/crates/ass-renderer/src/utils/regions.rs
index f14ee8a..74d0661 100644
--- a/crates/ass-renderer/src/utils/regions.rs
+++ b/crates/ass-renderer/src/utils/regions.rs
@@ -49,20 +49,23 @@ impl DirtyRegion {
     pub fn merge(&self, other: &Self) -> Self {
         let x1 = self.x.min(other.x);
         let y1 = self.y.min(other.y);
-        let x2 = (self.x + self.width).max(other.x + other.width);
-        let y2 = (self.y + self.height).max(other.y + other.height);
+        // Far edges can exceed `u32` (e.g. `full_screen`), so measure them in `u64`.
+        let far = |start: u32, len: u32| u64::from(start) + u64::from(len);
+        let x2 = far(self.x, self.width).max(far(other.x, other.width));
+        let y2 = far(self.y, self.height).max(far(other.y, other.height));
+        let span = |end: u64, start: u32| u32::try_from(end - u64::from(start)).unwrap_or(u32::MAX);
 
         Self {
             x: x1,
             y: y1,
-            width: x2 - x1,
-            height: y2 - y1,
+            width: span(x2, x1),
+            height: span(y2, y1),
         }
     }
 
     /// Check if region contains point
     pub fn contains_point(&self, x: u32, y: u32) -> bool {
-        x >= self.x && x < self.x + self.width && y >= self.y && y < self.y + self.height
+        x >= self.x && x - self.x < self.width && y >= self.y && y - self.y < self.height
     }
 
     /// Get area of region
-- 
2.43.0


From cb82c9942363382d94cbeadea31c49a2034d92b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:47 +0000
Subject: [PATCH 06/73] fix: TextureAtlas handed out regions wider than the
 atlas

---
 crates/ass-renderer/src/utils/caches.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/ass-renderer/src/utils/caches.rs b/crates/ass-renderer/src/utils/caches.rs
index 82900e7..f1398e1 100644
--- a/crates/ass-renderer/src/utils/caches.rs
+++ b/crates/ass-renderer/src/utils/caches.rs
@@ -125,15 +125,20 @@ impl TextureAtlas {
 
     /// Allocate a region in the atlas
     pub fn allocate(&mut self, width: u32, height: u32) -> Option<AtlasRegion> {
+        // A region larger than the atlas can never be placed
+        if width > self.width || height > self.height {
+            return None;
+        }
+
         // Simple row-based packing
-        if self.next_x + width > self.width {
+        if width > self.width - self.next_x {
             // Move to next row
             self.next_x = 0;
             self.next_y += self.row_height;
             self.row_height = 0;
         }
 
-        if self.next_y + height > self.height {
+        if height > self.height - self.next_y {
             // Atlas is full
             return None;
         }
-- 
2.43.0


From 6274564242d96c1892ee5b24265fe7c2731eb9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:47 +0000
Subject: [PATCH 07/73] fix: render caches exceeded a zero limit and evicted
 other entries on overwrite

---
 crates/ass-renderer/src/cache/mod.rs    | 14 ++++++++++++--
 crates/ass-renderer/src/utils/caches.rs |  5 ++++-
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/crates/ass-renderer/src/cache/mod.rs b/crates/ass-renderer/src/cache/mod.rs
index 71dd429..f3ca78b 100644
--- a/crates/ass-renderer/src/cache/mod.rs
+++ b/crates/ass-renderer/src/cache/mod.rs
@@ -101,7 +101,12 @@ impl RenderCache {
     /// Store shaped text in cache
     pub fn store_shaped_text(&mut self, key: TextCacheKey, shaped: ShapedText) -> Arc<ShapedText> {
         // Evict if at capacity
-        if self.shaped_text_cache.len() >= self.max_shaped_entries {
+        if self.max_shaped_entries == 0 {
+            return Arc::new(shaped);
+        }
+        if self.shaped_text_cache.len() >= self.max_shaped_entries
+            && !self.shaped_text_cache.contains_key(&key)
+        {
             // Simple LRU: remove first item (not ideal but simple)
             if let Some(first_key) = self.shaped_text_cache.keys().next().cloned() {
                 self.shaped_text_cache.remove(&first_key);
@@ -128,7 +133,12 @@ impl RenderCache {
     /// Store drawing path in cache
     pub fn store_drawing_path(&mut self, key: DrawingCacheKey, path: Option<Path>) {
         // Evict if at capacity
-        if self.drawing_path_cache.len() >= self.max_drawing_entries {
+        if self.max_drawing_entries == 0 {
+            return;
+        }
+        if self.drawing_path_cache.len() >= self.max_drawing_entries
+            && !self.drawing_path_cache.contains_key(&key)
+        {
             if let Some(first_key) = self.drawing_path_cache.keys().next().cloned() {
                 self.drawing_path_cache.remove(&first_key);
                 self.stats.evictions += 1;
diff --git a/crates/ass-renderer/src/utils/caches.rs b/crates/ass-renderer/src/utils/caches.rs
index f1398e1..7c89964 100644
--- a/crates/ass-renderer/src/utils/caches.rs
+++ b/crates/ass-renderer/src/utils/caches.rs
@@ -58,7 +58,10 @@ impl GlyphCache {
 
     /// Insert a glyph into the cache
     pub fn insert(&mut self, key: GlyphKey, glyph: CachedGlyph) {
-        if self.cache.len() >= self.max_entries {
+        if self.max_entries == 0 {
+            return;
+        }
+        if self.cache.len() >= self.max_entries && !self.cache.contains_key(&key) {
             // Simple eviction: remove first entry
             if let Some(first_key) = self.cache.keys().next().cloned() {
                 self.cache.remove(&first_key);
-- 
2.43.0


From 546f614c4600e25468d35ea8f5b62142bedd1277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:47 +0000
Subject: [PATCH 08/73] fix: fade tag with decreasing times underflowed while
 parsing

---
 crates/ass-renderer/src/pipeline/tag_processor/parse.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/ass-renderer/src/pipeline/tag_processor/parse.rs b/crates/ass-renderer/src/pipeline/tag_processor/parse.rs
index a544251..76d19eb 100644
--- a/crates/ass-renderer/src/pipeline/tag_processor/parse.rs
+++ b/crates/ass-renderer/src/pipeline/tag_processor/parse.rs
@@ -174,8 +174,8 @@ pub fn parse_fade_args(args: &str) -> Option<FadeData> {
                 time_start: t1,
                 time_end: t4,
                 alpha_middle: Some(alpha2),
-                time_fade_in: Some(t2 - t1),
-                time_fade_out: Some(t4 - t3),
+                time_fade_in: Some(t2.saturating_sub(t1)),
+                time_fade_out: Some(t4.saturating_sub(t3)),
             });
         }
     }
-- 
2.43.0


From 0fa2060d327356d1720f3efa681462d8ea52fb48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:47 +0000
Subject: [PATCH 09/73] fix: transform and move timing overflowed for very late
 timestamps

---
 crates/ass-renderer/src/pipeline/build/animation.rs | 2 +-
 crates/ass-renderer/src/pipeline/build/position.rs  | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/ass-renderer/src/pipeline/build/animation.rs b/crates/ass-renderer/src/pipeline/build/animation.rs
index 932335d..9a788ca 100644
--- a/crates/ass-renderer/src/pipeline/build/animation.rs
+++ b/crates/ass-renderer/src/pipeline/build/animation.rs
@@ -27,7 +27,7 @@ impl super::SoftwarePipeline {
 
             // Calculate time relative to event start (convert to milliseconds for animation)
             let relative_time_ms = if current_time_cs >= event_start_cs {
-                (current_time_cs - event_start_cs) * 10 // Convert centiseconds to milliseconds
+                (current_time_cs - event_start_cs).saturating_mul(10) // Convert centiseconds to milliseconds
             } else {
                 0
             };
diff --git a/crates/ass-renderer/src/pipeline/build/position.rs b/crates/ass-renderer/src/pipeline/build/position.rs
index 5525867..0643d57 100644
--- a/crates/ass-renderer/src/pipeline/build/position.rs
+++ b/crates/ass-renderer/src/pipeline/build/position.rs
@@ -142,7 +142,10 @@ impl super::SoftwarePipeline {
             let (move_start_cs, move_end_cs) = if t1 == 0 && t2 == 0 {
                 (event_start_cs, event_end_cs)
             } else {
-                (event_start_cs + t1, event_start_cs + t2)
+                (
+                    event_start_cs.saturating_add(t1),
+                    event_start_cs.saturating_add(t2),
+                )
             };
 
             let progress = calculate_move_progress(time_cs, move_start_cs, move_end_cs);
-- 
2.43.0


From 3ce5cb7b4b26eb13dddcb2cb949f42873006d826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:47 +0000
Subject: [PATCH 10/73] fix: integer animation overflowed for endpoints more
 than i32::MAX apart

---
 crates/ass-renderer/src/animation/value.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/ass-renderer/src/animation/value.rs b/crates/ass-renderer/src/animation/value.rs
index 98febc4..4f86f98 100644
--- a/crates/ass-renderer/src/animation/value.rs
+++ b/crates/ass-renderer/src/animation/value.rs
@@ -47,8 +47,12 @@ impl AnimatedValue {
 
         match self {
             Self::Integer { from, to } => {
-                let value = *from + ((to - from) as f32 * t) as i32;
-                AnimatedResult::Integer(value)
+                // The span of two `i32`s needs 33 bits, and the `f32` product may
+                // round past the far endpoint.
+                let span = i64::from(*to) - i64::from(*from);
+                let value = i64::from(*from) + (span as f32 * t) as i64;
+                let value = value.clamp(i64::from(*from.min(to)), i64::from(*from.max(to)));
+                AnimatedResult::Integer(value as i32)
             }
             Self::Float { from, to } => {
                 let value = from + (to - from) * t;
-- 
2.43.0


From 1b16fab8dd7ff32b15d23934ef72d85a23e11977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:47 +0000
Subject: [PATCH 11/73] fix: animation controller panicked on inverted event
 times or parentheses

---
 crates/ass-renderer/src/animation/controller.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/ass-renderer/src/animation/controller.rs b/crates/ass-renderer/src/animation/controller.rs
index 5190bb9..fa04254 100644
--- a/crates/ass-renderer/src/animation/controller.rs
+++ b/crates/ass-renderer/src/animation/controller.rs
@@ -39,8 +39,11 @@ impl AnimationController {
         event_end: u32,
     ) -> Result<(), RenderError> {
         let timing = AnimationTiming::new(
-            event_start + tag.t1.unwrap_or(0),
-            event_start + tag.t2.unwrap_or(event_end - event_start),
+            event_start.saturating_add(tag.t1.unwrap_or(0)),
+            event_start.saturating_add(
+                tag.t2
+                    .unwrap_or_else(|| event_end.saturating_sub(event_start)),
+            ),
             tag.accel.unwrap_or(1.0),
         );
 
@@ -195,7 +198,7 @@ fn extract_values(modifier: &str) -> Option<Vec<&str>> {
     // Find content between parentheses
     let start = modifier.find('(')?;
     let end = modifier.find(')')?;
-    let content = &modifier[start + 1..end];
+    let content = modifier.get(start + 1..end)?;
     Some(content.split(',').collect())
 }
 
-- 
2.43.0


From a13bb632e7427235a521f37b3ff6999a2cd4c2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:21 +0000
Subject: [PATCH 12/73] fix: parse_ass_time overflowed on hours or centiseconds
 past the u32 range

---
 crates/ass-core/utils/time.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/ass-core/utils/time.rs b/crates/ass-core/utils/time.rs
index 53f1a4b..9a64e1c 100644
--- a/crates/ass-core/utils/time.rs
+++ b/crates/ass-core/utils/time.rs
@@ -83,7 +83,11 @@ pub fn parse_ass_time(time_str: &str) -> Result<u32, CoreError> {
         )));
     }
 
-    Ok(hours * 360_000 + minutes * 6_000 + seconds * 100 + centiseconds)
+    let total = u64::from(hours) * 360_000
+        + u64::from(minutes * 6_000 + seconds * 100)
+        + u64::from(centiseconds);
+    u32::try_from(total)
+        .map_err(|_| CoreError::InvalidTime(format!("Time out of range: {time_str}")))
 }
 
 /// Format centiseconds back to ASS time format
-- 
2.43.0


From 471bea77a9313579e6e04623ebced01c56f89e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:21 +0000
Subject: [PATCH 13/73] fix: animation score overflowed u8 for events with many
 tags

---
 crates/ass-core/analysis/events/scoring/calculators.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/ass-core/analysis/events/scoring/calculators.rs b/crates/ass-core/analysis/events/scoring/calculators.rs
index 2f36afa..29b46b9 100644
--- a/crates/ass-core/analysis/events/scoring/calculators.rs
+++ b/crates/ass-core/analysis/events/scoring/calculators.rs
@@ -51,7 +51,7 @@ pub fn calculate_animation_score(tags: &[OverrideTag<'_>]) -> u8 {
             "p" => 8,
             _ => 2,
         })
-        .sum::<u8>()
+        .fold(0, |score: u8, points| score.saturating_add(points))
         .min(10)
 }
 
-- 
2.43.0


From 381d7e45f1d3d8fca0570b491d498696610b157a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:21 +0000
Subject: [PATCH 14/73] fix: overlap sweep reported empty events as overlapping
 everything after them

---
 crates/ass-core/analysis/events/overlap/detection.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/ass-core/analysis/events/overlap/detection.rs b/crates/ass-core/analysis/events/overlap/detection.rs
index 25031f3..a69e38f 100644
--- a/crates/ass-core/analysis/events/overlap/detection.rs
+++ b/crates/ass-core/analysis/events/overlap/detection.rs
@@ -31,6 +31,12 @@ where
     for (index, event) in events.enumerate() {
         let (start_time, end_time) = get_times(index, event)?;
 
+        // An event that is never on screen overlaps nothing, and its end would
+        // sort before its start and leave it active for good.
+        if end_time <= start_time {
+            continue;
+        }
+
         sweep_events.push(SweepEvent {
             time: start_time,
             event_type: SweepEventType::Start,
-- 
2.43.0


From 5b4f5c64c219395251c510bbf8ae2e7059f0af57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:21 +0000
Subject: [PATCH 15/73] fix: dialogue duration helpers overflowed for very long
 events

---
 crates/ass-core/analysis/events/dialogue_info/accessors.rs | 2 +-
 crates/ass-core/analysis/events/utils/duration.rs          | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/ass-core/analysis/events/dialogue_info/accessors.rs b/crates/ass-core/analysis/events/dialogue_info/accessors.rs
index e63daca..27c7d43 100644
--- a/crates/ass-core/analysis/events/dialogue_info/accessors.rs
+++ b/crates/ass-core/analysis/events/dialogue_info/accessors.rs
@@ -16,7 +16,7 @@ impl<'a> DialogueInfo<'a> {
     /// Get event duration in milliseconds
     #[must_use]
     pub const fn duration_ms(&self) -> u32 {
-        (self.end_cs - self.start_cs) * 10
+        (self.end_cs - self.start_cs).saturating_mul(10)
     }
 
     /// Get event duration in centiseconds
diff --git a/crates/ass-core/analysis/events/utils/duration.rs b/crates/ass-core/analysis/events/utils/duration.rs
index 2c40258..cbeb9ad 100644
--- a/crates/ass-core/analysis/events/utils/duration.rs
+++ b/crates/ass-core/analysis/events/utils/duration.rs
@@ -76,6 +76,6 @@ pub fn calculate_average_duration(events: &[DialogueInfo<'_>]) -> Option<u32> {
         return None;
     }
 
-    let total_duration: u32 = events.iter().map(DialogueInfo::duration_cs).sum();
-    Some(total_duration / u32::try_from(events.len()).unwrap_or(u32::MAX))
+    let total_duration: u64 = events.iter().map(|e| u64::from(e.duration_cs())).sum();
+    u32::try_from(total_duration / events.len() as u64).ok()
 }
-- 
2.43.0


From e667776a15da7b327232c29b61cb0817f16ba39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:21 +0000
Subject: [PATCH 16/73] fix: batch UTF-8 validation reported error offsets
 relative to the last chunk

---
 crates/ass-core/tokenizer/simd/utf8.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/ass-core/tokenizer/simd/utf8.rs b/crates/ass-core/tokenizer/simd/utf8.rs
index fe5da29..9438a5d 100644
--- a/crates/ass-core/tokenizer/simd/utf8.rs
+++ b/crates/ass-core/tokenizer/simd/utf8.rs
@@ -44,7 +44,12 @@ fn validate_utf8_simd_impl(bytes: &[u8]) -> Result<(), CoreError> {
         }
     }
 
-    validate_utf8_scalar(remainder)
+    // Everything before the remainder is ASCII, so it is enough to look at the
+    // remainder; a failure is reported at its offset in the whole input.
+    match validate_utf8_scalar(remainder) {
+        Ok(()) => Ok(()),
+        Err(_) => validate_utf8_scalar(bytes),
+    }
 }
 
 /// Scalar UTF-8 validation implementation
-- 
2.43.0


From e0f57f0fd3188fc0ff8642af2ed1b47f16201a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:21 +0000
Subject: [PATCH 17/73] fix: UU decoder let backtick and out-of-range
 characters spill into other bits

---
 crates/ass-core/utils/uu.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/ass-core/utils/uu.rs b/crates/ass-core/utils/uu.rs
index c7800d3..2f044b5 100644
--- a/crates/ass-core/utils/uu.rs
+++ b/crates/ass-core/utils/uu.rs
@@ -84,10 +84,10 @@ where
             }
 
             // Decode 4 characters to 3 bytes
-            let c1 = group[0].wrapping_sub(b' ');
-            let c2 = group[1].wrapping_sub(b' ');
-            let c3 = group[2].wrapping_sub(b' ');
-            let c4 = group[3].wrapping_sub(b' ');
+            let c1 = group[0].wrapping_sub(b' ') & 0x3F;
+            let c2 = group[1].wrapping_sub(b' ') & 0x3F;
+            let c3 = group[2].wrapping_sub(b' ') & 0x3F;
+            let c4 = group[3].wrapping_sub(b' ') & 0x3F;
 
             let decoded_byte1 = (c1 << 2) | (c2 >> 4);
             let decoded_byte2 = ((c2 & 0x0F) << 4) | (c3 >> 2);
-- 
2.43.0


From 02359f1cfb90655df1c93b1a0af699fab5e5fd1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:21 +0000
Subject: [PATCH 18/73] fix: override-tag diagnostics sliced inside a
 multi-byte character

---
 crates/ass-core/analysis/events/tags/parser.rs          | 4 +++-
 crates/ass-core/analysis/events/tags/registry_parser.rs | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/ass-core/analysis/events/tags/parser.rs b/crates/ass-core/analysis/events/tags/parser.rs
index f303298..dcdc08b 100644
--- a/crates/ass-core/analysis/events/tags/parser.rs
+++ b/crates/ass-core/analysis/events/tags/parser.rs
@@ -138,7 +138,9 @@ pub fn parse_override_block<'a>(
                     });
                 }
             } else {
-                let span_end = (tag_start + 2).min(content.len());
+                let span_end = chars
+                    .get(char_pos)
+                    .map_or(byte_pos, |ch| byte_pos + ch.len_utf8());
                 diagnostics.push(TagDiagnostic {
                     span: &content[tag_start..span_end],
                     offset: start_pos + tag_start,
diff --git a/crates/ass-core/analysis/events/tags/registry_parser.rs b/crates/ass-core/analysis/events/tags/registry_parser.rs
index 8fae0b5..421e4ff 100644
--- a/crates/ass-core/analysis/events/tags/registry_parser.rs
+++ b/crates/ass-core/analysis/events/tags/registry_parser.rs
@@ -132,7 +132,9 @@ pub fn parse_override_block_with_registry<'a>(
                     }
                 }
             } else {
-                let span_end = (tag_start + 2).min(content.len());
+                let span_end = chars
+                    .get(char_pos)
+                    .map_or(byte_pos, |ch| byte_pos + ch.len_utf8());
                 diagnostics.push(TagDiagnostic {
                     span: &content[tag_start..span_end],
                     offset: start_pos + tag_start,
-- 
2.43.0


From d6c9c93cf3f787baab99984e8f78e12716f22b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:17 +0000
Subject: [PATCH 19/73] fix: text analysis sliced an unclosed override block
 inside a character

---
 .../analysis/events/text_analysis/parser.rs         | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/crates/ass-core/analysis/events/text_analysis/parser.rs b/crates/ass-core/analysis/events/text_analysis/parser.rs
index ae9e2a8..37583fd 100644
--- a/crates/ass-core/analysis/events/text_analysis/parser.rs
+++ b/crates/ass-core/analysis/events/text_analysis/parser.rs
@@ -56,8 +56,15 @@ impl<'a> TextAnalysis<'a> {
                     }
                 }
 
-                if position > tag_start {
-                    let tag_content = &text[tag_start..position];
+                // An unclosed block runs to the end of the text.
+                let tag_end = if brace_count == 0 {
+                    position
+                } else {
+                    text.len()
+                };
+
+                if tag_end > tag_start {
+                    let tag_content = &text[tag_start..tag_end];
 
                     #[cfg(feature = "plugins")]
                     if let Some(registry) = registry {
@@ -89,7 +96,7 @@ impl<'a> TextAnalysis<'a> {
                     drawing_mode = Self::update_drawing_mode(tag_content, drawing_mode);
                 } else {
                     parse_diagnostics.push(TagDiagnostic {
-                        span: &text[tag_start..position.max(tag_start + 1)],
+                        span: &text[tag_start..text.len().min(tag_start + 1)],
                         offset: tag_start,
                         kind: DiagnosticKind::EmptyOverride,
                     });
-- 
2.43.0


From 1938a31e176175723fb12d835725ea1b57b3176e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:06 +0000
Subject: [PATCH 20/73] fix: tokenizer failed on a trailing carriage return and
 lost columns, lines and ';' after vectorised text scans

---
 crates/ass-core/tokenizer/next_token.rs           |  4 +++-
 crates/ass-core/tokenizer/scanner/navigator.rs    | 15 +++++++++++++++
 crates/ass-core/tokenizer/scanner/text_scanner.rs | 15 +++++++++------
 3 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/crates/ass-core/tokenizer/next_token.rs b/crates/ass-core/tokenizer/next_token.rs
index 34c8ee3..3560e61 100644
--- a/crates/ass-core/tokenizer/next_token.rs
+++ b/crates/ass-core/tokenizer/next_token.rs
@@ -62,7 +62,9 @@ impl<'a> AssTokenizer<'a> {
             ('\n' | '\r', _) => {
                 self.context = self.context.reset_to_document();
                 self.scanner.navigator_mut().advance_char()?;
-                if current_char == '\r' && self.scanner.navigator_mut().peek_char()? == '\n' {
+                if current_char == '\r'
+                    && matches!(self.scanner.navigator_mut().peek_char(), Ok('\n'))
+                {
                     self.scanner.navigator_mut().advance_char()?;
                 }
                 Ok(TokenType::Newline)
diff --git a/crates/ass-core/tokenizer/scanner/navigator.rs b/crates/ass-core/tokenizer/scanner/navigator.rs
index 1daa4e0..5850969 100644
--- a/crates/ass-core/tokenizer/scanner/navigator.rs
+++ b/crates/ass-core/tokenizer/scanner/navigator.rs
@@ -130,6 +130,21 @@ impl<'a> CharNavigator<'a> {
         Ok(ch)
     }
 
+    /// Move to a later byte position on the same line
+    ///
+    /// The text passed over must not contain line breaks.
+    #[cfg(feature = "simd")]
+    pub(super) fn skip_to(&mut self, position: usize) {
+        let skipped = &self.source[self.position..position];
+        self.column += skipped.chars().count();
+        if let Some(last) = skipped.chars().next_back() {
+            self.last_char = Some(last);
+        }
+        self.position = position;
+        self.chars = self.source[position..].chars();
+        self.peek_char = None;
+    }
+
     /// Skip whitespace (excluding newlines)
     pub fn skip_whitespace(&mut self) {
         while self.position < self.source.len() {
diff --git a/crates/ass-core/tokenizer/scanner/text_scanner.rs b/crates/ass-core/tokenizer/scanner/text_scanner.rs
index 5ebd063..f9a61e5 100644
--- a/crates/ass-core/tokenizer/scanner/text_scanner.rs
+++ b/crates/ass-core/tokenizer/scanner/text_scanner.rs
@@ -26,13 +26,16 @@ impl TokenScanner<'_> {
             let use_simd = !matches!(context, TokenContext::FieldValue);
 
             if use_simd {
-                if let Some(delimiter_pos) = self.scan_delimiters_simd(start) {
-                    self.navigator.position = delimiter_pos;
-                } else {
-                    self.navigator.position = self.source.len();
+                let mut end = self
+                    .scan_delimiters_simd(start)
+                    .unwrap_or(self.source.len());
+                if context == TokenContext::Document {
+                    // `;` also ends text at document level, as in the scalar path
+                    if let Some(pos) = self.source[start..end].find(';') {
+                        end = start + pos;
+                    }
                 }
-                self.navigator.chars = self.source[self.navigator.position..].chars();
-                self.navigator.peek_char = None;
+                self.navigator.skip_to(end);
             }
         }
 
-- 
2.43.0


From 4bfef54a6ae38080e2fdcaae321655765f2a7582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:06 +0000
Subject: [PATCH 21/73] fix: position tracker overflowed on huge advances and
 column zero

---
 crates/ass-core/parser/position_tracker/tracker.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/ass-core/parser/position_tracker/tracker.rs b/crates/ass-core/parser/position_tracker/tracker.rs
index fc9e20c..ebf8bb2 100644
--- a/crates/ass-core/parser/position_tracker/tracker.rs
+++ b/crates/ass-core/parser/position_tracker/tracker.rs
@@ -41,7 +41,7 @@ impl<'a> PositionTracker<'a> {
             offset,
             line,
             column,
-            line_start: offset.saturating_sub((column - 1) as usize),
+            line_start: offset.saturating_sub(column.saturating_sub(1) as usize),
         }
     }
 
@@ -65,7 +65,7 @@ impl<'a> PositionTracker<'a> {
 
     /// Advance position by a given number of bytes
     pub fn advance(&mut self, bytes: usize) {
-        let end = (self.offset + bytes).min(self.source.len());
+        let end = self.offset.saturating_add(bytes).min(self.source.len());
 
         while self.offset < end {
             if self.source.as_bytes().get(self.offset) == Some(&b'\n') {
-- 
2.43.0


From 102a02e62b87d645c5eaf2900422610fe26bcda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:06 +0000
Subject: [PATCH 22/73] fix: parser did not count line breaks in blank lines
 between sections and in headers

---
 crates/ass-core/parser/main/helpers.rs | 4 +++-
 crates/ass-core/parser/main/section.rs | 1 +
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/ass-core/parser/main/helpers.rs b/crates/ass-core/parser/main/helpers.rs
index 64a503a..c773099 100644
--- a/crates/ass-core/parser/main/helpers.rs
+++ b/crates/ass-core/parser/main/helpers.rs
@@ -41,7 +41,9 @@ impl Parser<'_> {
             if trimmed.starts_with(';') || trimmed.starts_with("!:") {
                 self.skip_line();
             } else if trimmed != remaining {
-                self.position += remaining.len() - trimmed.len();
+                let skipped = &remaining[..remaining.len() - trimmed.len()];
+                self.line += skipped.matches('\n').count();
+                self.position += skipped.len();
             } else {
                 break;
             }
diff --git a/crates/ass-core/parser/main/section.rs b/crates/ass-core/parser/main/section.rs
index 82e0018..97d4614 100644
--- a/crates/ass-core/parser/main/section.rs
+++ b/crates/ass-core/parser/main/section.rs
@@ -31,6 +31,7 @@ impl<'a> Parser<'a> {
         })? + self.position;
 
         let section_name = &self.source[self.position + 1..header_end];
+        self.line += section_name.matches('\n').count();
         self.position = header_end + 1;
         self.skip_line();
 
-- 
2.43.0


From 83ed33714effd53ac33c538dd0c9f37a9c18781d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:33 +0000
Subject: [PATCH 23/73] fix: colour and hex parsing accepted a plus sign

---
 crates/ass-core/tokenizer/simd/hex.rs | 3 +++
 crates/ass-core/utils/color.rs        | 7 +++++++
 2 files changed, 10 insertions(+)

diff --git a/crates/ass-core/tokenizer/simd/hex.rs b/crates/ass-core/tokenizer/simd/hex.rs
index 36e89cb..1a7677c 100644
--- a/crates/ass-core/tokenizer/simd/hex.rs
+++ b/crates/ass-core/tokenizer/simd/hex.rs
@@ -125,5 +125,8 @@ fn parse_hex_scalar_direct(bytes: &[u8]) -> Option<u32> {
 
 /// Scalar hex parsing implementation
 fn parse_hex_scalar(hex_str: &str) -> Option<u32> {
+    if hex_str.starts_with('+') {
+        return None; // accepted by `from_str_radix`, but not a hex digit
+    }
     u32::from_str_radix(hex_str, 16).ok()
 }
diff --git a/crates/ass-core/utils/color.rs b/crates/ass-core/utils/color.rs
index 54e0293..166e664 100644
--- a/crates/ass-core/utils/color.rs
+++ b/crates/ass-core/utils/color.rs
@@ -56,6 +56,13 @@ pub fn parse_bgr_color(color_str: &str) -> Result<[u8; 4], CoreError> {
             )));
         };
 
+    // `from_str_radix` would accept a leading sign
+    if hex_part.starts_with('+') {
+        return Err(CoreError::InvalidColor(format!(
+            "Invalid hex value: {hex_part}"
+        )));
+    }
+
     let hex_value = u32::from_str_radix(hex_part, 16)
         .map_err(|_| CoreError::InvalidColor(format!("Invalid hex value: {hex_part}")))?;
 
-- 
2.43.0


From 0190153a3ef9ba288710dbed7573ca9c92733e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:33 +0000
Subject: [PATCH 24/73] fix: UTF-32 little-endian mark was reported as UTF-16

---
 crates/ass-core/utils/errors/encoding/validation.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/crates/ass-core/utils/errors/encoding/validation.rs b/crates/ass-core/utils/errors/encoding/validation.rs
index d1176a5..f3398b5 100644
--- a/crates/ass-core/utils/errors/encoding/validation.rs
+++ b/crates/ass-core/utils/errors/encoding/validation.rs
@@ -107,12 +107,7 @@ pub fn validate_bom_handling(bytes: &[u8]) -> Result<(), CoreError> {
         return Ok(());
     }
 
-    if bytes.len() >= 2 && (bytes[0..2] == [0xFF, 0xFE] || bytes[0..2] == [0xFE, 0xFF]) {
-        return Err(validation_error(
-            "UTF-16 BOM detected - ASS files should be UTF-8",
-        ));
-    }
-
+    // UTF-32 first: its little-endian mark starts with the UTF-16 one
     if bytes.len() >= 4
         && (bytes[0..4] == [0xFF, 0xFE, 0x00, 0x00] || bytes[0..4] == [0x00, 0x00, 0xFE, 0xFF])
     {
@@ -121,6 +116,12 @@ pub fn validate_bom_handling(bytes: &[u8]) -> Result<(), CoreError> {
         ));
     }
 
+    if bytes.len() >= 2 && (bytes[0..2] == [0xFF, 0xFE] || bytes[0..2] == [0xFE, 0xFF]) {
+        return Err(validation_error(
+            "UTF-16 BOM detected - ASS files should be UTF-8",
+        ));
+    }
+
     // Check for partial BOM sequences that could indicate encoding issues
     if bytes.len() >= 2 && bytes[0..2] == [0xEF, 0xBB] {
         return Err(validation_error(
-- 
2.43.0


From 9ddc574444ec2987b22282fcb5f6a11b08128e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:43 +0000
Subject: [PATCH 25/73] fix: serialising an event dropped fields whose format
 name differs in case

---
 .../parser/ast/event/serialization.rs         | 26 +++++++++----------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/crates/ass-core/parser/ast/event/serialization.rs b/crates/ass-core/parser/ast/event/serialization.rs
index 1945293..50da6e1 100644
--- a/crates/ass-core/parser/ast/event/serialization.rs
+++ b/crates/ass-core/parser/ast/event/serialization.rs
@@ -89,19 +89,19 @@ impl Event<'_> {
         let mut field_values = Vec::with_capacity(format.len());
 
         for field in format {
-            let value = match *field {
-                "Layer" => self.layer,
-                "Start" => self.start,
-                "End" => self.end,
-                "Style" => self.style,
-                "Name" | "Actor" => self.name,
-                "MarginL" => self.margin_l,
-                "MarginR" => self.margin_r,
-                "MarginV" => self.margin_v,
-                "MarginT" => self.margin_t.unwrap_or("0"),
-                "MarginB" => self.margin_b.unwrap_or("0"),
-                "Effect" => self.effect,
-                "Text" => self.text,
+            let value = match field.to_ascii_lowercase().as_str() {
+                "layer" => self.layer,
+                "start" => self.start,
+                "end" => self.end,
+                "style" => self.style,
+                "name" | "actor" => self.name,
+                "marginl" => self.margin_l,
+                "marginr" => self.margin_r,
+                "marginv" => self.margin_v,
+                "margint" => self.margin_t.unwrap_or("0"),
+                "marginb" => self.margin_b.unwrap_or("0"),
+                "effect" => self.effect,
+                "text" => self.text,
                 _ => "", // Unknown fields default to empty
             };
             field_values.push(value);
-- 
2.43.0


From 41835485bd0c95fcb4dfc9317b8c5763a184524b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:43 +0000
Subject: [PATCH 26/73] fix: serialising a style dropped its parent and fields
 whose format name differs in case

---
 .../ass-core/parser/ast/style/conversion.rs   | 66 +++++++++++--------
 1 file changed, 37 insertions(+), 29 deletions(-)

diff --git a/crates/ass-core/parser/ast/style/conversion.rs b/crates/ass-core/parser/ast/style/conversion.rs
index 282a03b..bda5b18 100644
--- a/crates/ass-core/parser/ast/style/conversion.rs
+++ b/crates/ass-core/parser/ast/style/conversion.rs
@@ -37,7 +37,8 @@ impl Style<'_> {
         // Use standard V4+ format by default
         // TODO: Support custom format lines
         format!(
-            "Style: {},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{}",
+            "Style: {}{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{}",
+            self.parent_prefix(),
             self.name,
             self.fontname,
             self.fontsize,
@@ -64,6 +65,12 @@ impl Style<'_> {
         )
     }
 
+    /// Inheritance prefix (`*Parent,`) as accepted by the style parser
+    fn parent_prefix(&self) -> alloc::string::String {
+        self.parent
+            .map_or_else(alloc::string::String::new, |parent| format!("*{parent},"))
+    }
+
     /// Convert style to ASS string with specific format
     ///
     /// Generates an ASS style line according to the provided format specification.
@@ -94,40 +101,41 @@ impl Style<'_> {
         let mut field_values = Vec::with_capacity(format.len());
 
         for field in format {
-            let value = match *field {
-                "Name" => self.name,
-                "Fontname" => self.fontname,
-                "Fontsize" => self.fontsize,
-                "PrimaryColour" => self.primary_colour,
-                "SecondaryColour" => self.secondary_colour,
-                "OutlineColour" | "TertiaryColour" => self.outline_colour,
-                "BackColour" => self.back_colour,
-                "Bold" => self.bold,
-                "Italic" => self.italic,
-                "Underline" => self.underline,
-                "Strikeout" | "StrikeOut" => self.strikeout,
-                "ScaleX" => self.scale_x,
-                "ScaleY" => self.scale_y,
-                "Spacing" => self.spacing,
-                "Angle" => self.angle,
-                "BorderStyle" => self.border_style,
-                "Outline" => self.outline,
-                "Shadow" => self.shadow,
-                "Alignment" => self.alignment,
-                "MarginL" => self.margin_l,
-                "MarginR" => self.margin_r,
-                "MarginV" => self.margin_v,
-                "MarginT" => self.margin_t.unwrap_or("0"),
-                "MarginB" => self.margin_b.unwrap_or("0"),
-                "Encoding" => self.encoding,
-                "RelativeTo" => self.relative_to.unwrap_or("0"),
+            let value = match field.to_ascii_lowercase().as_str() {
+                "name" => self.name,
+                "fontname" => self.fontname,
+                "fontsize" => self.fontsize,
+                "primarycolour" => self.primary_colour,
+                "secondarycolour" => self.secondary_colour,
+                "outlinecolour" | "tertiarycolour" => self.outline_colour,
+                "backcolour" => self.back_colour,
+                "bold" => self.bold,
+                "italic" => self.italic,
+                "underline" => self.underline,
+                "strikeout" => self.strikeout,
+                "scalex" => self.scale_x,
+                "scaley" => self.scale_y,
+                "spacing" => self.spacing,
+                "angle" => self.angle,
+                "borderstyle" => self.border_style,
+                "outline" => self.outline,
+                "shadow" => self.shadow,
+                "alignment" => self.alignment,
+                "marginl" => self.margin_l,
+                "marginr" => self.margin_r,
+                "marginv" => self.margin_v,
+                "margint" => self.margin_t.unwrap_or("0"),
+                "marginb" => self.margin_b.unwrap_or("0"),
+                "encoding" => self.encoding,
+                "relativeto" => self.relative_to.unwrap_or("0"),
                 _ => "", // Unknown fields default to empty
             };
             field_values.push(value);
         }
 
         let joined = field_values.join(",");
-        format!("Style: {joined}")
+        let parent = self.parent_prefix();
+        format!("Style: {parent}{joined}")
     }
 
     /// Validate all spans in this Style reference valid source
-- 
2.43.0


From 1ced77412836efeffe78a3fd755a822b46431121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:04 +0000
Subject: [PATCH 27/73] fix: text analysis dropped a lone backslash at the end
 of the text

---
 crates/ass-core/analysis/events/text_analysis/parser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/ass-core/analysis/events/text_analysis/parser.rs b/crates/ass-core/analysis/events/text_analysis/parser.rs
index 37583fd..31b0140 100644
--- a/crates/ass-core/analysis/events/text_analysis/parser.rs
+++ b/crates/ass-core/analysis/events/text_analysis/parser.rs
@@ -122,6 +122,8 @@ impl<'a> TextAnalysis<'a> {
                             }
                         }
                     }
+                } else if !drawing_mode {
+                    plain_text.push(ch);
                 }
             } else if !drawing_mode {
                 plain_text.push(ch);
-- 
2.43.0


From f5c082202e0a6371b855a7e10443e9972e2b58b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:30 +0000
Subject: [PATCH 28/73] fix: streaming parser rejected a character split
 between two chunks

---
 crates/ass-core/parser/streaming/parser.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/crates/ass-core/parser/streaming/parser.rs b/crates/ass-core/parser/streaming/parser.rs
index 21f6ded..deb9601 100644
--- a/crates/ass-core/parser/streaming/parser.rs
+++ b/crates/ass-core/parser/streaming/parser.rs
@@ -21,6 +21,8 @@ pub struct StreamingParser {
     processor: LineProcessor,
     /// Buffer for incomplete lines
     pub(super) buffer: String,
+    /// First bytes of a character whose rest is still to come
+    pending: Vec<u8>,
     /// Parsed sections in document order
     pub(super) sections: Vec<String>,
 
@@ -36,6 +38,7 @@ impl StreamingParser {
         Self {
             processor: LineProcessor::new(),
             buffer: String::new(),
+            pending: Vec::new(),
             sections: Vec::new(),
 
             #[cfg(feature = "benches")]
@@ -49,6 +52,7 @@ impl StreamingParser {
         Self {
             processor: LineProcessor::new(),
             buffer: String::new(),
+            pending: Vec::new(),
             sections: Vec::with_capacity(capacity),
 
             #[cfg(feature = "benches")]
@@ -61,12 +65,21 @@ impl StreamingParser {
     /// # Errors
     ///
     /// Returns an error if the chunk contains invalid UTF-8 or parsing fails.
+    /// A character split between two chunks is not an error.
     pub fn feed_chunk(&mut self, chunk: &[u8]) -> Result<Vec<ParseDelta<'static>>> {
         if chunk.is_empty() {
             return Ok(Vec::new());
         }
 
-        let chunk_str = core::str::from_utf8(chunk)
+        let mut bytes = self.pending.clone();
+        bytes.extend_from_slice(chunk);
+        let complete = match core::str::from_utf8(&bytes) {
+            Ok(text) => text.len(),
+            Err(e) if e.error_len().is_none() => e.valid_up_to(),
+            Err(e) => return Err(CoreError::parse(format!("Invalid UTF-8: {e}"))),
+        };
+        self.pending = bytes.split_off(complete);
+        let chunk_str = core::str::from_utf8(&bytes)
             .map_err(|e| CoreError::parse(format!("Invalid UTF-8: {e}")))?;
 
         self.buffer.push_str(chunk_str);
@@ -109,8 +122,12 @@ impl StreamingParser {
     ///
     /// # Errors
     ///
-    /// Returns an error if the final line processing fails.
+    /// Returns an error if the input ends inside a UTF-8 character or the
+    /// final line processing fails.
     pub fn finish(mut self) -> Result<StreamingResult> {
+        core::str::from_utf8(&self.pending)
+            .map_err(|e| CoreError::parse(format!("Invalid UTF-8: {e}")))?;
+
         if !self.buffer.trim().is_empty() {
             let _deltas = self.processor.process_line(&self.buffer.clone())?;
         }
@@ -126,6 +143,7 @@ impl StreamingParser {
     pub fn reset(&mut self) {
         self.processor.reset();
         self.buffer.clear();
+        self.pending.clear();
         self.sections.clear();
 
         #[cfg(feature = "benches")]
-- 
2.43.0


From a49fcbabb888d981992dc9e925f024c7dbb657c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:40 +0000
Subject: [PATCH 29/73] fix: section boundary search sliced inside multi-byte
 characters and past the end

---
 .../parser/incremental/section_bounds.rs        | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/crates/ass-core/parser/incremental/section_bounds.rs b/crates/ass-core/parser/incremental/section_bounds.rs
index cf1b8f9..6cea73d 100644
--- a/crates/ass-core/parser/incremental/section_bounds.rs
+++ b/crates/ass-core/parser/incremental/section_bounds.rs
@@ -3,6 +3,15 @@
 use crate::parser::errors::ParseError;
 use crate::parser::SectionType;
 
+/// Last character boundary of `source` at or before `offset`
+fn char_boundary_at_or_before(source: &str, offset: usize) -> usize {
+    let mut boundary = offset.min(source.len());
+    while !source.is_char_boundary(boundary) {
+        boundary -= 1;
+    }
+    boundary
+}
+
 /// Find the start of a section header before the given position
 ///
 /// # Errors
@@ -23,8 +32,11 @@ pub fn find_section_header_start(
     };
 
     // Search backwards from start_hint for the header
-    let search_start = start_hint.saturating_sub(header.len() + 100); // Look back up to 100 chars
-    let search_text = &source[search_start..start_hint.min(source.len())];
+    let search_end = char_boundary_at_or_before(source, start_hint);
+    // Look back up to 100 bytes
+    let search_start =
+        char_boundary_at_or_before(source, search_end.saturating_sub(header.len() + 100));
+    let search_text = &source[search_start..search_end];
 
     search_text
         .rfind(header)
@@ -55,6 +67,7 @@ pub fn find_section_end(
         "[Graphics]",
     ];
 
+    let end_hint = char_boundary_at_or_before(source, end_hint);
     let search_text = &source[end_hint..];
 
     // Find the nearest section header
-- 
2.43.0


From a8658a0d97b3202b0f8ed351ce3936583c67c60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:26 +0000
Subject: [PATCH 30/73] fix: style inheritance was never applied because the
 dependency order counted the wrong edges

---
 crates/ass-core/analysis/styles/analyzer/dependency.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/ass-core/analysis/styles/analyzer/dependency.rs b/crates/ass-core/analysis/styles/analyzer/dependency.rs
index 5294cd3..2b360cb 100644
--- a/crates/ass-core/analysis/styles/analyzer/dependency.rs
+++ b/crates/ass-core/analysis/styles/analyzer/dependency.rs
@@ -34,11 +34,13 @@ impl<'a> StyleAnalyzer<'a> {
         for style in styles {
             if let Some(parent_name) = style.parent {
                 if style_map.contains_key(parent_name) {
-                    dependencies
+                    let is_new = dependencies
                         .get_mut(style.name)
                         .unwrap()
                         .insert(parent_name);
-                    *in_degree.get_mut(parent_name).unwrap() += 1;
+                    if is_new {
+                        *in_degree.get_mut(style.name).unwrap() += 1;
+                    }
 
                     // Track inheritance for analysis
                     if self.config.options.contains(AnalysisOptions::INHERITANCE) {
@@ -100,7 +102,7 @@ impl<'a> StyleAnalyzer<'a> {
         }
 
         // Check if all styles were processed
-        if result.len() == styles.len() {
+        if result.len() == style_map.len() {
             Some(result)
         } else {
             // Not all styles processed - circular dependency exists
-- 
2.43.0


From 533b0a5e83b3759824adefd624677b86c8a3d424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:48 +0000
Subject: [PATCH 31/73] fix: values inherited from a parent style were scaled
 to the play resolution twice

---
 .../ass-core/analysis/styles/analyzer/analysis.rs   | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/crates/ass-core/analysis/styles/analyzer/analysis.rs b/crates/ass-core/analysis/styles/analyzer/analysis.rs
index 4a05ccb..7bfeb0f 100644
--- a/crates/ass-core/analysis/styles/analyzer/analysis.rs
+++ b/crates/ass-core/analysis/styles/analyzer/analysis.rs
@@ -79,13 +79,16 @@ impl<'a> StyleAnalyzer<'a> {
                 ResolvedStyle::from_style(style)
             };
 
-            if let Ok(mut resolved_style) = resolved {
-                // Apply resolution scaling if needed
-                if let Some((scale_x, scale_y)) = self.resolution_scaling {
-                    resolved_style.apply_resolution_scaling(scale_x, scale_y);
-                }
+            if let Ok(resolved_style) = resolved {
                 self.resolved_styles.insert(style.name, resolved_style);
             }
         }
+
+        // Apply resolution scaling only now, so that inherited values are scaled once
+        if let Some((scale_x, scale_y)) = self.resolution_scaling {
+            for resolved_style in self.resolved_styles.values_mut() {
+                resolved_style.apply_resolution_scaling(scale_x, scale_y);
+            }
+        }
     }
 }
-- 
2.43.0


From 0e315de79fa8929f558ae3e9dd8f42fb5ce9f694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:27 +0000
Subject: [PATCH 32/73] fix: incremental parsing lost edits outside entries,
 repeated sections and positions of the reparsed section

---
 crates/ass-core/parser/main/mod.rs           |   1 +
 crates/ass-core/parser/main/parse.rs         |   4 +-
 crates/ass-core/parser/main/section.rs       |  18 ++
 crates/ass-core/parser/main/state.rs         |   8 +
 crates/ass-core/parser/script/incremental.rs | 217 ++++++++++---------
 5 files changed, 143 insertions(+), 105 deletions(-)

diff --git a/crates/ass-core/parser/main/mod.rs b/crates/ass-core/parser/main/mod.rs
index 719920d..fe37b7c 100644
--- a/crates/ass-core/parser/main/mod.rs
+++ b/crates/ass-core/parser/main/mod.rs
@@ -18,6 +18,7 @@ mod tests_errors;
 #[cfg(test)]
 mod tests_recovery;
 
+pub(super) use parse::MAX_INPUT_SIZE;
 pub(super) use state::Parser;
 
 #[cfg(test)]
diff --git a/crates/ass-core/parser/main/parse.rs b/crates/ass-core/parser/main/parse.rs
index 99df315..f678fb7 100644
--- a/crates/ass-core/parser/main/parse.rs
+++ b/crates/ass-core/parser/main/parse.rs
@@ -13,11 +13,13 @@ use crate::{
 };
 use alloc::{format, string::ToString, vec::Vec};
 
+/// Largest source accepted, in bytes (50MB)
+pub(in crate::parser) const MAX_INPUT_SIZE: usize = 50 * 1024 * 1024;
+
 impl<'a> Parser<'a> {
     /// Parse complete script
     pub fn parse(mut self) -> Script<'a> {
         // Check input size limit to prevent DoS attacks (50MB limit)
-        const MAX_INPUT_SIZE: usize = 50 * 1024 * 1024; // 50MB
         if let Err(e) = check_input_size_limit(self.source.len(), MAX_INPUT_SIZE) {
             self.issues.push(ParseIssue::new(
                 IssueSeverity::Error,
diff --git a/crates/ass-core/parser/main/section.rs b/crates/ass-core/parser/main/section.rs
index 97d4614..0861190 100644
--- a/crates/ass-core/parser/main/section.rs
+++ b/crates/ass-core/parser/main/section.rs
@@ -10,6 +10,7 @@ use crate::{
         ast::Section,
         binary_data::{FontsParser, GraphicsParser},
         errors::{IssueCategory, IssueSeverity, ParseError, ParseIssue},
+        script::Script,
         sections::{EventsParser, ScriptInfoParser, StylesParser},
     },
     utils::CoreError,
@@ -18,6 +19,23 @@ use crate::{
 use alloc::string::ToString;
 
 impl<'a> Parser<'a> {
+    /// Parse the section at the current position and nothing after it
+    ///
+    /// Returns the section together with the state it leaves (version, formats
+    /// and issues) as a script without sections.
+    pub fn parse_single_section(mut self) -> Result<(Section<'a>, Script<'a>)> {
+        let section = self.parse_section()?;
+        let state = Script::from_parts(
+            self.source,
+            self.version,
+            self.sections,
+            self.issues,
+            self.styles_format,
+            self.events_format,
+        );
+        Ok((section, state))
+    }
+
     /// Parse a single section (e.g., [Script Info])
     pub(super) fn parse_section(&mut self) -> Result<Section<'a>> {
         if !self.source[self.position..].starts_with('[') {
diff --git a/crates/ass-core/parser/main/state.rs b/crates/ass-core/parser/main/state.rs
index 981fb3b..0b8f6ab 100644
--- a/crates/ass-core/parser/main/state.rs
+++ b/crates/ass-core/parser/main/state.rs
@@ -53,6 +53,14 @@ impl<'a> Parser<'a> {
         }
     }
 
+    /// Create new parser starting at a section header inside the source
+    pub const fn new_at(source: &'a str, position: usize, line: usize) -> Self {
+        let mut parser = Self::new(source);
+        parser.position = position;
+        parser.line = line;
+        parser
+    }
+
     /// Create new parser with extension registry
     #[cfg(feature = "plugins")]
     pub const fn new_with_registry(
diff --git a/crates/ass-core/parser/script/incremental.rs b/crates/ass-core/parser/script/incremental.rs
index 47ab296..129f3ac 100644
--- a/crates/ass-core/parser/script/incremental.rs
+++ b/crates/ass-core/parser/script/incremental.rs
@@ -4,10 +4,10 @@
 //! sections it touches, and [`Script::parse_incremental`], which reparses only
 //! those sections while shifting the spans of unchanged sections.
 
-use alloc::{vec, vec::Vec};
+use alloc::vec::Vec;
 
 use crate::parser::ast::{Section, SectionType};
-use crate::parser::main::Parser;
+use crate::parser::main::{Parser, MAX_INPUT_SIZE};
 use crate::Result;
 
 use super::Script;
@@ -53,8 +53,9 @@ impl<'a> Script<'a> {
 
     /// Parse only changed portions and create new Script
     ///
-    /// This method performs incremental parsing by identifying affected sections
-    /// and reparsing only those sections while preserving others.
+    /// A change inside the entries of one section reparses that section only and
+    /// preserves the others; any other change reparses the whole source. Either
+    /// way the result is the script a full parse of `new_source` gives.
     ///
     /// # Arguments
     ///
@@ -73,113 +74,121 @@ impl<'a> Script<'a> {
         new_source: &'a str,
         change: &crate::parser::incremental::TextChange,
     ) -> Result<Self> {
-        use crate::parser::sections::SectionFormats;
-
-        // Step 1: Identify affected sections
-        let affected_sections = self.affected_sections(change);
-
-        if affected_sections.is_empty() {
-            // Change was in whitespace/comments only
-            return Ok(Script::from_parts(
-                new_source,
-                self.version(),
-                self.sections.clone(),
-                vec![], // Clear issues, will be recalculated
-                self.styles_format.clone(),
-                self.events_format.clone(),
-            ));
+        match self.reparse_changed_section(new_source, change) {
+            Some(script) => Ok(script),
+            // The change may have moved section boundaries: parse everything
+            None => Ok(Parser::new(new_source).parse()),
         }
+    }
 
-        // Step 2: Build section formats from existing script
-        let formats = SectionFormats {
-            styles_format: self.styles_format().map(<[&str]>::to_vec),
-            events_format: self.events_format().map(<[&str]>::to_vec),
-        };
+    /// Reparse the one section a change lies in and shift the sections after it
+    ///
+    /// Returns `None` when the change could affect more than that section, that
+    /// is, unless it lies within the entries of one section, leaves every line
+    /// break and section header alone, and the script has no parse issues.
+    fn reparse_changed_section(
+        &self,
+        new_source: &'a str,
+        change: &crate::parser::incremental::TextChange,
+    ) -> Option<Self> {
+        let (start, end) = (change.range.start, change.range.end);
+        let new_end = start.checked_add(change.new_text.len())?;
+
+        // The new source has to be the old one with exactly this change applied
+        let removed = self.source.get(start..end)?;
+        if !self.issues.is_empty()
+            || new_source.len() > MAX_INPUT_SIZE
+            || new_source.get(..start)? != self.source.get(..start)?
+            || new_source.get(start..new_end)? != change.new_text
+            || new_source.get(new_end..)? != self.source.get(end..)?
+        {
+            return None;
+        }
 
-        // Step 3: Prepare new sections
-        let mut new_sections = Vec::with_capacity(self.sections.len());
-
-        // We need to find where each section actually starts in the document
-        // including its header. The current spans only track content.
-        let section_headers = [
-            ("[Script Info]", SectionType::ScriptInfo),
-            ("[V4+ Styles]", SectionType::Styles),
-            ("[Events]", SectionType::Events),
-            ("[Fonts]", SectionType::Fonts),
-            ("[Graphics]", SectionType::Graphics),
-        ];
-
-        // Step 4: Process each section
-        for (idx, section) in self.sections.iter().enumerate() {
-            let section_type = section.section_type();
-
-            if affected_sections.contains(&section_type) {
-                // Find the section header in the new source
-                let header_str = section_headers
-                    .iter()
-                    .find(|(_, t)| *t == section_type)
-                    .map_or("[Unknown]", |(h, _)| *h);
-
-                // Find where this section starts in the new source
-                if let Some(header_pos) = new_source.find(header_str) {
-                    // Find the end of this section (start of next section or end of file)
-                    let section_end = if idx + 1 < self.sections.len() {
-                        // Find the next section's header
-                        let next_section_type = self.sections[idx + 1].section_type();
-                        let next_header = section_headers
-                            .iter()
-                            .find(|(_, t)| *t == next_section_type)
-                            .map_or("[Unknown]", |(h, _)| *h);
-
-                        new_source[header_pos + header_str.len()..]
-                            .find(next_header)
-                            .map_or(new_source.len(), |pos| header_pos + header_str.len() + pos)
-                    } else {
-                        new_source.len()
-                    };
-
-                    // Extract the full section text including header
-                    let section_text = &new_source[header_pos..section_end];
-
-                    // Parse this section using a fresh parser
-                    let parser = Parser::new(section_text);
-                    let parsed_script = parser.parse();
-
-                    // The parser returns a Script, extract sections from it
-                    // We only want the one matching our type
-                    if let Some(parsed_section) = parsed_script
-                        .sections
-                        .into_iter()
-                        .find(|s| s.section_type() == section_type)
-                    {
-                        new_sections.push(parsed_section);
-                    }
-                }
-            } else {
-                // Section unchanged, but might need span adjustment if change was before it
-                let section_span = section.span();
-                if let Some(span) = section_span {
-                    if change.range.end <= span.start {
-                        // Change was before this section, adjust its spans
-                        new_sections.push(Self::adjust_section_spans(section, change));
-                    } else {
-                        // Change was after this section, keep as-is
-                        new_sections.push(section.clone());
-                    }
-                } else {
-                    new_sections.push(section.clone());
-                }
+        // The line around the change must not gain or lose a section header
+        let line_start = self.source[..start].rfind('\n').map_or(0, |i| i + 1);
+        let line_end = self.source[end..]
+            .find('\n')
+            .map_or(self.source.len(), |i| end + i);
+        if removed.contains('\n')
+            || change.new_text.contains(['\n', '['])
+            || self.source[line_start..line_end].contains('[')
+        {
+            return None;
+        }
+
+        // Exactly one section of each type, one of which holds the change
+        let index = self.sections.iter().position(|section| {
+            section
+                .span()
+                .is_some_and(|span| span.start < start && end <= span.end)
+        })?;
+        let section_type = self.sections[index].section_type();
+        for (i, section) in self.sections.iter().enumerate() {
+            if self.sections[..i]
+                .iter()
+                .any(|earlier| earlier.section_type() == section.section_type())
+            {
+                return None;
+            }
+        }
+
+        // Find the header of that section: the last line starting with '['
+        let mut header = None;
+        let mut offset = 0;
+        for (line_idx, line) in new_source[..line_start].split('\n').enumerate() {
+            let content = line.trim_start();
+            if content.starts_with('[') {
+                header = Some((offset + line.len() - content.len(), line_idx + 1));
             }
+            offset += line.len() + 1;
+        }
+        let (header_start, header_line) = header?;
+
+        let (section, partial) = Parser::new_at(new_source, header_start, header_line)
+            .parse_single_section()
+            .ok()?;
+        if section.section_type() != section_type {
+            return None;
         }
 
-        // Step 5: Create new Script with updated sections
-        Ok(Script::from_parts(
+        let mut sections: Vec<_> = self
+            .sections
+            .iter()
+            .enumerate()
+            .map(|(i, old)| {
+                if i != index && old.span().is_some_and(|span| span.start >= end) {
+                    Self::adjust_section_spans(old, change)
+                } else {
+                    old.clone()
+                }
+            })
+            .collect();
+        sections[index] = section;
+
+        let version = if section_type == SectionType::ScriptInfo {
+            partial.version()
+        } else {
+            self.version()
+        };
+        let styles_format = if section_type == SectionType::Styles {
+            partial.styles_format
+        } else {
+            self.styles_format.clone()
+        };
+        let events_format = if section_type == SectionType::Events {
+            partial.events_format
+        } else {
+            self.events_format.clone()
+        };
+
+        Some(Script::from_parts(
             new_source,
-            self.version(),
-            new_sections,
-            vec![], // Issues will be recalculated
-            formats.styles_format.clone(),
-            formats.events_format.clone(),
+            version,
+            sections,
+            partial.issues,
+            styles_format,
+            events_format,
         ))
     }
 }
-- 
2.43.0


From f8a9c35108d823cccd60a49231652e54d96f276f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:46 +0000
Subject: [PATCH 33/73] fix: a line updated in place lost its position and
 could not be updated again

---
 crates/ass-core/parser/script/update.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/ass-core/parser/script/update.rs b/crates/ass-core/parser/script/update.rs
index a0d21db..31cda63 100644
--- a/crates/ass-core/parser/script/update.rs
+++ b/crates/ass-core/parser/script/update.rs
@@ -6,7 +6,7 @@
 
 use alloc::{boxed::Box, vec::Vec};
 
-use crate::parser::ast::Section;
+use crate::parser::ast::{Event, Section, Style};
 use crate::parser::errors::ParseError;
 
 use super::types::{Change, LineContent};
@@ -59,7 +59,8 @@ impl<'a> Script<'a> {
                     .position(|s| s.span.start <= offset && offset < s.span.end)
                     .map_or(Err(ParseError::IndexOutOfBounds), |style_index| {
                         let old_style = styles[style_index].clone();
-                        styles[style_index] = *new_style;
+                        let span = old_style.span;
+                        styles[style_index] = Style { span, ..*new_style };
                         Ok(LineContent::Style(Box::new(old_style)))
                     })
             }
@@ -70,7 +71,8 @@ impl<'a> Script<'a> {
                     .position(|e| e.span.start <= offset && offset < e.span.end)
                     .map_or(Err(ParseError::IndexOutOfBounds), |event_index| {
                         let old_event = events[event_index].clone();
-                        events[event_index] = *new_event;
+                        let span = old_event.span;
+                        events[event_index] = Event { span, ..*new_event };
                         Ok(LineContent::Event(Box::new(old_event)))
                     })
             }
-- 
2.43.0


From dcc5573f5d4cd1a71a23af6bc3629f93ed992fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:33 +0000
Subject: [PATCH 34/73] fix: a font or graphic entry following another without
 a blank line was read as its data

---
 crates/ass-core/parser/binary_data/binary_parser.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/ass-core/parser/binary_data/binary_parser.rs b/crates/ass-core/parser/binary_data/binary_parser.rs
index 03516a9..56dab2a 100644
--- a/crates/ass-core/parser/binary_data/binary_parser.rs
+++ b/crates/ass-core/parser/binary_data/binary_parser.rs
@@ -104,6 +104,14 @@ impl<'a, T> BinaryDataParser<'a, T> {
                 continue;
             }
 
+            // The next entry starts without a blank line in between
+            if trimmed
+                .split_once(':')
+                .is_some_and(|(key, _)| key.trim() == self.entry_key)
+            {
+                break;
+            }
+
             // Stop at hash comments (# followed by space or at end of line)
             // But not UU-encoded data (# followed immediately by encoded chars)
             if trimmed.starts_with("# ") || trimmed == "#" {
-- 
2.43.0


From 37738e6042e047a3a07e7239d19641a0bf8b073e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:58 +0000
Subject: [PATCH 35/73] fix: linting panicked on a colour check of a tag part
 starting with a non-ASCII character

---
 crates/ass-core/analysis/linting/rules/invalid_color/rule.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/ass-core/analysis/linting/rules/invalid_color/rule.rs b/crates/ass-core/analysis/linting/rules/invalid_color/rule.rs
index 9666c3d..7138bb8 100644
--- a/crates/ass-core/analysis/linting/rules/invalid_color/rule.rs
+++ b/crates/ass-core/analysis/linting/rules/invalid_color/rule.rs
@@ -157,7 +157,7 @@ impl InvalidColorRule {
         }
 
         if tag_part.len() >= 3 {
-            let first_char = &tag_part[..1];
+            let first_char = &tag_part[..tag_part.chars().next().map_or(0, char::len_utf8)];
             if ["1", "2", "3", "4"].contains(&first_char) && tag_part[1..].starts_with("c&H") {
                 let color_part = tag_part[1..].strip_prefix("c&H")?;
                 let color_end = color_part.find('&')?;
-- 
2.43.0


From 0129c52685e86c435d4148ebfa470e2457e34aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:58 +0000
Subject: [PATCH 36/73] fix: event durations of up to five seconds were
 reported as shorter than 500ms

---
 crates/ass-core/analysis/linting/rules/accessibility/rule.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/ass-core/analysis/linting/rules/accessibility/rule.rs b/crates/ass-core/analysis/linting/rules/accessibility/rule.rs
index 84c8f64..a60e60e 100644
--- a/crates/ass-core/analysis/linting/rules/accessibility/rule.rs
+++ b/crates/ass-core/analysis/linting/rules/accessibility/rule.rs
@@ -98,7 +98,8 @@ impl AccessibilityRule {
     fn check_event_duration(&self, issues: &mut Vec<LintIssue>, event: &crate::parser::Event) {
         if let (Ok(start), Ok(end)) = (parse_ass_time(event.start), parse_ass_time(event.end)) {
             if end >= start {
-                let duration_ms = end - start;
+                // Times are in centiseconds
+                let duration_ms = u64::from(end - start) * 10;
                 if duration_ms < 500 {
                     let issue = LintIssue::new(
                         self.default_severity(),
-- 
2.43.0


From 09e15b8860bccc928d0322be3845744c1b525df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:15 +0000
Subject: [PATCH 37/73] fix: undo of a replacement removes the whole
 replacement text

The range of the replaced text was used instead of the range of the new
text, so undoing a replacement of different length corrupted the document.
---
 crates/ass-editor/core/document/undo_redo.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/ass-editor/core/document/undo_redo.rs b/crates/ass-editor/core/document/undo_redo.rs
index b62b543..4b05b45 100644
--- a/crates/ass-editor/core/document/undo_redo.rs
+++ b/crates/ass-editor/core/document/undo_redo.rs
@@ -47,10 +47,13 @@ impl EditorDocument {
                     result.new_cursor = entry.cursor_before;
                 }
                 Operation::Replace {
-                    range, old_text, ..
+                    range,
+                    old_text,
+                    new_text,
                 } => {
-                    // Undo replace by restoring old text
-                    self.replace_raw(*range, old_text)?;
+                    // Undo replace by restoring old text over the replacement
+                    let new_end = Position::new(range.start.offset + new_text.len());
+                    self.replace_raw(Range::new(range.start, new_end), old_text)?;
                     let end_pos = Position::new(range.start.offset + old_text.len());
                     result.modified_range = Some(Range::new(range.start, end_pos));
                     result.new_cursor = entry.cursor_before;
-- 
2.43.0


From dfb16a84d97e429519d2555a17fb28c668159692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:28 +0000
Subject: [PATCH 38/73] fix: redo keeps the remaining redo entries

redo() pushed the redone entry as if it were a new edit, which cleared the
redo stack: of several undone edits only the first could be redone. undo()
also left the cursor behind.
---
 crates/ass-editor/core/document/undo_redo.rs | 17 +++++++----------
 crates/ass-editor/core/history/manager.rs    |  5 +++++
 crates/ass-editor/core/history/stack_impl.rs |  8 ++++++++
 3 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/crates/ass-editor/core/document/undo_redo.rs b/crates/ass-editor/core/document/undo_redo.rs
index 4b05b45..807659b 100644
--- a/crates/ass-editor/core/document/undo_redo.rs
+++ b/crates/ass-editor/core/document/undo_redo.rs
@@ -79,6 +79,11 @@ impl EditorDocument {
                 }
             }
 
+            // The cursor returns to where it was before the operation
+            if let Some(cursor) = result.new_cursor {
+                self.history.set_cursor(Some(cursor));
+            }
+
             // Push to redo stack for future redo
             self.history.push_redo_entry(entry);
 
@@ -148,16 +153,8 @@ impl EditorDocument {
                 self.history.set_cursor(Some(cursor));
             }
 
-            // Create a new history entry for the redo operation
-            let new_entry = crate::core::history::HistoryEntry::new(
-                entry.operation,
-                entry.description,
-                &result,
-                entry.cursor_before,
-            );
-
-            // Push back to undo stack
-            self.history.stack_mut().push(new_entry);
+            // Push back to undo stack, keeping what can still be redone
+            self.history.push_redone_entry(entry);
 
             result.message = Some("Redo successful".to_string());
             Ok(result)
diff --git a/crates/ass-editor/core/history/manager.rs b/crates/ass-editor/core/history/manager.rs
index e1d69ad..38b6cff 100644
--- a/crates/ass-editor/core/history/manager.rs
+++ b/crates/ass-editor/core/history/manager.rs
@@ -151,6 +151,11 @@ impl UndoManager {
         self.stack.pop_redo()
     }
 
+    /// Return a redone entry to the undo stack, keeping the rest of the redo stack
+    pub fn push_redone_entry(&mut self, entry: HistoryEntry) {
+        self.stack.push_redone(entry);
+    }
+
     /// Push an entry to redo stack
     pub fn push_redo_entry(&mut self, entry: HistoryEntry) {
         self.stack.push_redo(entry);
diff --git a/crates/ass-editor/core/history/stack_impl.rs b/crates/ass-editor/core/history/stack_impl.rs
index d647100..cd7cd5f 100644
--- a/crates/ass-editor/core/history/stack_impl.rs
+++ b/crates/ass-editor/core/history/stack_impl.rs
@@ -63,6 +63,14 @@ impl UndoStack {
         }
     }
 
+    /// Return a redone entry to the undo stack
+    ///
+    /// Unlike [`push`](Self::push) this keeps the entries that can still be redone.
+    pub fn push_redone(&mut self, entry: HistoryEntry) {
+        self.current_memory += entry.memory_usage;
+        self.undo_stack.push_front(entry);
+    }
+
     /// Pop the most recent entry from the undo stack
     pub fn pop_undo(&mut self) -> Option<HistoryEntry> {
         if let Some(entry) = self.undo_stack.pop_front() {
-- 
2.43.0


From 4c7a26c966a3fe31be4998f3c237b034444216f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:13 +0000
Subject: [PATCH 39/73] fix: edits inside a multi-byte character are refused

Offsets within a character were silently rounded down by the rope while the
history recorded the unrounded range, so the edit touched other text than
asked for and undo did not restore it.
---
 .../ass-editor/core/document/editing_raw.rs   | 22 ++++++++++++++++++-
 .../ass-editor/core/document/text_access.rs   |  4 +++-
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/crates/ass-editor/core/document/editing_raw.rs b/crates/ass-editor/core/document/editing_raw.rs
index 9f8e595..9e827cb 100644
--- a/crates/ass-editor/core/document/editing_raw.rs
+++ b/crates/ass-editor/core/document/editing_raw.rs
@@ -8,6 +8,23 @@ use crate::core::errors::{EditorError, Result};
 use crate::core::position::{Position, Range};
 
 impl EditorDocument {
+    /// Refuse an offset that lies inside a multi-byte character
+    pub(super) fn require_char_boundary(&self, offset: usize) -> Result<()> {
+        #[cfg(feature = "rope")]
+        let on_boundary =
+            self.text_rope.char_to_byte(self.text_rope.byte_to_char(offset)) == offset;
+        #[cfg(not(feature = "rope"))]
+        let on_boundary = self.text_content.is_char_boundary(offset);
+
+        if on_boundary {
+            Ok(())
+        } else {
+            Err(EditorError::command_failed(
+                "Edit position is not on a valid UTF-8 character boundary",
+            ))
+        }
+    }
+
     /// Insert text at position (low-level operation without undo)
     pub(crate) fn insert_raw(&mut self, pos: Position, text: &str) -> Result<()> {
         if pos.offset > self.len_bytes() {
@@ -16,6 +33,7 @@ impl EditorDocument {
                 length: self.len_bytes(),
             });
         }
+        self.require_char_boundary(pos.offset)?;
 
         #[cfg(feature = "rope")]
         {
@@ -34,13 +52,15 @@ impl EditorDocument {
 
     /// Delete text in range (low-level operation without undo)
     pub(crate) fn delete_raw(&mut self, range: Range) -> Result<()> {
-        if range.end.offset > self.len_bytes() {
+        if range.start.offset > range.end.offset || range.end.offset > self.len_bytes() {
             return Err(EditorError::InvalidRange {
                 start: range.start.offset,
                 end: range.end.offset,
                 length: self.len_bytes(),
             });
         }
+        self.require_char_boundary(range.start.offset)?;
+        self.require_char_boundary(range.end.offset)?;
 
         #[cfg(feature = "rope")]
         {
diff --git a/crates/ass-editor/core/document/text_access.rs b/crates/ass-editor/core/document/text_access.rs
index 0ef773b..9a2974d 100644
--- a/crates/ass-editor/core/document/text_access.rs
+++ b/crates/ass-editor/core/document/text_access.rs
@@ -81,13 +81,15 @@ impl EditorDocument {
         let start = range.start.offset;
         let end = range.end.offset;
 
-        if end > self.len_bytes() {
+        if start > end || end > self.len_bytes() {
             return Err(EditorError::InvalidRange {
                 start,
                 end,
                 length: self.len_bytes(),
             });
         }
+        self.require_char_boundary(start)?;
+        self.require_char_boundary(end)?;
 
         #[cfg(feature = "rope")]
         {
-- 
2.43.0


From 8b56423dbdb33cd1dfd789538ee4eba2d8159dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:33 +0000
Subject: [PATCH 40/73] fix: incremental edits can be undone

An incremental edit was recorded as a section delta with empty undo data, so
undoing it changed nothing or removed a section; record the text change.
---
 .../core/document/incremental_edit.rs         | 30 +++++++------------
 1 file changed, 11 insertions(+), 19 deletions(-)

diff --git a/crates/ass-editor/core/document/incremental_edit.rs b/crates/ass-editor/core/document/incremental_edit.rs
index 0218252..f2086db 100644
--- a/crates/ass-editor/core/document/incremental_edit.rs
+++ b/crates/ass-editor/core/document/incremental_edit.rs
@@ -39,10 +39,7 @@ impl EditorDocument {
         }
 
         // Get the old text for undo data
-        #[cfg(feature = "std")]
         let old_text = self.text_range(range)?;
-        #[cfg(not(feature = "std"))]
-        let _old_text = self.text_range(range)?;
 
         // Apply change with incremental parsing (includes fallback to full parse)
         let current_text = self.text();
@@ -80,32 +77,27 @@ impl EditorDocument {
             }
         };
 
-        // Create undo data from the delta (must be captured BEFORE applying changes)
-        let undo_data = self.capture_delta_undo_data(&delta)?;
+        // Apply the text change
+        self.replace_raw(range, new_text)?;
 
-        // Create delta operation for history
-        let operation = Operation::Delta {
-            forward: delta.clone(),
-            undo_data,
+        // Record the text change in history: the delta describes sections and
+        // cannot be reversed exactly
+        let operation = Operation::Replace {
+            range,
+            old_text: old_text.clone(),
+            new_text: new_text.to_string(),
         };
-
-        // Create command result
         let result = CommandResult::success_with_change(
             range,
             Position::new(range.start.offset + new_text.len()),
-        );
-
-        // Record in history
-        let result_with_delta = result.with_delta(delta.clone());
+        )
+        .with_delta(delta.clone());
         self.history.record_operation(
             operation,
             format!("Incremental edit at {}", range.start.offset),
-            &result_with_delta,
+            &result,
         );
 
-        // Apply the text change
-        self.replace_raw(range, new_text)?;
-
         // Mark as modified
         self.modified = true;
 
-- 
2.43.0


From fa3f7f1ee71f8c4e07a9d222d484ee3976196fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:46 +0000
Subject: [PATCH 41/73] fix: applying a script delta is recorded and can be
 undone

apply_script_delta changed the text without a history entry (the success
result it recorded says nothing changed), so later undos hit the wrong text.
It now records the text change as one edit and leaves the document as it was
when the delta cannot be applied.
---
 .../ass-editor/core/document/delta_apply.rs   |  26 ++--
 crates/ass-editor/core/document/delta_undo.rs | 119 ------------------
 crates/ass-editor/core/document/editing.rs    |  49 +++++++-
 crates/ass-editor/core/document/mod.rs        |   2 -
 crates/ass-editor/core/document/undo_redo.rs  |   2 +-
 5 files changed, 58 insertions(+), 140 deletions(-)
 delete mode 100644 crates/ass-editor/core/document/delta_undo.rs

diff --git a/crates/ass-editor/core/document/delta_apply.rs b/crates/ass-editor/core/document/delta_apply.rs
index a676159..d43e2a3 100644
--- a/crates/ass-editor/core/document/delta_apply.rs
+++ b/crates/ass-editor/core/document/delta_apply.rs
@@ -5,7 +5,6 @@
 //! revalidating the result.
 
 use super::EditorDocument;
-use crate::commands::CommandResult;
 use crate::core::errors::{EditorError, Result};
 use crate::core::position::{Position, Range};
 use ass_core::parser::ast::Section;
@@ -18,29 +17,22 @@ use alloc::string::ToString;
 impl EditorDocument {
     /// Apply a script delta and record it with undo data
     pub fn apply_script_delta(&mut self, delta: ScriptDeltaOwned) -> Result<()> {
-        use crate::core::history::Operation;
+        let before = self.text();
 
-        // Capture undo data before applying
-        let undo_data = self.capture_delta_undo_data(&delta)?;
-
-        // Apply delta
-        self.apply_script_delta_internal(delta.clone())?;
-
-        // Record with undo data
-        let operation = Operation::Delta {
-            forward: delta,
-            undo_data,
-        };
+        if let Err(error) = self.apply_script_delta_internal(delta) {
+            // Leave the document as it was
+            let end = Position::new(self.len_bytes());
+            self.replace_raw(Range::new(Position::start(), end), &before)?;
+            return Err(error);
+        }
 
-        let result = CommandResult::success();
-        self.history
-            .record_operation(operation, "Apply delta".to_string(), &result);
+        self.record_text_change(&before, "Apply delta".to_string(), None);
 
         Ok(())
     }
 
     /// Apply a script delta for efficient incremental parsing (internal)
-    fn apply_script_delta_internal(&mut self, delta: ScriptDeltaOwned) -> Result<()> {
+    pub(super) fn apply_script_delta_internal(&mut self, delta: ScriptDeltaOwned) -> Result<()> {
         // Parse the current script to get sections
         let current_content = self.text();
         let script = Script::parse(&current_content).map_err(EditorError::from)?;
diff --git a/crates/ass-editor/core/document/delta_undo.rs b/crates/ass-editor/core/document/delta_undo.rs
deleted file mode 100644
index d0a7f8d..0000000
--- a/crates/ass-editor/core/document/delta_undo.rs
+++ /dev/null
@@ -1,119 +0,0 @@
-//! Capturing undo data for script deltas
-//!
-//! Snapshots the pre-edit text of sections that a delta will remove or
-//! modify so the change can later be reversed. Exposed as `pub(super)` for
-//! the apply and incremental-edit submodules.
-
-use super::EditorDocument;
-use crate::core::errors::{EditorError, Result};
-use ass_core::parser::ast::Section;
-use ass_core::parser::script::ScriptDeltaOwned;
-
-#[cfg(not(feature = "std"))]
-use alloc::{
-    string::{String, ToString},
-    vec::Vec,
-};
-
-impl EditorDocument {
-    /// Capture undo data before applying a delta
-    pub(super) fn capture_delta_undo_data(
-        &self,
-        delta: &ScriptDeltaOwned,
-    ) -> Result<crate::core::history::DeltaUndoData> {
-        let mut removed_sections = Vec::new();
-        let mut modified_sections = Vec::new();
-
-        // First, get the current content for section extraction
-        let content = self.text();
-
-        // For incremental edits, use simplified undo data to avoid expensive full parsing
-        // Only do detailed section analysis for larger operations
-        #[cfg(feature = "stream")]
-        let is_small_edit = delta.added.len() + delta.removed.len() + delta.modified.len() <= 2;
-        #[cfg(not(feature = "stream"))]
-        let is_small_edit = false;
-
-        if is_small_edit {
-            // For small incremental edits, skip expensive undo data capture
-            // The basic text-based undo in edit_incremental will handle this
-        } else {
-            // For larger operations, do full undo data capture
-            let _ = self.parse_script_with(|script| {
-                // Capture removed sections
-                for &index in &delta.removed {
-                    if let Some(section) = script.sections().get(index) {
-                        match self.extract_section_text(&content, section) {
-                            Ok(section_text) => removed_sections.push((index, section_text)),
-                            Err(_) => {
-                                // If we can't extract the section text, store a placeholder
-                                removed_sections.push((index, String::new()));
-                            }
-                        }
-                    }
-                }
-
-                // Capture original state of modified sections
-                for (index, _) in &delta.modified {
-                    if let Some(section) = script.sections().get(*index) {
-                        match self.extract_section_text(&content, section) {
-                            Ok(section_text) => modified_sections.push((*index, section_text)),
-                            Err(_) => {
-                                // If we can't extract the section text, store a placeholder
-                                modified_sections.push((*index, String::new()));
-                            }
-                        }
-                    }
-                }
-
-                Ok::<(), EditorError>(())
-            })?;
-        }
-
-        Ok(crate::core::history::DeltaUndoData {
-            removed_sections,
-            modified_sections,
-        })
-    }
-
-    /// Extract section text from content
-    fn extract_section_text(&self, content: &str, section: &Section) -> Result<String> {
-        let header = match section {
-            Section::ScriptInfo(_) => "[Script Info]",
-            Section::Styles(_) => "[V4+ Styles]",
-            Section::Events(_) => "[Events]",
-            Section::Fonts(_) => "[Fonts]",
-            Section::Graphics(_) => "[Graphics]",
-        };
-
-        // Find the header in the content
-        let start = content
-            .find(header)
-            .ok_or_else(|| EditorError::SectionNotFound {
-                section: header.to_string(),
-            })?;
-
-        // Find the next section header or end of document
-        let section_headers = [
-            "[Script Info]",
-            "[V4+ Styles]",
-            "[Events]",
-            "[Fonts]",
-            "[Graphics]",
-        ];
-
-        let end = content[start + header.len()..]
-            .find(|_c: char| {
-                for sh in &section_headers {
-                    if content[start + header.len()..].starts_with(sh) {
-                        return true;
-                    }
-                }
-                false
-            })
-            .map(|pos| start + header.len() + pos)
-            .unwrap_or(content.len());
-
-        Ok(content[start..end].to_string())
-    }
-}
diff --git a/crates/ass-editor/core/document/editing.rs b/crates/ass-editor/core/document/editing.rs
index 118e123..ce4ae75 100644
--- a/crates/ass-editor/core/document/editing.rs
+++ b/crates/ass-editor/core/document/editing.rs
@@ -12,7 +12,7 @@ use crate::core::position::{Position, Range};
 use crate::events::DocumentEvent;
 
 #[cfg(not(feature = "std"))]
-use alloc::string::ToString;
+use alloc::string::{String, ToString};
 
 impl EditorDocument {
     /// Insert text at position with undo support
@@ -133,4 +133,51 @@ impl EditorDocument {
 
         Ok(())
     }
+
+    /// Record the difference between `before` and the current text as one edit
+    ///
+    /// Does nothing if the text is unchanged.
+    pub(super) fn record_text_change(
+        &mut self,
+        before: &str,
+        description: String,
+        cursor: Option<Position>,
+    ) {
+        use crate::commands::CommandResult;
+        use crate::core::history::Operation;
+
+        let after = self.text();
+        if after == before {
+            return;
+        }
+
+        let prefix: usize = before
+            .chars()
+            .zip(after.chars())
+            .take_while(|(old, new)| old == new)
+            .map(|(old, _)| old.len_utf8())
+            .sum();
+        let suffix: usize = before[prefix..]
+            .chars()
+            .rev()
+            .zip(after[prefix..].chars().rev())
+            .take_while(|(old, new)| old == new)
+            .map(|(old, _)| old.len_utf8())
+            .sum();
+
+        let start = Position::new(prefix);
+        let new_end = Position::new(after.len() - suffix);
+        let operation = Operation::Replace {
+            range: Range::new(start, Position::new(before.len() - suffix)),
+            old_text: before[prefix..before.len() - suffix].to_string(),
+            new_text: after[prefix..new_end.offset].to_string(),
+        };
+        let result = CommandResult::success_with_change(
+            Range::new(start, new_end),
+            cursor.unwrap_or(new_end),
+        );
+        self.history
+            .record_operation(operation, description, &result);
+        self.validator.clear_cache();
+    }
 }
diff --git a/crates/ass-editor/core/document/mod.rs b/crates/ass-editor/core/document/mod.rs
index ccf331f..7fe26bd 100644
--- a/crates/ass-editor/core/document/mod.rs
+++ b/crates/ass-editor/core/document/mod.rs
@@ -24,8 +24,6 @@ mod delta_apply;
 #[cfg(feature = "stream")]
 mod delta_sections;
 #[cfg(feature = "stream")]
-mod delta_undo;
-#[cfg(feature = "stream")]
 mod incremental_edit;
 #[cfg(feature = "stream")]
 mod incremental_fast;
diff --git a/crates/ass-editor/core/document/undo_redo.rs b/crates/ass-editor/core/document/undo_redo.rs
index 807659b..27c49a1 100644
--- a/crates/ass-editor/core/document/undo_redo.rs
+++ b/crates/ass-editor/core/document/undo_redo.rs
@@ -142,7 +142,7 @@ impl EditorDocument {
                     undo_data: _,
                 } => {
                     // Re-apply the delta
-                    self.apply_script_delta(forward.clone())?;
+                    self.apply_script_delta_internal(forward.clone())?;
                     result.message = Some("Delta re-applied".to_string());
                 }
             }
-- 
2.43.0


From 5afff253013ecbe2e45a931fdc4b49189eecae11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:25 +0000
Subject: [PATCH 42/73] fix: commands record exactly the edit they make

execute_command recorded a second, made-up operation beside the edits of the
command (or none that restores a deletion), and tag, karaoke, font and script
info commands changed the text without recording it, so undo corrupted the
document. A command is now one history entry, and a failed one leaves the
document as it was.
---
 .../commands/fonts_graphics_commands/add.rs   | 12 +--
 .../commands/karaoke_commands/adjust_impl.rs  |  2 +-
 .../commands/karaoke_commands/apply_impl.rs   |  2 +-
 .../commands/karaoke_commands/generate.rs     |  2 +-
 .../commands/karaoke_commands/split.rs        |  2 +-
 .../commands/script_info_commands/set.rs      |  2 +-
 .../commands/tag_commands/insert.rs           |  2 +-
 .../commands/tag_commands/remove.rs           |  2 +-
 .../commands/tag_commands/replace.rs          |  2 +-
 .../ass-editor/commands/tag_commands/wrap.rs  |  4 +-
 crates/ass-editor/commands/text_commands.rs   |  6 +-
 crates/ass-editor/core/document/editing.rs    | 52 ++++++++---
 .../ass-editor/core/document/editing_raw.rs   |  6 +-
 crates/ass-editor/core/document/validation.rs | 89 +++++--------------
 14 files changed, 84 insertions(+), 101 deletions(-)

diff --git a/crates/ass-editor/commands/fonts_graphics_commands/add.rs b/crates/ass-editor/commands/fonts_graphics_commands/add.rs
index 61053e1..4b623d4 100644
--- a/crates/ass-editor/commands/fonts_graphics_commands/add.rs
+++ b/crates/ass-editor/commands/fonts_graphics_commands/add.rs
@@ -61,12 +61,12 @@ impl EditorCommand for AddFontCommand {
 
             // Add newline if needed
             if !content.ends_with('\n') {
-                document.insert_raw(Position::new(insert_pos), "\n")?;
+                document.insert(Position::new(insert_pos), "\n")?;
                 insert_pos += 1;
             }
 
             // Add section header
-            document.insert_raw(Position::new(insert_pos), "[Fonts]\n")?;
+            document.insert(Position::new(insert_pos), "[Fonts]\n")?;
             insert_pos + "[Fonts]\n".len()
         };
 
@@ -79,7 +79,7 @@ impl EditorCommand for AddFontCommand {
         }
 
         // Insert font data
-        document.insert_raw(Position::new(insert_pos), &font_entry)?;
+        document.insert(Position::new(insert_pos), &font_entry)?;
 
         Ok(CommandResult::success_with_change(
             Range::new(
@@ -151,12 +151,12 @@ impl EditorCommand for AddGraphicCommand {
 
             // Add newline if needed
             if !content.ends_with('\n') {
-                document.insert_raw(Position::new(insert_pos), "\n")?;
+                document.insert(Position::new(insert_pos), "\n")?;
                 insert_pos += 1;
             }
 
             // Add section header
-            document.insert_raw(Position::new(insert_pos), "[Graphics]\n")?;
+            document.insert(Position::new(insert_pos), "[Graphics]\n")?;
             insert_pos + "[Graphics]\n".len()
         };
 
@@ -169,7 +169,7 @@ impl EditorCommand for AddGraphicCommand {
         }
 
         // Insert graphic data
-        document.insert_raw(Position::new(insert_pos), &graphic_entry)?;
+        document.insert(Position::new(insert_pos), &graphic_entry)?;
 
         Ok(CommandResult::success_with_change(
             Range::new(
diff --git a/crates/ass-editor/commands/karaoke_commands/adjust_impl.rs b/crates/ass-editor/commands/karaoke_commands/adjust_impl.rs
index 40086b8..bc1b4f0 100644
--- a/crates/ass-editor/commands/karaoke_commands/adjust_impl.rs
+++ b/crates/ass-editor/commands/karaoke_commands/adjust_impl.rs
@@ -16,7 +16,7 @@ impl EditorCommand for AdjustKaraokeCommand {
         let original_text = document.text_range(self.range)?;
         let adjusted_text = self.adjust_karaoke_timing(&original_text)?;
 
-        document.replace_raw(self.range, &adjusted_text)?;
+        document.replace(self.range, &adjusted_text)?;
 
         let end_pos = Position::new(self.range.start.offset + adjusted_text.len());
         let range = Range::new(self.range.start, end_pos);
diff --git a/crates/ass-editor/commands/karaoke_commands/apply_impl.rs b/crates/ass-editor/commands/karaoke_commands/apply_impl.rs
index dcf47b5..acc59f9 100644
--- a/crates/ass-editor/commands/karaoke_commands/apply_impl.rs
+++ b/crates/ass-editor/commands/karaoke_commands/apply_impl.rs
@@ -17,7 +17,7 @@ impl EditorCommand for ApplyKaraokeCommand {
         let original_text = document.text_range(self.event_range)?;
         let karaoke_text = self.apply_karaoke_template(&original_text, document)?;
 
-        document.replace_raw(self.event_range, &karaoke_text)?;
+        document.replace(self.event_range, &karaoke_text)?;
 
         let end_pos = Position::new(self.event_range.start.offset + karaoke_text.len());
         let range = Range::new(self.event_range.start, end_pos);
diff --git a/crates/ass-editor/commands/karaoke_commands/generate.rs b/crates/ass-editor/commands/karaoke_commands/generate.rs
index 0d2c583..331db83 100644
--- a/crates/ass-editor/commands/karaoke_commands/generate.rs
+++ b/crates/ass-editor/commands/karaoke_commands/generate.rs
@@ -154,7 +154,7 @@ impl EditorCommand for GenerateKaraokeCommand {
             karaoke_text.push_str(syllable);
         }
 
-        document.replace_raw(self.range, &karaoke_text)?;
+        document.replace(self.range, &karaoke_text)?;
 
         let end_pos = Position::new(self.range.start.offset + karaoke_text.len());
         let range = Range::new(self.range.start, end_pos);
diff --git a/crates/ass-editor/commands/karaoke_commands/split.rs b/crates/ass-editor/commands/karaoke_commands/split.rs
index 61b6c94..8fa7294 100644
--- a/crates/ass-editor/commands/karaoke_commands/split.rs
+++ b/crates/ass-editor/commands/karaoke_commands/split.rs
@@ -40,7 +40,7 @@ impl EditorCommand for SplitKaraokeCommand {
         let original_text = document.text_range(self.range)?;
         let processed_text = self.split_karaoke_text(&original_text)?;
 
-        document.replace_raw(self.range, &processed_text)?;
+        document.replace(self.range, &processed_text)?;
 
         let end_pos = Position::new(self.range.start.offset + processed_text.len());
         let range = Range::new(self.range.start, end_pos);
diff --git a/crates/ass-editor/commands/script_info_commands/set.rs b/crates/ass-editor/commands/script_info_commands/set.rs
index 04c1de9..b572466 100644
--- a/crates/ass-editor/commands/script_info_commands/set.rs
+++ b/crates/ass-editor/commands/script_info_commands/set.rs
@@ -76,7 +76,7 @@ impl EditorCommand for SetScriptInfoCommand {
                 .unwrap_or(script_info_start + 13); // Length of "[Script Info]"
 
             let new_line = format!("{}: {}\n", self.property, self.value);
-            document.insert_raw(Position::new(insert_pos), &new_line)?;
+            document.insert(Position::new(insert_pos), &new_line)?;
 
             Ok(CommandResult::success_with_change(
                 Range::new(
diff --git a/crates/ass-editor/commands/tag_commands/insert.rs b/crates/ass-editor/commands/tag_commands/insert.rs
index 83a0682..0730015 100644
--- a/crates/ass-editor/commands/tag_commands/insert.rs
+++ b/crates/ass-editor/commands/tag_commands/insert.rs
@@ -68,7 +68,7 @@ impl InsertTagCommand {
 impl EditorCommand for InsertTagCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
         let formatted_tag = self.format_tag()?;
-        document.insert_raw(self.position, &formatted_tag)?;
+        document.insert(self.position, &formatted_tag)?;
 
         let end_pos = Position::new(self.position.offset + formatted_tag.len());
         let range = Range::new(self.position, end_pos);
diff --git a/crates/ass-editor/commands/tag_commands/remove.rs b/crates/ass-editor/commands/tag_commands/remove.rs
index be7a97a..79a0656 100644
--- a/crates/ass-editor/commands/tag_commands/remove.rs
+++ b/crates/ass-editor/commands/tag_commands/remove.rs
@@ -51,7 +51,7 @@ impl EditorCommand for RemoveTagCommand {
         let original_text = document.text_range(self.range)?;
         let cleaned_text = self.remove_tags_from_text(&original_text)?;
 
-        document.replace_raw(self.range, &cleaned_text)?;
+        document.replace(self.range, &cleaned_text)?;
 
         let end_pos = Position::new(self.range.start.offset + cleaned_text.len());
         let range = Range::new(self.range.start, end_pos);
diff --git a/crates/ass-editor/commands/tag_commands/replace.rs b/crates/ass-editor/commands/tag_commands/replace.rs
index ab54b36..5280729 100644
--- a/crates/ass-editor/commands/tag_commands/replace.rs
+++ b/crates/ass-editor/commands/tag_commands/replace.rs
@@ -50,7 +50,7 @@ impl EditorCommand for ReplaceTagCommand {
         let original_text = document.text_range(self.range)?;
         let replaced_text = self.replace_tags_in_text(&original_text)?;
 
-        document.replace_raw(self.range, &replaced_text)?;
+        document.replace(self.range, &replaced_text)?;
 
         let end_pos = Position::new(self.range.start.offset + replaced_text.len());
         let range = Range::new(self.range.start, end_pos);
diff --git a/crates/ass-editor/commands/tag_commands/wrap.rs b/crates/ass-editor/commands/tag_commands/wrap.rs
index 9ad050d..5e10071 100644
--- a/crates/ass-editor/commands/tag_commands/wrap.rs
+++ b/crates/ass-editor/commands/tag_commands/wrap.rs
@@ -81,11 +81,11 @@ impl EditorCommand for WrapTagCommand {
 
         // Insert closing tag first (so positions don't shift)
         let closing_formatted = format!("{{{closing_tag}}}");
-        document.insert_raw(self.range.end, &closing_formatted)?;
+        document.insert(self.range.end, &closing_formatted)?;
 
         // Insert opening tag
         let opening_formatted = format!("{{{}}}", self.opening_tag);
-        document.insert_raw(self.range.start, &opening_formatted)?;
+        document.insert(self.range.start, &opening_formatted)?;
 
         let total_length = opening_formatted.len()
             + (self.range.end.offset - self.range.start.offset)
diff --git a/crates/ass-editor/commands/text_commands.rs b/crates/ass-editor/commands/text_commands.rs
index b9e928b..4e4ab22 100644
--- a/crates/ass-editor/commands/text_commands.rs
+++ b/crates/ass-editor/commands/text_commands.rs
@@ -51,7 +51,7 @@ impl InsertTextCommand {
 
 impl EditorCommand for InsertTextCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
-        document.insert_raw(self.position, &self.text)?;
+        document.insert_described(self.position, &self.text, self.description())?;
 
         let end_pos = Position::new(self.position.offset + self.text.len());
         let range = Range::new(self.position, end_pos);
@@ -98,7 +98,7 @@ impl DeleteTextCommand {
 
 impl EditorCommand for DeleteTextCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
-        document.delete_raw(self.range)?;
+        document.delete_described(self.range, self.description())?;
 
         let cursor_pos = self.range.start;
         let range = Range::new(self.range.start, self.range.start);
@@ -142,7 +142,7 @@ impl ReplaceTextCommand {
 
 impl EditorCommand for ReplaceTextCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
-        document.replace_raw(self.range, &self.new_text)?;
+        document.replace_described(self.range, &self.new_text, self.description())?;
 
         let end_pos = Position::new(self.range.start.offset + self.new_text.len());
         let range = Range::new(self.range.start, end_pos);
diff --git a/crates/ass-editor/core/document/editing.rs b/crates/ass-editor/core/document/editing.rs
index ce4ae75..9bd0204 100644
--- a/crates/ass-editor/core/document/editing.rs
+++ b/crates/ass-editor/core/document/editing.rs
@@ -40,11 +40,22 @@ impl EditorDocument {
     ///
     /// Returns `Err` if the position is beyond the document bounds.
     pub fn insert(&mut self, pos: Position, text: &str) -> Result<()> {
-        use crate::commands::{EditorCommand, InsertTextCommand};
+        self.insert_described(pos, text, "Insert text")
+    }
+
+    /// Insert text, recording the edit under the given description
+    pub(crate) fn insert_described(
+        &mut self,
+        pos: Position,
+        text: &str,
+        description: &str,
+    ) -> Result<()> {
+        use crate::commands::CommandResult;
         use crate::core::history::Operation;
 
-        let command = InsertTextCommand::new(pos, text.to_string());
-        let result = command.execute(self)?;
+        self.insert_raw(pos, text)?;
+        let end_pos = Position::new(pos.offset + text.len());
+        let result = CommandResult::success_with_change(Range::new(pos, end_pos), end_pos);
 
         // Record the operation in history
         let operation = Operation::Insert {
@@ -52,7 +63,7 @@ impl EditorDocument {
             text: text.to_string(),
         };
         self.history
-            .record_operation(operation, command.description().to_string(), &result);
+            .record_operation(operation, description.to_string(), &result);
 
         // Clear validation cache since content changed
         self.validator.clear_cache();
@@ -70,14 +81,20 @@ impl EditorDocument {
 
     /// Delete text in range with undo support
     pub fn delete(&mut self, range: Range) -> Result<()> {
-        use crate::commands::{DeleteTextCommand, EditorCommand};
+        self.delete_described(range, "Delete text")
+    }
+
+    /// Delete text, recording the edit under the given description
+    pub(crate) fn delete_described(&mut self, range: Range, description: &str) -> Result<()> {
+        use crate::commands::CommandResult;
         use crate::core::history::Operation;
 
         // Capture the text that will be deleted BEFORE deletion
         let deleted_text = self.text_range(range)?;
 
-        let command = DeleteTextCommand::new(range);
-        let result = command.execute(self)?;
+        self.delete_raw(range)?;
+        let result =
+            CommandResult::success_with_change(Range::new(range.start, range.start), range.start);
 
         // Record the operation in history
         let operation = Operation::Delete {
@@ -85,7 +102,7 @@ impl EditorDocument {
             deleted_text: deleted_text.clone(),
         };
         self.history
-            .record_operation(operation, command.description().to_string(), &result);
+            .record_operation(operation, description.to_string(), &result);
 
         // Clear validation cache since content changed
         self.validator.clear_cache();
@@ -102,14 +119,25 @@ impl EditorDocument {
 
     /// Replace text in range with undo support
     pub fn replace(&mut self, range: Range, text: &str) -> Result<()> {
-        use crate::commands::{EditorCommand, ReplaceTextCommand};
+        self.replace_described(range, text, "Replace text")
+    }
+
+    /// Replace text, recording the edit under the given description
+    pub(crate) fn replace_described(
+        &mut self,
+        range: Range,
+        text: &str,
+        description: &str,
+    ) -> Result<()> {
+        use crate::commands::CommandResult;
         use crate::core::history::Operation;
 
         // Capture the old text BEFORE replacement
         let old_text = self.text_range(range)?;
 
-        let command = ReplaceTextCommand::new(range, text.to_string());
-        let result = command.execute(self)?;
+        self.replace_raw(range, text)?;
+        let end_pos = Position::new(range.start.offset + text.len());
+        let result = CommandResult::success_with_change(Range::new(range.start, end_pos), end_pos);
 
         // Record the operation in history
         let operation = Operation::Replace {
@@ -118,7 +146,7 @@ impl EditorDocument {
             new_text: text.to_string(),
         };
         self.history
-            .record_operation(operation, command.description().to_string(), &result);
+            .record_operation(operation, description.to_string(), &result);
 
         // Clear validation cache since content changed
         self.validator.clear_cache();
diff --git a/crates/ass-editor/core/document/editing_raw.rs b/crates/ass-editor/core/document/editing_raw.rs
index 9e827cb..c8e0a4b 100644
--- a/crates/ass-editor/core/document/editing_raw.rs
+++ b/crates/ass-editor/core/document/editing_raw.rs
@@ -11,8 +11,10 @@ impl EditorDocument {
     /// Refuse an offset that lies inside a multi-byte character
     pub(super) fn require_char_boundary(&self, offset: usize) -> Result<()> {
         #[cfg(feature = "rope")]
-        let on_boundary =
-            self.text_rope.char_to_byte(self.text_rope.byte_to_char(offset)) == offset;
+        let on_boundary = self
+            .text_rope
+            .char_to_byte(self.text_rope.byte_to_char(offset))
+            == offset;
         #[cfg(not(feature = "rope"))]
         let on_boundary = self.text_content.is_char_boundary(offset);
 
diff --git a/crates/ass-editor/core/document/validation.rs b/crates/ass-editor/core/document/validation.rs
index ecac929..3c7a438 100644
--- a/crates/ass-editor/core/document/validation.rs
+++ b/crates/ass-editor/core/document/validation.rs
@@ -46,76 +46,29 @@ impl EditorDocument {
         &mut self,
         command: &dyn crate::commands::EditorCommand,
     ) -> Result<crate::commands::CommandResult> {
-        use crate::core::history::Operation;
-
-        // Get the cursor position before
-        let _cursor_before = self.cursor_position();
-
-        // Execute the command
-        let result = command.execute(self)?;
-
-        // Only record if the command changed content
-        if result.content_changed {
-            // Determine the operation based on the result
-            let operation = if let Some(range) = result.modified_range {
-                if range.is_empty() {
-                    // This was an insertion
-                    let inserted_text = self.text_range(Range::new(
-                        range.start,
-                        Position::new(
-                            range.start.offset
-                                + result
-                                    .new_cursor
-                                    .map_or(0, |c| c.offset - range.start.offset),
-                        ),
-                    ))?;
-                    Operation::Insert {
-                        position: range.start,
-                        text: inserted_text,
-                    }
-                } else {
-                    // For batch commands and complex operations, we need to be more careful
-                    // Store enough information to properly undo
-                    // This is a simplified approach - ideally each command would handle its own undo
-                    let cmd_desc = command.description();
-                    if cmd_desc.contains("batch") || cmd_desc.contains("Multiple") {
-                        // For batch operations, we don't have enough info
-                        // Just use a simple insert operation
-                        Operation::Insert {
-                            position: range.start,
-                            text: String::new(),
-                        }
-                    } else {
-                        // For simple operations, use the range info
-                        Operation::Replace {
-                            range,
-                            old_text: String::new(), // We don't have the old text
-                            new_text: self.text_range(range).unwrap_or_default(),
-                        }
-                    }
-                }
-            } else {
-                // No range info - create a generic operation
-                Operation::Insert {
-                    position: Position::new(0),
-                    text: String::new(),
-                }
-            };
-
-            // Update cursor if needed
-            if let Some(new_cursor) = result.new_cursor {
-                self.set_cursor_position(Some(new_cursor));
+        let before = self.text();
+
+        // The edits the command makes become a single history entry
+        let history = core::mem::take(&mut self.history);
+        let outcome = command.execute(self);
+        self.history = history;
+
+        match outcome {
+            Ok(result) => {
+                self.record_text_change(
+                    &before,
+                    command.description().to_string(),
+                    result.new_cursor,
+                );
+                Ok(result)
+            }
+            Err(error) => {
+                // A failed command leaves the document as it was
+                let end = Position::new(self.len_bytes());
+                self.replace_raw(Range::new(Position::start(), end), &before)?;
+                Err(error)
             }
-
-            // Record in history
-            self.history
-                .record_operation(operation, command.description().to_string(), &result);
-
-            // Clear validation cache since content changed
-            self.validator.clear_cache();
         }
-
-        Ok(result)
     }
 
     /// Perform comprehensive validation using the LazyValidator
-- 
2.43.0


From bbc0feb70729403ac771e3627fcb7d325eeb4c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:38 +0000
Subject: [PATCH 43/73] fix: unused import without std

---
 crates/ass-editor/core/document/validation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/ass-editor/core/document/validation.rs b/crates/ass-editor/core/document/validation.rs
index 3c7a438..43e322d 100644
--- a/crates/ass-editor/core/document/validation.rs
+++ b/crates/ass-editor/core/document/validation.rs
@@ -9,7 +9,7 @@ use crate::core::position::{Position, Range};
 use ass_core::parser::Script;
 
 #[cfg(not(feature = "std"))]
-use alloc::string::{String, ToString};
+use alloc::string::ToString;
 
 impl EditorDocument {
     /// Parse the current document content into a Script
-- 
2.43.0


From dc2385d8b6f4c69da2cfc28762cc6ba8e69e5649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:28 +0000
Subject: [PATCH 44/73] fix: search finds exactly the occurrences asked for

Plain search looked up whole words in a lower-case index even when substrings
or exact case were asked for, ignored scopes and word boundaries, reported
lines and columns that are not those of the match, sliced inside multi-byte
characters, and an index update guessed the new positions. Replacement used
stale positions or approximate matches. Search now scans the text (or checks
index hits against it), and replacement works on the document as it is.
---
 crates/ass-editor/utils/indexing/fst_build.rs |   5 +-
 .../ass-editor/utils/indexing/fst_search.rs   |  27 +--
 crates/ass-editor/utils/indexing/linear.rs    |  32 +--
 crates/ass-editor/utils/search/basic.rs       | 223 +++++++++++-------
 crates/ass-editor/utils/search/incremental.rs | 172 +-------------
 crates/ass-editor/utils/search/query.rs       | 109 ++++-----
 .../ass-editor/utils/search/regex_search.rs   |  86 ++-----
 crates/ass-editor/utils/search/trait_impl.rs  |  35 ++-
 8 files changed, 260 insertions(+), 429 deletions(-)

diff --git a/crates/ass-editor/utils/indexing/fst_build.rs b/crates/ass-editor/utils/indexing/fst_build.rs
index de58176..f31cf72 100644
--- a/crates/ass-editor/utils/indexing/fst_build.rs
+++ b/crates/ass-editor/utils/indexing/fst_build.rs
@@ -16,7 +16,8 @@ impl FstSearchIndex {
         let mut line_start = 0;
         let mut current_section = None;
 
-        for (current_line, line) in content.lines().enumerate() {
+        for (current_line, full_line) in content.split_inclusive('\n').enumerate() {
+            let line = full_line.trim_end_matches(['\r', '\n']);
             // Track current section
             if line.starts_with('[') && line.ends_with(']') {
                 current_section = Some(line[1..line.len() - 1].to_string());
@@ -65,7 +66,7 @@ impl FstSearchIndex {
                 }
             }
 
-            line_start += line.len() + 1; // +1 for newline
+            line_start += full_line.len();
         }
 
         words
diff --git a/crates/ass-editor/utils/indexing/fst_search.rs b/crates/ass-editor/utils/indexing/fst_search.rs
index 86cebfa..ff547c5 100644
--- a/crates/ass-editor/utils/indexing/fst_search.rs
+++ b/crates/ass-editor/utils/indexing/fst_search.rs
@@ -3,7 +3,9 @@
 use super::common::calculate_hash;
 use super::fst::FstSearchIndex;
 use crate::core::{EditorDocument, Position, Range, Result};
-use crate::utils::search::{DocumentSearch, SearchOptions, SearchResult, SearchStats};
+use crate::utils::search::{
+    DocumentSearch, DocumentSearchImpl, SearchOptions, SearchResult, SearchStats,
+};
 
 use fst::{automaton, IntoStreamer, Streamer};
 
@@ -69,10 +71,15 @@ impl DocumentSearch for FstSearchIndex {
                     for entry in entries {
                         // Apply scope filtering
                         if self.matches_scope(entry, &options.scope) {
+                            let rest = &entry.context[entry.column..];
+                            let word_end = rest
+                                .find(|ch: char| !(ch.is_alphanumeric() || ch == '_'))
+                                .unwrap_or(rest.len());
+                            let word = &rest[..word_end];
                             results.push(SearchResult {
                                 start: entry.position,
-                                end: Position::new(entry.position.offset + pattern.len()),
-                                text: std::borrow::Cow::Owned(pattern.to_string()),
+                                end: Position::new(entry.position.offset + word.len()),
+                                text: std::borrow::Cow::Owned(word.to_string()),
                                 context: std::borrow::Cow::Owned(entry.context.clone()),
                                 line: entry.line,
                                 column: entry.column,
@@ -98,18 +105,8 @@ impl DocumentSearch for FstSearchIndex {
         replacement: &str,
         options: &SearchOptions,
     ) -> Result<Vec<SearchResult<'a>>> {
-        let results = self.search(pattern, options)?;
-
-        // Apply replacements in reverse order to maintain position validity
-        let mut sorted_results = results.clone();
-        sorted_results.sort_by_key(|r| core::cmp::Reverse(r.start.offset));
-
-        for result in &sorted_results {
-            let range = Range::new(result.start, result.end);
-            document.replace(range, replacement)?;
-        }
-
-        Ok(results)
+        // The index answers approximate queries: replace exact occurrences only
+        DocumentSearchImpl::replace_all(document, pattern, replacement, options)
     }
 
     fn stats(&self) -> SearchStats {
diff --git a/crates/ass-editor/utils/indexing/linear.rs b/crates/ass-editor/utils/indexing/linear.rs
index d6fca10..2b8a3fa 100644
--- a/crates/ass-editor/utils/indexing/linear.rs
+++ b/crates/ass-editor/utils/indexing/linear.rs
@@ -2,7 +2,9 @@
 
 use super::common::{calculate_hash, IndexEntry};
 use crate::core::{EditorDocument, Position, Range, Result};
-use crate::utils::search::{DocumentSearch, SearchOptions, SearchResult, SearchStats};
+use crate::utils::search::{
+    DocumentSearch, DocumentSearchImpl, SearchOptions, SearchResult, SearchStats,
+};
 
 #[cfg(feature = "std")]
 use std::{borrow::Cow, collections::HashMap, time::Instant};
@@ -76,8 +78,12 @@ impl DocumentSearch for LinearSearchIndex {
 
         let mut line_start = 0;
 
-        for (current_line, line) in content.lines().enumerate() {
-            for (word_start, word) in line.split_whitespace().enumerate() {
+        for (current_line, full_line) in content.split_inclusive('\n').enumerate() {
+            let line = full_line.trim_end_matches(['\r', '\n']);
+            let mut column = 0;
+            for word in line.split_whitespace() {
+                let word_start = column + line[column..].find(word).unwrap_or(0);
+                column = word_start + word.len();
                 let entry = IndexEntry {
                     position: Position::new(line_start + word_start),
                     context: line.to_string(),
@@ -90,7 +96,7 @@ impl DocumentSearch for LinearSearchIndex {
                     .or_default()
                     .push(entry);
             }
-            line_start += line.len() + 1;
+            line_start += full_line.len();
         }
 
         Ok(())
@@ -108,10 +114,14 @@ impl DocumentSearch for LinearSearchIndex {
         for (word, entries) in &self.word_positions {
             if word.contains(&query) {
                 for entry in entries {
+                    let word = entry.context[entry.column..]
+                        .split_whitespace()
+                        .next()
+                        .unwrap_or_default();
                     results.push(SearchResult {
                         start: entry.position,
-                        end: Position::new(entry.position.offset + pattern.len()),
-                        text: Cow::Owned(pattern.to_string()),
+                        end: Position::new(entry.position.offset + word.len()),
+                        text: Cow::Owned(word.to_string()),
                         context: Cow::Owned(entry.context.clone()),
                         line: entry.line,
                         column: entry.column,
@@ -130,14 +140,8 @@ impl DocumentSearch for LinearSearchIndex {
         replacement: &str,
         options: &SearchOptions,
     ) -> Result<Vec<SearchResult<'a>>> {
-        let results = self.search(pattern, options)?;
-
-        for result in &results {
-            let range = Range::new(result.start, result.end);
-            document.replace(range, replacement)?;
-        }
-
-        Ok(results)
+        // The index answers approximate queries: replace exact occurrences only
+        DocumentSearchImpl::replace_all(document, pattern, replacement, options)
     }
 
     fn stats(&self) -> SearchStats {
diff --git a/crates/ass-editor/utils/search/basic.rs b/crates/ass-editor/utils/search/basic.rs
index 99b3f39..842724a 100644
--- a/crates/ass-editor/utils/search/basic.rs
+++ b/crates/ass-editor/utils/search/basic.rs
@@ -1,8 +1,8 @@
 //! Basic (non-indexed) substring search
 //!
-//! Implements the fallback text search used by
-//! [`DocumentSearchImpl`](super::DocumentSearchImpl) when no FST index is
-//! available or the `search-index` feature is disabled.
+//! Implements the exact text search of
+//! [`DocumentSearchImpl`](super::DocumentSearchImpl) and the scope and result
+//! helpers shared by the other kinds of search.
 
 use super::engine::DocumentSearchImpl;
 use super::options::{SearchOptions, SearchResult, SearchScope};
@@ -15,106 +15,157 @@ use std::borrow::Cow;
 use alloc::borrow::Cow;
 
 #[cfg(not(feature = "std"))]
-use alloc::{string::ToString, vec::Vec};
+use alloc::{string::ToString, vec, vec::Vec};
 
-impl DocumentSearchImpl {
-    /// Perform basic text search without FST indexing
-    pub(super) fn basic_search(
-        &self,
-        pattern: &str,
-        options: &SearchOptions,
-    ) -> Result<Vec<SearchResult<'static>>> {
-        let mut results = Vec::new();
-        let search_pattern = if options.case_sensitive {
-            pattern.to_string()
-        } else {
-            pattern.to_lowercase()
-        };
+/// Whether a character belongs to a word
+pub(super) fn is_word_char(ch: char) -> bool {
+    ch.is_alphanumeric() || ch == '_'
+}
+
+/// The characters a pattern is compared by
+pub(super) fn pattern_chars(pattern: &str, case_sensitive: bool) -> Vec<char> {
+    if case_sensitive {
+        pattern.chars().collect()
+    } else {
+        pattern.chars().flat_map(char::to_lowercase).collect()
+    }
+}
 
-        let search_text = if options.case_sensitive {
-            Cow::Borrowed(&self.cached_text)
+/// Length in bytes of the match of `pattern` at the start of `text`, if any
+pub(super) fn matched_len(text: &str, pattern: &[char], case_sensitive: bool) -> Option<usize> {
+    let mut matched = 0;
+    for (offset, ch) in text.char_indices() {
+        if matched == pattern.len() {
+            return Some(offset);
+        }
+        if case_sensitive {
+            if pattern[matched] != ch {
+                return None;
+            }
+            matched += 1;
         } else {
-            Cow::Owned(self.cached_text.to_lowercase())
-        };
+            for lower in ch.to_lowercase() {
+                if matched >= pattern.len() || pattern[matched] != lower {
+                    return None;
+                }
+                matched += 1;
+            }
+        }
+    }
+    (matched == pattern.len()).then_some(text.len())
+}
 
-        // Apply search scope
-        let (search_start, search_end) = match &options.scope {
-            SearchScope::All => (0, search_text.len()),
+/// Whether the text between two offsets is not part of a longer word
+pub(super) fn is_whole_word(text: &str, start: usize, end: usize) -> bool {
+    !text[..start].chars().next_back().is_some_and(is_word_char)
+        && !text[end..].chars().next().is_some_and(is_word_char)
+}
+
+impl DocumentSearchImpl {
+    /// Byte ranges of the cached text that a scope selects, in order
+    pub(super) fn scope_ranges(&self, scope: &SearchScope) -> Vec<(usize, usize)> {
+        let text = self.cached_text.as_str();
+        match scope {
+            SearchScope::All => vec![(0, text.len())],
             SearchScope::Range(range) => {
-                (range.start.offset, range.end.offset.min(search_text.len()))
+                let mut start = range.start.offset.min(text.len());
+                while !text.is_char_boundary(start) {
+                    start += 1;
+                }
+                let mut end = range.end.offset.min(text.len());
+                while !text.is_char_boundary(end) {
+                    end -= 1;
+                }
+                if start <= end {
+                    vec![(start, end)]
+                } else {
+                    Vec::new()
+                }
             }
             SearchScope::Lines { start, end } => {
-                // Calculate byte offsets for line range
-                let mut line_num = 0;
-                let mut start_offset = 0;
-                let mut end_offset = search_text.len();
-
-                for (i, ch) in search_text.char_indices() {
-                    if line_num == *start && start_offset == 0 {
-                        start_offset = i;
+                let mut selected: Option<(usize, usize)> = None;
+                let mut offset = 0;
+                for (number, line) in text.split_inclusive('\n').enumerate() {
+                    if number >= *start && number <= *end {
+                        let first = selected.map_or(offset, |(first, _)| first);
+                        selected = Some((first, offset + line.len()));
                     }
-                    if ch == '\n' {
-                        line_num += 1;
-                        if line_num > *end {
-                            end_offset = i;
-                            break;
+                    offset += line.len();
+                }
+                selected.into_iter().collect()
+            }
+            SearchScope::Sections(names) => {
+                let mut ranges = Vec::new();
+                let mut current: Option<usize> = None;
+                let mut offset = 0;
+                for line in text.split_inclusive('\n') {
+                    let trimmed = line.trim();
+                    if let Some(name) = trimmed
+                        .strip_prefix('[')
+                        .and_then(|rest| rest.strip_suffix(']'))
+                    {
+                        if let Some(start) = current.take() {
+                            ranges.push((start, offset));
+                        }
+                        if names.iter().any(|wanted| wanted == name) {
+                            current = Some(offset);
                         }
                     }
+                    offset += line.len();
                 }
-                (start_offset, end_offset)
-            }
-            SearchScope::Sections(_) => {
-                // For sections, would need to parse and identify section boundaries
-                // For now, search entire document
-                (0, search_text.len())
-            }
-        };
-
-        let search_region = &search_text[search_start..search_end];
-        let mut region_offset = 0;
-
-        while let Some(match_idx) = search_region[region_offset..].find(&search_pattern) {
-            let absolute_idx = search_start + region_offset + match_idx;
-            let match_end = absolute_idx + search_pattern.len();
-
-            // Calculate line and column
-            let mut line = 0;
-            let mut line_start = 0;
-
-            for (i, ch) in self.cached_text[..absolute_idx].char_indices() {
-                if ch == '\n' {
-                    line += 1;
-                    line_start = i + 1;
+                if let Some(start) = current {
+                    ranges.push((start, offset));
                 }
+                ranges
             }
+        }
+    }
 
-            let column = absolute_idx - line_start;
-
-            // Extract context (line containing the match)
-            let context_start = self.cached_text[..absolute_idx]
-                .rfind('\n')
-                .map(|i| i + 1)
-                .unwrap_or(0);
-            let context_end = self.cached_text[absolute_idx..]
-                .find('\n')
-                .map(|i| absolute_idx + i)
-                .unwrap_or(self.cached_text.len());
-            let context = self.cached_text[context_start..context_end].to_string();
+    /// Describe the match between two offsets of the cached text
+    pub(super) fn result_at(&self, start: usize, end: usize) -> SearchResult<'static> {
+        let text = self.cached_text.as_str();
+        let line = text[..start].matches('\n').count();
+        let line_start = text[..start].rfind('\n').map_or(0, |i| i + 1);
+        let line_end = text[start..].find('\n').map_or(text.len(), |i| start + i);
+
+        SearchResult {
+            start: Position::new(start),
+            end: Position::new(end),
+            text: Cow::Owned(text[start..end].to_string()),
+            context: Cow::Owned(text[line_start..line_end].to_string()),
+            line,
+            column: start - line_start,
+        }
+    }
 
-            results.push(SearchResult {
-                start: Position::new(absolute_idx),
-                end: Position::new(match_end),
-                text: Cow::Owned(self.cached_text[absolute_idx..match_end].to_string()),
-                context: Cow::Owned(context),
-                line,
-                column,
-            });
+    /// Find every occurrence of the pattern, from left to right without overlap
+    pub(super) fn basic_search(
+        &self,
+        pattern: &str,
+        options: &SearchOptions,
+    ) -> Result<Vec<SearchResult<'static>>> {
+        let mut results = Vec::new();
+        let needle = pattern_chars(pattern, options.case_sensitive);
+        if needle.is_empty() {
+            return Ok(results);
+        }
 
-            if options.max_results > 0 && results.len() >= options.max_results {
-                break;
+        let text = self.cached_text.as_str();
+        for (range_start, range_end) in self.scope_ranges(&options.scope) {
+            let mut at = range_start;
+            while at < range_end {
+                let found = matched_len(&text[at..range_end], &needle, options.case_sensitive)
+                    .filter(|len| !options.whole_words || is_whole_word(text, at, at + len));
+                if let Some(len) = found {
+                    results.push(self.result_at(at, at + len));
+                    if options.max_results > 0 && results.len() >= options.max_results {
+                        return Ok(results);
+                    }
+                    at += len;
+                } else {
+                    at += text[at..].chars().next().map_or(1, char::len_utf8);
+                }
             }
-
-            region_offset += match_idx + 1;
         }
 
         Ok(results)
diff --git a/crates/ass-editor/utils/search/incremental.rs b/crates/ass-editor/utils/search/incremental.rs
index eeee808..c620408 100644
--- a/crates/ass-editor/utils/search/incremental.rs
+++ b/crates/ass-editor/utils/search/incremental.rs
@@ -1,32 +1,12 @@
-//! Incremental search-index updates
+//! Search-index updates
 //!
-//! Implements the incremental re-indexing path for
+//! Implements the re-indexing path for
 //! [`DocumentSearchImpl`](super::DocumentSearchImpl) used when a document
 //! changes after an initial index build.
 
 use super::engine::DocumentSearchImpl;
-use crate::core::{EditorDocument, Range, Result};
-
-#[cfg(feature = "search-index")]
 use super::traits::DocumentSearch;
-
-#[cfg(feature = "search-index")]
-use crate::core::Position;
-
-#[cfg(all(feature = "search-index", feature = "std"))]
-use std::borrow::Cow;
-
-#[cfg(all(feature = "search-index", not(feature = "std")))]
-use alloc::borrow::Cow;
-
-#[cfg(all(feature = "search-index", feature = "std"))]
-use std::collections::HashMap;
-
-#[cfg(all(feature = "search-index", not(feature = "std")))]
-use hashbrown::HashMap;
-
-#[cfg(all(feature = "search-index", not(feature = "std")))]
-use alloc::vec::Vec;
+use crate::core::{EditorDocument, Range, Result};
 
 impl DocumentSearchImpl {
     pub(super) fn update_index_impl(
@@ -38,148 +18,8 @@ impl DocumentSearchImpl {
             return Ok(());
         }
 
-        // Update cached text first
-        self.cached_text = document.text();
-
-        // For non-FST search, we're done after updating the text
-        #[cfg(not(feature = "search-index"))]
-        {
-            self.document_version += 1;
-            self.result_cache.clear();
-            Ok(())
-        }
-
-        // For FST search, perform incremental updates
-        #[cfg(feature = "search-index")]
-        {
-            // Calculate total change size
-            let total_change_size: usize = changes
-                .iter()
-                .map(|r| r.end.offset.saturating_sub(r.start.offset))
-                .sum();
-
-            // If too many changes or large changes, rebuild entirely
-            if changes.len() > 10 || total_change_size > 1000 {
-                return self.build_index(document);
-            }
-
-            // Sort changes by position to process them in order
-            let mut sorted_changes = changes.to_vec();
-            sorted_changes.sort_by_key(|r| r.start.offset);
-
-            // Calculate cumulative offset adjustments
-            let mut offset_adjustments: Vec<(usize, isize)> = Vec::new();
-            let mut cumulative_adjustment = 0isize;
-
-            for change in &sorted_changes {
-                let old_len = change.end.offset - change.start.offset;
-                // Find the actual new text in this region
-                let new_text_region = &self.cached_text[change
-                    .start
-                    .offset
-                    .saturating_add_signed(cumulative_adjustment)..];
-
-                // Estimate new length by finding next unchanged content
-                let new_len = if let Some(next_change) = sorted_changes
-                    .iter()
-                    .find(|c| c.start.offset > change.end.offset)
-                {
-                    let expected_gap = next_change.start.offset - change.end.offset;
-                    new_text_region.len().min(expected_gap)
-                } else {
-                    // No more changes, estimate based on word boundaries
-                    new_text_region
-                        .find(['\n', '\r'])
-                        .unwrap_or(new_text_region.len().min(old_len * 2))
-                };
-
-                let adjustment = new_len as isize - old_len as isize;
-                offset_adjustments.push((change.start.offset, adjustment));
-                cumulative_adjustment += adjustment;
-            }
-
-            // Update word positions
-            let mut updated_positions = HashMap::new();
-
-            for (word, positions) in &self.word_positions {
-                let mut new_positions = Vec::new();
-
-                for &pos in positions {
-                    let mut adjusted_offset = pos.offset;
-                    let mut should_remove = false;
-
-                    // Check each change to see how it affects this position
-                    for (i, change) in sorted_changes.iter().enumerate() {
-                        if pos.offset >= change.start.offset && pos.offset < change.end.offset {
-                            // Word was in changed region - remove it
-                            should_remove = true;
-                            break;
-                        } else if pos.offset >= change.end.offset {
-                            // Word is after this change - apply adjustment
-                            let (_, adjustment) = offset_adjustments[i];
-                            adjusted_offset = adjusted_offset.saturating_add_signed(adjustment);
-                        }
-                    }
-
-                    if !should_remove {
-                        new_positions.push(Position::new(adjusted_offset));
-                    }
-                }
-
-                if !new_positions.is_empty() {
-                    updated_positions.insert(word.clone(), new_positions);
-                }
-            }
-
-            // Extract new words from changed regions
-            for (i, change) in sorted_changes.iter().enumerate() {
-                let start_adjustment: isize =
-                    offset_adjustments[..i].iter().map(|(_, adj)| adj).sum();
-                let adjusted_start = change.start.offset.saturating_add_signed(start_adjustment);
-
-                // Get text around the change
-                let extract_start = adjusted_start.saturating_sub(50);
-                let extract_end = (adjusted_start + 100).min(self.cached_text.len());
-
-                if extract_start < extract_end {
-                    let region_text = &self.cached_text[extract_start..extract_end];
-                    let new_words = self.extract_words(region_text);
-
-                    // Add new words with adjusted positions
-                    for (word, positions) in new_words {
-                        let entry = updated_positions.entry(word.into_owned()).or_default();
-                        for pos in positions {
-                            let global_pos = Position::new(pos.offset + extract_start);
-                            if !entry.contains(&global_pos) {
-                                entry.push(global_pos);
-                            }
-                        }
-                        entry.sort_by_key(|p| p.offset);
-                    }
-                }
-            }
-
-            // Update the word positions
-            self.word_positions = updated_positions;
-
-            // Rebuild FST with updated word list
-            if !self.word_positions.is_empty() {
-                let words: Vec<(Cow<str>, Vec<Position>)> = self
-                    .word_positions
-                    .iter()
-                    .map(|(k, v)| (Cow::Borrowed(k.as_str()), v.clone()))
-                    .collect();
-                self.word_index = Some(self.build_fst(&words)?);
-            } else {
-                self.word_index = None;
-            }
-
-            // Update statistics
-            self.stats.index_size = self.word_positions.len() * 50;
-            self.document_version += 1;
-            self.result_cache.clear();
-
-            Ok(())
-        }
+        // The ranges say where the old text changed but not how long the new
+        // text is, so the positions behind them have to be found again
+        self.build_index(document)
     }
 }
diff --git a/crates/ass-editor/utils/search/query.rs b/crates/ass-editor/utils/search/query.rs
index 2f00fbe..db8306b 100644
--- a/crates/ass-editor/utils/search/query.rs
+++ b/crates/ass-editor/utils/search/query.rs
@@ -4,6 +4,8 @@
 //! [`DocumentSearchImpl`](super::DocumentSearchImpl), routing between FST,
 //! regex, and basic search depending on enabled features and options.
 
+#[cfg(feature = "search-index")]
+use super::basic::{is_whole_word, matched_len, pattern_chars};
 use super::engine::DocumentSearchImpl;
 use super::options::{SearchOptions, SearchResult};
 use crate::core::Result;
@@ -15,24 +17,15 @@ use std::time::Instant;
 #[allow(dead_code)]
 type Instant = u64;
 
-#[cfg(feature = "search-index")]
-use crate::core::Position;
-
-#[cfg(feature = "search-index")]
-use fst::{automaton, IntoStreamer, Streamer};
-
 #[cfg(not(feature = "std"))]
 use alloc::{string::ToString, vec::Vec};
 
-#[cfg(all(feature = "search-index", not(feature = "std")))]
-use alloc::{format, string::String};
-
 impl DocumentSearchImpl {
-    pub(super) fn search_impl<'a>(
-        &'a self,
+    pub(super) fn search_impl(
+        &self,
         pattern: &str,
         options: &SearchOptions,
-    ) -> Result<Vec<SearchResult<'a>>> {
+    ) -> Result<Vec<SearchResult<'static>>> {
         #[cfg(feature = "std")]
         let _start_time = Instant::now();
 
@@ -59,66 +52,58 @@ impl DocumentSearchImpl {
             // Check if we should use FST or basic search
             #[cfg(feature = "search-index")]
             {
-                if let Some(ref fst) = self.word_index {
-                    // Use FST for search
-                    let search_pattern = if options.case_sensitive {
-                        pattern.to_string()
-                    } else {
-                        pattern.to_lowercase()
-                    };
-
-                    let mut results = Vec::new();
-
-                    // Create automaton for prefix search
-                    let mut stream = fst
-                        .search(automaton::Str::new(&search_pattern))
-                        .into_stream();
-
-                    while let Some(key) = stream.next() {
-                        let word = String::from_utf8_lossy(key);
-                        if let Some(positions) = self.word_positions.get(word.as_ref()) {
-                            for &pos in positions {
-                                results.push(SearchResult {
-                                    start: pos,
-                                    end: Position::new(pos.offset + pattern.len()),
-                                    text: std::borrow::Cow::Owned(pattern.to_string()),
-                                    context: std::borrow::Cow::Owned(format!(
-                                        "Offset {}",
-                                        pos.offset
-                                    )),
-                                    line: 0, // Would need document context to calculate actual line
-                                    column: pos.offset,
-                                });
-
-                                if options.max_results > 0 && results.len() >= options.max_results {
-                                    break;
-                                }
-                            }
-                        }
-
-                        if options.max_results > 0 && results.len() >= options.max_results {
-                            break;
-                        }
-                    }
-
-                    results
+                // The index holds whole words, in lower case
+                let indexed = options.whole_words
+                    && self.word_index.is_some()
+                    && !pattern.is_empty()
+                    && pattern
+                        .bytes()
+                        .all(|byte| byte.is_ascii_alphanumeric() || byte == b'_');
+                if indexed {
+                    self.indexed_word_search(pattern, options)
                 } else {
-                    // FST index not built yet, use basic search
                     self.basic_search(pattern, options)?
                 }
             }
             #[cfg(not(feature = "search-index"))]
             {
-                // Use basic text search when FST is not available
                 self.basic_search(pattern, options)?
             }
         };
 
-        // Update statistics (would need mutable access in real implementation)
-        // self.stats.match_count = results.len();
-        // self.stats.search_time_us = search_time;
-        // self.stats.hit_limit = options.max_results > 0 && results.len() >= options.max_results;
-
         Ok(results)
     }
+
+    /// Look up a word in the index and check its occurrences against the text
+    #[cfg(feature = "search-index")]
+    fn indexed_word_search(
+        &self,
+        pattern: &str,
+        options: &SearchOptions,
+    ) -> Vec<SearchResult<'static>> {
+        let needle = pattern_chars(pattern, options.case_sensitive);
+        let ranges = self.scope_ranges(&options.scope);
+        let mut results = Vec::new();
+
+        if let Some(positions) = self.word_positions.get(&pattern.to_lowercase()) {
+            for pos in positions {
+                let start = pos.offset;
+                let len = self
+                    .cached_text
+                    .get(start..)
+                    .and_then(|text| matched_len(text, &needle, options.case_sensitive));
+                let Some(len) = len else { continue };
+                let in_scope = ranges
+                    .iter()
+                    .any(|(first, last)| *first <= start && start + len <= *last);
+                if in_scope && is_whole_word(&self.cached_text, start, start + len) {
+                    results.push(self.result_at(start, start + len));
+                    if options.max_results > 0 && results.len() >= options.max_results {
+                        break;
+                    }
+                }
+            }
+        }
+        results
+    }
 }
diff --git a/crates/ass-editor/utils/search/regex_search.rs b/crates/ass-editor/utils/search/regex_search.rs
index 92dbd0d..93a9414 100644
--- a/crates/ass-editor/utils/search/regex_search.rs
+++ b/crates/ass-editor/utils/search/regex_search.rs
@@ -5,16 +5,16 @@
 //! and `std` features are enabled.
 
 #[cfg(all(feature = "formats", feature = "std"))]
-use super::engine::DocumentSearchImpl;
+use super::basic::is_whole_word;
 
 #[cfg(all(feature = "formats", feature = "std"))]
-use super::options::{SearchOptions, SearchResult, SearchScope};
+use super::engine::DocumentSearchImpl;
 
 #[cfg(all(feature = "formats", feature = "std"))]
-use crate::core::{Position, Result};
+use super::options::{SearchOptions, SearchResult};
 
 #[cfg(all(feature = "formats", feature = "std"))]
-use std::borrow::Cow;
+use crate::core::Result;
 
 #[cfg(all(feature = "formats", feature = "std"))]
 use regex::Regex;
@@ -41,77 +41,21 @@ impl DocumentSearchImpl {
         })?;
 
         let mut results = Vec::new();
-        let text = &self.cached_text;
-
-        // Apply search scope
-        let (search_start, search_end) = match &options.scope {
-            SearchScope::All => (0, text.len()),
-            SearchScope::Range(range) => (range.start.offset, range.end.offset.min(text.len())),
-            SearchScope::Lines { start, end } => {
-                // Calculate byte offsets for line range
-                let mut line_num = 0;
-                let mut start_offset = 0;
-                let mut end_offset = text.len();
-
-                for (i, ch) in text.char_indices() {
-                    if line_num == *start && start_offset == 0 {
-                        start_offset = i;
-                    }
-                    if ch == '\n' {
-                        line_num += 1;
-                        if line_num > *end {
-                            end_offset = i;
-                            break;
-                        }
-                    }
+        let text = self.cached_text.as_str();
+
+        for (range_start, range_end) in self.scope_ranges(&options.scope) {
+            for mat in regex.find_iter(&text[range_start..range_end]) {
+                let start = range_start + mat.start();
+                let end = range_start + mat.end();
+                if options.whole_words && !is_whole_word(text, start, end) {
+                    continue;
                 }
-                (start_offset, end_offset)
-            }
-            SearchScope::Sections(_sections) => {
-                // For sections, would need to parse and identify section boundaries
-                // For now, search entire document
-                (0, text.len())
-            }
-        };
 
-        let search_text = &text[search_start..search_end];
-
-        // Find all matches
-        for mat in regex.find_iter(search_text) {
-            let match_start = search_start + mat.start();
-            let match_end = search_start + mat.end();
-
-            // Calculate line and column
-            let mut line = 0;
-            let mut line_start = 0;
-            for (i, ch) in text[..match_start].char_indices() {
-                if ch == '\n' {
-                    line += 1;
-                    line_start = i + 1;
+                results.push(self.result_at(start, end));
+                if options.max_results > 0 && results.len() >= options.max_results {
+                    return Ok(results);
                 }
             }
-            let column = match_start - line_start;
-
-            // Extract context (line containing the match)
-            let context_start = text[..match_start].rfind('\n').map(|i| i + 1).unwrap_or(0);
-            let context_end = text[match_start..]
-                .find('\n')
-                .map(|i| match_start + i)
-                .unwrap_or(text.len());
-            let context = text[context_start..context_end].to_string();
-
-            results.push(SearchResult {
-                start: Position::new(match_start),
-                end: Position::new(match_end),
-                text: Cow::Owned(text[match_start..match_end].to_string()),
-                context: Cow::Owned(context),
-                line,
-                column,
-            });
-
-            if options.max_results > 0 && results.len() >= options.max_results {
-                break;
-            }
         }
 
         Ok(results)
diff --git a/crates/ass-editor/utils/search/trait_impl.rs b/crates/ass-editor/utils/search/trait_impl.rs
index baa647f..6642957 100644
--- a/crates/ass-editor/utils/search/trait_impl.rs
+++ b/crates/ass-editor/utils/search/trait_impl.rs
@@ -18,6 +18,27 @@ type Instant = u64;
 #[cfg(not(feature = "std"))]
 use alloc::vec::Vec;
 
+impl DocumentSearchImpl {
+    /// Replace every occurrence of the pattern in the document as it is now
+    pub(crate) fn replace_all(
+        document: &mut EditorDocument,
+        pattern: &str,
+        replacement: &str,
+        options: &SearchOptions,
+    ) -> Result<Vec<SearchResult<'static>>> {
+        let mut current = Self::new();
+        current.build_index(document)?;
+        let results = current.search_impl(pattern, options)?;
+
+        // Apply replacements in reverse order to maintain position validity
+        for result in results.iter().rev() {
+            document.replace(Range::new(result.start, result.end), replacement)?;
+        }
+
+        Ok(results)
+    }
+}
+
 impl DocumentSearch for DocumentSearchImpl {
     fn build_index(&mut self, document: &EditorDocument) -> Result<()> {
         #[cfg(feature = "std")]
@@ -76,19 +97,7 @@ impl DocumentSearch for DocumentSearchImpl {
         replacement: &str,
         options: &SearchOptions,
     ) -> Result<Vec<SearchResult<'a>>> {
-        let results = self.search(pattern, options)?;
-        let mut replaced = Vec::new();
-
-        // Apply replacements in reverse order to maintain position validity
-        for result in results.iter().rev() {
-            let range = Range::new(result.start, result.end);
-            document.delete(range)?;
-            document.insert(result.start, replacement)?;
-            replaced.push(result.clone());
-        }
-
-        replaced.reverse(); // Restore original order
-        Ok(replaced)
+        Self::replace_all(document, pattern, replacement, options)
     }
 
     fn stats(&self) -> SearchStats {
-- 
2.43.0


From 5fa848850fe2e932f59b39ba0ad13cc34e43585f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:30 +0000
Subject: [PATCH 45/73] fix: event text containing commas or multi-byte
 characters was split at the wrong comma

---
 .../commands/event_commands/helpers.rs        | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/crates/ass-editor/commands/event_commands/helpers.rs b/crates/ass-editor/commands/event_commands/helpers.rs
index fc15202..7b97091 100644
--- a/crates/ass-editor/commands/event_commands/helpers.rs
+++ b/crates/ass-editor/commands/event_commands/helpers.rs
@@ -48,21 +48,21 @@ pub(super) fn parse_event_line(line: &str) -> core::result::Result<Event<'_>, Ed
     let margin_v = parts[7].trim();
 
     // For Effect and Text, we need to find the correct comma that separates them
-    // Effect can contain commas, but Text is the final field
+    // Effect can contain commas inside parentheses; Text is the final field and
+    // may contain anything, so the first comma outside parentheses separates them
 
     // Calculate where effect+text starts in the original string
     let prefix_len = parts[0..8].iter().map(|s| s.len()).sum::<usize>() + 8; // +8 for commas
     let remaining = &fields_part[prefix_len..];
 
-    // Find the last comma that's not inside parentheses
+    // Find the first comma that's not inside parentheses
     let mut split_point = None;
-    let chars: Vec<char> = remaining.chars().collect();
-    let mut paren_depth = 0;
+    let mut paren_depth = 0usize;
 
-    for (i, &ch) in chars.iter().enumerate().rev() {
+    for (i, ch) in remaining.char_indices() {
         match ch {
-            ')' => paren_depth += 1,
-            '(' => paren_depth -= 1,
+            '(' => paren_depth += 1,
+            ')' => paren_depth = paren_depth.saturating_sub(1),
             ',' if paren_depth == 0 => {
                 split_point = Some(i);
                 break;
@@ -71,12 +71,13 @@ pub(super) fn parse_event_line(line: &str) -> core::result::Result<Event<'_>, Ed
         }
     }
 
-    let (effect, text) = if let Some(split) = split_point {
+    // Parentheses left open in the effect do not extend it into the text
+    let (effect, text) = if let Some(split) = split_point.or_else(|| remaining.find(',')) {
         let effect_part = remaining[..split].trim();
         let text_part = remaining[split + 1..].trim();
         (effect_part, text_part)
     } else {
-        // No comma found outside parentheses, treat entire remaining as effect
+        // No comma found, treat entire remaining as effect
         (remaining.trim(), "")
     };
 
-- 
2.43.0


From 170e291324da7d657226c02b67f3c3a514a69dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:30 +0000
Subject: [PATCH 46/73] fix: deleting events stops at the next section and
 reads whole lines

---
 crates/ass-editor/commands/event_commands/batch_delete.rs | 5 ++++-
 crates/ass-editor/commands/event_commands/delete.rs       | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/ass-editor/commands/event_commands/batch_delete.rs b/crates/ass-editor/commands/event_commands/batch_delete.rs
index 5b710c0..6884e8a 100644
--- a/crates/ass-editor/commands/event_commands/batch_delete.rs
+++ b/crates/ass-editor/commands/event_commands/batch_delete.rs
@@ -68,11 +68,14 @@ impl EditorCommand for BatchDeleteEventsCommand {
                 break;
             }
 
-            let line = &content[event_start..line_end.saturating_sub(1)];
+            let line = &content[event_start..line_end];
 
             if line.starts_with("Dialogue:") || line.starts_with("Comment:") {
                 event_positions.push((current_index, event_start, line_end));
                 current_index += 1;
+            } else if line.starts_with('[') {
+                // Stop at next section
+                break;
             }
 
             event_start = line_end;
diff --git a/crates/ass-editor/commands/event_commands/delete.rs b/crates/ass-editor/commands/event_commands/delete.rs
index 400334a..5d1f357 100644
--- a/crates/ass-editor/commands/event_commands/delete.rs
+++ b/crates/ass-editor/commands/event_commands/delete.rs
@@ -56,7 +56,7 @@ impl EditorCommand for DeleteEventCommand {
                 break;
             }
 
-            let line = &content[event_start..line_end.saturating_sub(1)]; // Check without newline
+            let line = &content[event_start..line_end];
 
             if line.starts_with("Dialogue:") || line.starts_with("Comment:") {
                 if current_index == self.event_index {
@@ -67,6 +67,9 @@ impl EditorCommand for DeleteEventCommand {
                     break;
                 }
                 current_index += 1;
+            } else if line.starts_with('[') {
+                // Stop at next section
+                break;
             }
 
             event_start = line_end;
-- 
2.43.0


From 17e690c634107e021c3cb256bea77c87dc158393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:30 +0000
Subject: [PATCH 47/73] fix: merging events keeps the lines between them and
 works on a last line without newline

---
 crates/ass-editor/commands/event_commands/merge.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/crates/ass-editor/commands/event_commands/merge.rs b/crates/ass-editor/commands/event_commands/merge.rs
index 07d6000..781c1cc 100644
--- a/crates/ass-editor/commands/event_commands/merge.rs
+++ b/crates/ass-editor/commands/event_commands/merge.rs
@@ -81,10 +81,6 @@ impl EditorCommand for MergeEventsCommand {
                 .map(|pos| event_start + pos)
                 .unwrap_or(content.len());
 
-            if event_start >= line_end {
-                break;
-            }
-
             let line = &content[event_start..line_end];
 
             if line.starts_with("Dialogue:") || line.starts_with("Comment:") {
@@ -141,11 +137,13 @@ impl EditorCommand for MergeEventsCommand {
             merged_text
         );
 
-        // Replace both events with the merged one
-        let first_start = events[0].1;
-        let second_end = events[1].2 + 1; // Include newline
+        // Replace the first event with the merged one and drop the line of the
+        // second, keeping whatever lies between them
+        let (_, first_start, first_end, _) = events[0];
+        let (_, second_start, second_end, _) = events[1];
+        let between = &content[first_end..second_start - 1];
         let range = Range::new(Position::new(first_start), Position::new(second_end));
-        let replacement = format!("{merged_event}\n");
+        let replacement = format!("{merged_event}{between}");
 
         document.replace(range, &replacement)?;
 
-- 
2.43.0


From b4f6eee0416a3946e5a5529b612822a842772ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:30 +0000
Subject: [PATCH 48/73] fix: event commands lost their place after a
 replacement of different length or a blank line

---
 .../commands/event_commands/effect_exec.rs    |  8 +++-----
 .../commands/event_commands/split.rs          |  4 ----
 .../commands/event_commands/timing.rs         | 20 ++++++++++---------
 .../commands/event_commands/toggle.rs         |  8 +++-----
 4 files changed, 17 insertions(+), 23 deletions(-)

diff --git a/crates/ass-editor/commands/event_commands/effect_exec.rs b/crates/ass-editor/commands/event_commands/effect_exec.rs
index 6fd3fa3..a3caa6d 100644
--- a/crates/ass-editor/commands/event_commands/effect_exec.rs
+++ b/crates/ass-editor/commands/event_commands/effect_exec.rs
@@ -39,10 +39,7 @@ impl EditorCommand for EventEffectCommand {
                 .find('\n')
                 .map(|pos| event_start + pos)
                 .unwrap_or(content.len());
-
-            if event_start >= line_end {
-                break;
-            }
+            let mut next_line = line_end + 1;
 
             let line = &content[event_start..line_end];
 
@@ -98,6 +95,7 @@ impl EditorCommand for EventEffectCommand {
 
                         // Update content for next iteration
                         content = document.text();
+                        next_line = event_start + new_line.len() + 1;
 
                         // Track overall range
                         let change_range = Range::new(
@@ -117,7 +115,7 @@ impl EditorCommand for EventEffectCommand {
                 break;
             }
 
-            event_start = line_end + 1;
+            event_start = next_line;
         }
 
         if changes_made > 0 {
diff --git a/crates/ass-editor/commands/event_commands/split.rs b/crates/ass-editor/commands/event_commands/split.rs
index 3008e27..5160a83 100644
--- a/crates/ass-editor/commands/event_commands/split.rs
+++ b/crates/ass-editor/commands/event_commands/split.rs
@@ -69,10 +69,6 @@ impl EditorCommand for SplitEventCommand {
                 .map(|pos| event_start + pos)
                 .unwrap_or(content.len());
 
-            if event_start >= line_end {
-                break;
-            }
-
             let line = &content[event_start..line_end];
 
             // Check if this is an event line
diff --git a/crates/ass-editor/commands/event_commands/timing.rs b/crates/ass-editor/commands/event_commands/timing.rs
index d2b4fd4..1a4799b 100644
--- a/crates/ass-editor/commands/event_commands/timing.rs
+++ b/crates/ass-editor/commands/event_commands/timing.rs
@@ -68,6 +68,11 @@ impl TimingAdjustCommand {
     }
 }
 
+/// Shift a time by a signed offset, stopping at zero and at the largest time
+fn shift_time(time_cs: u32, offset_cs: i32) -> u32 {
+    time_cs.saturating_add_signed(offset_cs)
+}
+
 impl EditorCommand for TimingAdjustCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
         let mut content = document.text();
@@ -95,10 +100,7 @@ impl EditorCommand for TimingAdjustCommand {
                 .find('\n')
                 .map(|pos| event_start + pos)
                 .unwrap_or(content.len());
-
-            if event_start >= line_end {
-                break;
-            }
+            let mut next_line = line_end + 1;
 
             let line = &content[event_start..line_end];
 
@@ -114,12 +116,11 @@ impl EditorCommand for TimingAdjustCommand {
                             (event.start_time_cs(), event.end_time_cs())
                         {
                             // Apply offsets
-                            let new_start_cs =
-                                (start_cs as i32 + self.start_offset_cs).max(0) as u32;
-                            let new_end_cs = (end_cs as i32 + self.end_offset_cs).max(0) as u32;
+                            let new_start_cs = shift_time(start_cs, self.start_offset_cs);
+                            let new_end_cs = shift_time(end_cs, self.end_offset_cs);
 
                             // Ensure end time is after start time
-                            let final_end_cs = new_end_cs.max(new_start_cs + 1);
+                            let final_end_cs = new_end_cs.max(new_start_cs.saturating_add(1));
 
                             let new_start_time = format_ass_time(new_start_cs);
                             let new_end_time = format_ass_time(final_end_cs);
@@ -152,6 +153,7 @@ impl EditorCommand for TimingAdjustCommand {
 
                             // Update content for next iteration
                             content = document.text();
+                            next_line = event_start + new_line.len() + 1;
 
                             // Track overall range
                             let change_range = Range::new(
@@ -172,7 +174,7 @@ impl EditorCommand for TimingAdjustCommand {
                 break;
             }
 
-            event_start = line_end + 1;
+            event_start = next_line;
         }
 
         if changes_made > 0 {
diff --git a/crates/ass-editor/commands/event_commands/toggle.rs b/crates/ass-editor/commands/event_commands/toggle.rs
index 138b726..dcf92dd 100644
--- a/crates/ass-editor/commands/event_commands/toggle.rs
+++ b/crates/ass-editor/commands/event_commands/toggle.rs
@@ -72,10 +72,7 @@ impl EditorCommand for ToggleEventTypeCommand {
                 .find('\n')
                 .map(|pos| event_start + pos)
                 .unwrap_or(content.len());
-
-            if event_start >= line_end {
-                break;
-            }
+            let mut next_line = line_end + 1;
 
             let line = &content[event_start..line_end];
 
@@ -95,6 +92,7 @@ impl EditorCommand for ToggleEventTypeCommand {
 
                     // Update content for next iteration
                     content = document.text();
+                    next_line = event_start + new_line.len() + 1;
 
                     // Track overall range
                     let change_range = Range::new(
@@ -113,7 +111,7 @@ impl EditorCommand for ToggleEventTypeCommand {
                 break;
             }
 
-            event_start = line_end + 1;
+            event_start = next_line;
         }
 
         if changes_made > 0 {
-- 
2.43.0


From 9bf2871202b14f22ab9e826a80de5345c1c91190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:48 +0000
Subject: [PATCH 49/73] fix: replacing a session miscounted the active sessions

---
 crates/ass-editor/sessions/lifecycle.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/crates/ass-editor/sessions/lifecycle.rs b/crates/ass-editor/sessions/lifecycle.rs
index 25ffc2b..ec74e19 100644
--- a/crates/ass-editor/sessions/lifecycle.rs
+++ b/crates/ass-editor/sessions/lifecycle.rs
@@ -32,8 +32,10 @@ impl EditorSessionManager {
         document: EditorDocument,
     ) -> Result<()> {
         self.with_inner_mut(|inner| {
-            // Check session limits
-            if inner.sessions.len() >= inner.config.max_sessions {
+            // Check session limits; a session of the same id is replaced, not added
+            if !inner.sessions.contains_key(&session_id)
+                && inner.sessions.len() >= inner.config.max_sessions
+            {
                 return Err(EditorError::SessionLimitExceeded {
                     current: inner.sessions.len(),
                     limit: inner.config.max_sessions,
@@ -44,10 +46,13 @@ impl EditorSessionManager {
             let session = EditorSession::new(session_id.clone(), document);
 
             // Add to sessions map
-            inner.sessions.insert(session_id.clone(), session);
+            let replaced = inner.sessions.insert(session_id.clone(), session);
 
             // Update stats
-            inner.stats.active_sessions += 1;
+            match replaced {
+                Some(old) => inner.stats.total_memory_usage -= old.memory_usage,
+                None => inner.stats.active_sessions += 1,
+            }
 
             // Set as active if it's the first session
             if inner.active_session_id.is_none() {
-- 
2.43.0


From 4ad96dfc43566d62b704d645113e0baf82a4d1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:48 +0000
Subject: [PATCH 50/73] fix: WebVTT import failed on cue settings and panicked
 on a missing end time

---
 crates/ass-editor/formats/webvtt/cue.rs          | 3 ++-
 crates/ass-editor/utils/formats/import_webvtt.rs | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/ass-editor/formats/webvtt/cue.rs b/crates/ass-editor/formats/webvtt/cue.rs
index f283d7d..293b6b0 100644
--- a/crates/ass-editor/formats/webvtt/cue.rs
+++ b/crates/ass-editor/formats/webvtt/cue.rs
@@ -100,7 +100,8 @@ impl WebVttFormat {
 
             let start_time = Self::parse_vtt_time(parts[0])?;
             let end_time_and_settings: Vec<&str> = parts[1].split_whitespace().collect();
-            let end_time = Self::parse_vtt_time(end_time_and_settings[0])?;
+            let end_time =
+                Self::parse_vtt_time(end_time_and_settings.first().copied().unwrap_or_default())?;
 
             // Parse cue settings if present
             let cue_settings = if end_time_and_settings.len() > 1 {
diff --git a/crates/ass-editor/utils/formats/import_webvtt.rs b/crates/ass-editor/utils/formats/import_webvtt.rs
index 8e91dea..37d57a4 100644
--- a/crates/ass-editor/utils/formats/import_webvtt.rs
+++ b/crates/ass-editor/utils/formats/import_webvtt.rs
@@ -76,7 +76,9 @@ impl FormatConverter {
                     let parts: Vec<&str> = line.split("-->").collect();
                     if parts.len() >= 2 {
                         cue.start = Self::parse_webvtt_time(parts[0].trim())?;
-                        cue.end = Self::parse_webvtt_time(parts[1].trim())?;
+                        // The end time may be followed by cue settings
+                        let end = parts[1].split_whitespace().next().unwrap_or_default();
+                        cue.end = Self::parse_webvtt_time(end)?;
                         in_cue = true;
                     }
                 }
-- 
2.43.0


From b871d83bb39d1747316b15e9316e2cbf3668fc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:48 +0000
Subject: [PATCH 51/73] fix: subtitle timestamps keep the instant the core
 reads from an ASS time

---
 crates/ass-editor/formats/srt/time.rs         | 48 +++++++------------
 crates/ass-editor/formats/webvtt/time.rs      | 41 ++++++----------
 crates/ass-editor/utils/formats/export_srt.rs | 27 +++++------
 .../ass-editor/utils/formats/export_webvtt.rs | 27 +++++------
 4 files changed, 55 insertions(+), 88 deletions(-)

diff --git a/crates/ass-editor/formats/srt/time.rs b/crates/ass-editor/formats/srt/time.rs
index 089fdb3..602bbf5 100644
--- a/crates/ass-editor/formats/srt/time.rs
+++ b/crates/ass-editor/formats/srt/time.rs
@@ -2,6 +2,7 @@
 
 use super::SrtFormat;
 use crate::core::EditorError;
+use ass_core::utils::parse_ass_time;
 
 impl SrtFormat {
     /// Parse SRT timestamp (HH:MM:SS,mmm)
@@ -20,10 +21,9 @@ impl SrtFormat {
             let cs = ms / 10; // Convert to centiseconds
 
             // Remove leading zero from hours if present for ASS format
-            let time_part = if time_part.starts_with("0") && time_part.len() > 1 {
-                &time_part[1..]
-            } else {
-                time_part
+            let time_part = match time_part.strip_prefix('0') {
+                Some(rest) if !rest.starts_with(':') => rest,
+                _ => time_part,
             };
 
             Ok(format!("{time_part}.{cs:02}"))
@@ -38,33 +38,21 @@ impl SrtFormat {
     pub(super) fn format_srt_time(ass_time: &str) -> Result<String, EditorError> {
         let ass_time = ass_time.trim();
 
-        // Convert ASS time format (H:MM:SS.cc) to SRT format (HH:MM:SS,mmm)
-        if let Some(dot_pos) = ass_time.find('.') {
-            let (time_part, cs_part) = ass_time.split_at(dot_pos);
-            let cs_part = &cs_part[1..]; // Remove dot
-
-            // Parse centiseconds and convert to milliseconds
-            let cs: u32 = cs_part.parse().map_err(|_| {
-                EditorError::InvalidFormat(format!("Invalid centiseconds: {cs_part}"))
-            })?;
-            let ms = cs * 10; // Convert to milliseconds
-
-            // Ensure hours are zero-padded for SRT format
-            let parts: Vec<&str> = time_part.split(':').collect();
-            if parts.len() == 3 {
-                let hours: u32 = parts[0].parse().map_err(|_| {
-                    EditorError::InvalidFormat(format!("Invalid hours: {}", parts[0]))
-                })?;
-                Ok(format!("{hours:02}:{}:{},{ms:03}", parts[1], parts[2]))
-            } else {
-                Err(EditorError::InvalidFormat(format!(
-                    "Invalid ASS time format: {ass_time}"
-                )))
-            }
-        } else {
-            Err(EditorError::InvalidFormat(format!(
+        if !ass_time.contains('.') {
+            return Err(EditorError::InvalidFormat(format!(
                 "Invalid ASS time format: {ass_time}"
-            )))
+            )));
         }
+
+        // Read the time the way the core does, then split it into the fields of
+        // the SRT format (HH:MM:SS,mmm)
+        let cs = parse_ass_time(ass_time).map_err(|e| EditorError::InvalidFormat(e.to_string()))?;
+        Ok(format!(
+            "{:02}:{:02}:{:02},{:03}",
+            cs / 360_000,
+            cs / 6_000 % 60,
+            cs / 100 % 60,
+            cs % 100 * 10
+        ))
     }
 }
diff --git a/crates/ass-editor/formats/webvtt/time.rs b/crates/ass-editor/formats/webvtt/time.rs
index dae8582..1a96708 100644
--- a/crates/ass-editor/formats/webvtt/time.rs
+++ b/crates/ass-editor/formats/webvtt/time.rs
@@ -4,6 +4,7 @@
 //! inverse conversion used when exporting.
 
 use crate::core::EditorError;
+use ass_core::utils::parse_ass_time;
 
 use super::WebVttFormat;
 
@@ -63,33 +64,21 @@ impl WebVttFormat {
     pub(super) fn format_vtt_time(ass_time: &str) -> Result<String, EditorError> {
         let ass_time = ass_time.trim();
 
-        // Convert ASS time format (H:MM:SS.cc) to WebVTT format (HH:MM:SS.mmm)
-        if let Some(dot_pos) = ass_time.find('.') {
-            let (time_part, cs_part) = ass_time.split_at(dot_pos);
-            let cs_part = &cs_part[1..]; // Remove dot
-
-            // Parse centiseconds and convert to milliseconds
-            let cs: u32 = cs_part.parse().map_err(|_| {
-                EditorError::InvalidFormat(format!("Invalid centiseconds: {cs_part}"))
-            })?;
-            let ms = cs * 10; // Convert to milliseconds
-
-            // Ensure hours are zero-padded for WebVTT format
-            let parts: Vec<&str> = time_part.split(':').collect();
-            if parts.len() == 3 {
-                let hours: u32 = parts[0].parse().map_err(|_| {
-                    EditorError::InvalidFormat(format!("Invalid hours: {}", parts[0]))
-                })?;
-                Ok(format!("{hours:02}:{}:{}.{ms:03}", parts[1], parts[2]))
-            } else {
-                Err(EditorError::InvalidFormat(format!(
-                    "Invalid ASS time format: {ass_time}"
-                )))
-            }
-        } else {
-            Err(EditorError::InvalidFormat(format!(
+        if !ass_time.contains('.') {
+            return Err(EditorError::InvalidFormat(format!(
                 "Invalid ASS time format: {ass_time}"
-            )))
+            )));
         }
+
+        // Read the time the way the core does, then split it into the fields of
+        // the WebVTT format (HH:MM:SS.mmm)
+        let cs = parse_ass_time(ass_time).map_err(|e| EditorError::InvalidFormat(e.to_string()))?;
+        Ok(format!(
+            "{:02}:{:02}:{:02}.{:03}",
+            cs / 360_000,
+            cs / 6_000 % 60,
+            cs / 100 % 60,
+            cs % 100 * 10
+        ))
     }
 }
diff --git a/crates/ass-editor/utils/formats/export_srt.rs b/crates/ass-editor/utils/formats/export_srt.rs
index 145911d..5e611a4 100644
--- a/crates/ass-editor/utils/formats/export_srt.rs
+++ b/crates/ass-editor/utils/formats/export_srt.rs
@@ -7,12 +7,12 @@ use super::types::ConversionOptions;
 use super::FormatConverter;
 use crate::core::{EditorDocument, Result};
 use ass_core::parser::ast::EventType;
+use ass_core::utils::parse_ass_time;
 
 #[cfg(not(feature = "std"))]
 use alloc::{
     format,
     string::{String, ToString},
-    vec::Vec,
 };
 
 impl FormatConverter {
@@ -72,22 +72,17 @@ impl FormatConverter {
         // ASS format: 0:00:00.00
         // SRT format: 00:00:00,000
 
-        let parts: Vec<&str> = time.split(':').collect();
-        if parts.len() != 3 {
+        let Ok(cs) = parse_ass_time(time.trim()) else {
             return time.to_string();
-        }
-
-        let hours = format!("{:02}", parts[0].parse::<u32>().unwrap_or(0));
-        let minutes = parts[1];
-
-        let seconds_parts: Vec<&str> = parts[2].split('.').collect();
-        let seconds = seconds_parts[0];
-        let centiseconds = seconds_parts.get(1).unwrap_or(&"00");
-
-        // Convert centiseconds to milliseconds
-        let millis = centiseconds.parse::<u32>().unwrap_or(0) * 10;
-
-        format!("{hours}:{minutes}:{seconds},{millis:03}")
+        };
+
+        format!(
+            "{:02}:{:02}:{:02},{:03}",
+            cs / 360_000,
+            cs / 6_000 % 60,
+            cs / 100 % 60,
+            cs % 100 * 10
+        )
     }
 
     /// Convert ASS formatting to SRT
diff --git a/crates/ass-editor/utils/formats/export_webvtt.rs b/crates/ass-editor/utils/formats/export_webvtt.rs
index a8d1eee..33af485 100644
--- a/crates/ass-editor/utils/formats/export_webvtt.rs
+++ b/crates/ass-editor/utils/formats/export_webvtt.rs
@@ -7,12 +7,12 @@ use super::types::{ConversionOptions, FormatOptions};
 use super::FormatConverter;
 use crate::core::{EditorDocument, Result};
 use ass_core::parser::ast::EventType;
+use ass_core::utils::parse_ass_time;
 
 #[cfg(not(feature = "std"))]
 use alloc::{
     format,
     string::{String, ToString},
-    vec::Vec,
 };
 
 impl FormatConverter {
@@ -87,22 +87,17 @@ impl FormatConverter {
         // ASS format: 0:00:00.00
         // WebVTT format: 00:00:00.000
 
-        let parts: Vec<&str> = time.split(':').collect();
-        if parts.len() != 3 {
+        let Ok(cs) = parse_ass_time(time.trim()) else {
             return time.to_string();
-        }
-
-        let hours = format!("{:02}", parts[0].parse::<u32>().unwrap_or(0));
-        let minutes = parts[1];
-
-        let seconds_parts: Vec<&str> = parts[2].split('.').collect();
-        let seconds = seconds_parts[0];
-        let centiseconds = seconds_parts.get(1).unwrap_or(&"00");
-
-        // Convert centiseconds to milliseconds
-        let millis = centiseconds.parse::<u32>().unwrap_or(0) * 10;
-
-        format!("{hours}:{minutes}:{seconds}.{millis:03}")
+        };
+
+        format!(
+            "{:02}:{:02}:{:02}.{:03}",
+            cs / 360_000,
+            cs / 6_000 % 60,
+            cs / 100 % 60,
+            cs % 100 * 10
+        )
     }
 
     /// Convert ASS formatting to WebVTT
-- 
2.43.0


From 4c4bfb73a0d4696c3facf7ddce5b1f6b4794a9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:06 +0000
Subject: [PATCH 52/73] fix: adding a line to a section without a newline after
 its format line broke the format line

---
 .../ass-editor/core/document/section_lines.rs | 33 +++++++++++++------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/crates/ass-editor/core/document/section_lines.rs b/crates/ass-editor/core/document/section_lines.rs
index e1d7008..5aacca6 100644
--- a/crates/ass-editor/core/document/section_lines.rs
+++ b/crates/ass-editor/core/document/section_lines.rs
@@ -16,11 +16,7 @@ impl EditorDocument {
         let content = self.text();
         if let Some(events_pos) = content.find("[Events]") {
             // Find end of format line and add after it
-            let format_start = content[events_pos..].find("Format:").unwrap_or(0) + events_pos;
-            let line_end = content[format_start..].find('\n').unwrap_or(0) + format_start + 1;
-
-            let insert_pos = Position::new(line_end);
-            self.insert(insert_pos, &format!("{event_line}\n"))
+            self.insert_after_format_line(&content, events_pos, event_line)
         } else {
             // Add Events section if it doesn't exist
             let content_len = self.len_bytes();
@@ -29,6 +25,27 @@ impl EditorDocument {
         }
     }
 
+    /// Insert a line after the format line of the section starting at `section_pos`,
+    /// or after its header when it has none
+    fn insert_after_format_line(
+        &mut self,
+        content: &str,
+        section_pos: usize,
+        line: &str,
+    ) -> Result<()> {
+        let section_end = content[section_pos..]
+            .find("\n[")
+            .map_or(content.len(), |n| section_pos + n);
+        let format_start = content[section_pos..section_end]
+            .find("Format:")
+            .unwrap_or(0)
+            + section_pos;
+        match content[format_start..].find('\n') {
+            Some(n) => self.insert(Position::new(format_start + n + 1), &format!("{line}\n")),
+            None => self.insert(Position::new(content.len()), &format!("\n{line}\n")),
+        }
+    }
+
     /// Edit style line
     pub fn edit_style_line(&mut self, style_name: &str, new_style_line: &str) -> Result<()> {
         let content = self.text();
@@ -53,11 +70,7 @@ impl EditorDocument {
             .or_else(|| content.find("[V4 Styles]"))
         {
             // Find end of format line and add after it
-            let format_start = content[styles_pos..].find("Format:").unwrap_or(0) + styles_pos;
-            let line_end = content[format_start..].find('\n').unwrap_or(0) + format_start + 1;
-
-            let insert_pos = Position::new(line_end);
-            self.insert(insert_pos, &format!("{style_line}\n"))
+            self.insert_after_format_line(&content, styles_pos, style_line)
         } else {
             // Add Styles section if it doesn't exist
             let script_info_end = content.find("\n[Events]").unwrap_or(content.len());
-- 
2.43.0


From c43db37052d148e6297d67d170135d6d9c7e33c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:06 +0000
Subject: [PATCH 53/73] fix: setting a script info field changed the first text
 looking like it

---
 crates/ass-editor/core/document/ass_api.rs | 24 +++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/crates/ass-editor/core/document/ass_api.rs b/crates/ass-editor/core/document/ass_api.rs
index 96901d8..296a9c3 100644
--- a/crates/ass-editor/core/document/ass_api.rs
+++ b/crates/ass-editor/core/document/ass_api.rs
@@ -132,14 +132,24 @@ impl EditorDocument {
 
     /// Set script info field (ASS-aware editing)
     pub fn set_script_info_field(&mut self, key: &str, value: &str) -> Result<()> {
-        // Simplified implementation - find and replace the field
+        // Find the line of the field: the first one in the section with this key
         let content = self.text();
-        let field_pattern = format!("{key}:");
-
-        if let Some(pos) = content.find(&field_pattern) {
-            // Find end of line
-            let line_start = pos;
-            let line_end = content[pos..].find('\n').map_or(content.len(), |n| pos + n);
+        let section = content.find("[Script Info]").unwrap_or(0);
+        let section_end = content[section..]
+            .find("\n[")
+            .map_or(content.len(), |n| section + n);
+        let mut line_start = section;
+        let field_line = content[section..section_end]
+            .split_inclusive('\n')
+            .find_map(|line| {
+                let start = line_start;
+                line_start += line.len();
+                let (name, _) = line.split_once(':')?;
+                (name.trim() == key).then_some((start, line.trim_end_matches('\n').len()))
+            });
+
+        if let Some((line_start, line_len)) = field_line {
+            let line_end = line_start + line_len;
 
             let range = Range::new(Position::new(line_start), Position::new(line_end));
 
-- 
2.43.0


From 243ef1a6913844d9726dce2530317e4609439f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:06 +0000
Subject: [PATCH 54/73] fix: editing an event by index changed another event
 with the same layer and times

---
 crates/ass-editor/core/document/builder_edit.rs | 17 +++++------------
 crates/ass-editor/core/document/event_edit.rs   | 17 +++++------------
 2 files changed, 10 insertions(+), 24 deletions(-)

diff --git a/crates/ass-editor/core/document/builder_edit.rs b/crates/ass-editor/core/document/builder_edit.rs
index 379006b..e3039ef 100644
--- a/crates/ass-editor/core/document/builder_edit.rs
+++ b/crates/ass-editor/core/document/builder_edit.rs
@@ -127,18 +127,11 @@ impl EditorDocument {
                                 modified_builder.build()?
                             };
 
-                            // Find the event line in the raw text
-                            let event_type_str = event.event_type.as_str();
-                            let pattern = format!(
-                                "{}: {},{},{}",
-                                event_type_str, event.layer, event.start, event.end
-                            );
-
-                            let event_line = if let Some(pos) = content.find(&pattern) {
-                                let line_end = content[pos..]
-                                    .find('\n')
-                                    .map(|n| pos + n)
-                                    .unwrap_or(content.len());
+                            // The event's span says where its line starts in the raw text
+                            let pos = event.span.start;
+                            let event_line = if let Some(rest) = content.get(pos..) {
+                                let line_end =
+                                    rest.find('\n').map(|n| pos + n).unwrap_or(content.len());
                                 (pos, line_end)
                             } else {
                                 return Err(EditorError::ValidationError {
diff --git a/crates/ass-editor/core/document/event_edit.rs b/crates/ass-editor/core/document/event_edit.rs
index ea72773..2d31bbe 100644
--- a/crates/ass-editor/core/document/event_edit.rs
+++ b/crates/ass-editor/core/document/event_edit.rs
@@ -63,18 +63,11 @@ impl EditorDocument {
                             // Get the modifications from the update function
                             let modifications = update_fn(event);
 
-                            // Build a pattern to search for this specific event
-                            let event_type_str = event.event_type.as_str();
-                            let pattern = format!(
-                                "{}: {},{},{}",
-                                event_type_str, event.layer, event.start, event.end
-                            );
-
-                            let event_line = if let Some(pos) = content.find(&pattern) {
-                                let line_end = content[pos..]
-                                    .find('\n')
-                                    .map(|n| pos + n)
-                                    .unwrap_or(content.len());
+                            // The event's span says where its line starts
+                            let pos = event.span.start;
+                            let event_line = if let Some(rest) = content.get(pos..) {
+                                let line_end =
+                                    rest.find('\n').map(|n| pos + n).unwrap_or(content.len());
                                 let line = content[pos..line_end].to_string();
                                 (pos, line_end, line)
                             } else {
-- 
2.43.0


From 69488e6479e836eaef2d2e1d07f4ff86f22ecec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:34 +0000
Subject: [PATCH 55/73] fix: splitting karaoke inside a multi-byte character
 panicked

---
 crates/ass-editor/commands/karaoke_commands/split.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/ass-editor/commands/karaoke_commands/split.rs b/crates/ass-editor/commands/karaoke_commands/split.rs
index 8fa7294..e74cf88 100644
--- a/crates/ass-editor/commands/karaoke_commands/split.rs
+++ b/crates/ass-editor/commands/karaoke_commands/split.rs
@@ -66,7 +66,7 @@ impl SplitKaraokeCommand {
         let mut last_pos = 0;
 
         for &pos in &self.split_positions {
-            if pos <= last_pos || pos >= text.len() {
+            if pos <= last_pos || pos >= text.len() || !text.is_char_boundary(pos) {
                 continue;
             }
 
-- 
2.43.0


From ba1392e1944427fc4bdfa5499ff84fbca2ef4b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:35 +0000
Subject: [PATCH 56/73] fix: applying an empty karaoke pattern panicked

---
 crates/ass-editor/commands/karaoke_commands/apply_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/ass-editor/commands/karaoke_commands/apply_impl.rs b/crates/ass-editor/commands/karaoke_commands/apply_impl.rs
index acc59f9..405f357 100644
--- a/crates/ass-editor/commands/karaoke_commands/apply_impl.rs
+++ b/crates/ass-editor/commands/karaoke_commands/apply_impl.rs
@@ -166,7 +166,7 @@ impl ApplyKaraokeCommand {
             if i > 0 {
                 result.push(' ');
             }
-            let duration = durations.get(i % durations.len()).copied().unwrap_or(50);
+            let duration = durations.iter().cycle().nth(i).copied().unwrap_or(50);
             result.push_str(&format!("{{\\{tag}{duration}}}{syllable}"));
         }
 
-- 
2.43.0


From 57571df1583556344786517383899c04e529542c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:35 +0000
Subject: [PATCH 57/73] fix: generated karaoke repeated or dropped whitespace

---
 .../ass-editor/commands/karaoke_commands/generate.rs   | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/crates/ass-editor/commands/karaoke_commands/generate.rs b/crates/ass-editor/commands/karaoke_commands/generate.rs
index 331db83..2db3a0b 100644
--- a/crates/ass-editor/commands/karaoke_commands/generate.rs
+++ b/crates/ass-editor/commands/karaoke_commands/generate.rs
@@ -66,6 +66,11 @@ impl GenerateKaraokeCommand {
         }
 
         for (i, &ch) in chars.iter().enumerate() {
+            // Inside a run of whitespace that is already a syllable
+            if i < current_start {
+                continue;
+            }
+
             // Split on spaces and common syllable boundaries
             if ch.is_whitespace() || (i > 0 && self.is_syllable_boundary(&chars, i)) {
                 if current_start < i {
@@ -95,10 +100,7 @@ impl GenerateKaraokeCommand {
 
         // Add remaining text
         if current_start < chars.len() {
-            let remaining: String = chars[current_start..].iter().collect();
-            if !remaining.trim().is_empty() {
-                syllables.push(remaining);
-            }
+            syllables.push(chars[current_start..].iter().collect());
         }
 
         // Return syllables or whole text if none found
-- 
2.43.0


From 212c23d72e25472829aab5cd7b00b0cdcd7121af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:35 +0000
Subject: [PATCH 58/73] fix: adjusting karaoke changed other tags starting with
 the same digits

---
 .../commands/karaoke_commands/adjust_impl.rs  | 25 +++++++++++--------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/crates/ass-editor/commands/karaoke_commands/adjust_impl.rs b/crates/ass-editor/commands/karaoke_commands/adjust_impl.rs
index bc1b4f0..312fa61 100644
--- a/crates/ass-editor/commands/karaoke_commands/adjust_impl.rs
+++ b/crates/ass-editor/commands/karaoke_commands/adjust_impl.rs
@@ -116,17 +116,19 @@ impl AdjustKaraokeCommand {
         tags: &[ass_core::analysis::events::tags::OverrideTag],
         custom_index: &mut usize,
     ) -> Result<String> {
-        let mut result = original_content.to_string();
+        let mut result = String::with_capacity(original_content.len());
+        let mut copied = 0;
 
-        // Process tags in reverse order to maintain position accuracy
-        for tag in tags.iter().rev() {
+        for tag in tags {
             if tag.name().starts_with('k') {
                 // This tag was validated by ass-core's karaoke handlers
-                let tag_name = tag.name();
                 let args = tag.args();
+                let digits = args.trim();
 
                 // Extract duration from args (ass-core already validated this)
-                let current_duration: u32 = args.trim().parse().unwrap_or(0);
+                let Ok(current_duration) = digits.parse::<u32>() else {
+                    continue;
+                };
 
                 // Calculate new duration based on adjustment type
                 let new_duration = match &self.adjustment {
@@ -134,7 +136,7 @@ impl AdjustKaraokeCommand {
                         ((current_duration as f32 * factor) as u32).max(1)
                     }
                     TimingAdjustment::Offset(offset) => {
-                        ((current_duration as i32 + offset).max(1)) as u32
+                        current_duration.saturating_add_signed(*offset).max(1)
                     }
                     TimingAdjustment::SetAll(duration) => *duration,
                     TimingAdjustment::Custom(timings) => {
@@ -148,12 +150,15 @@ impl AdjustKaraokeCommand {
                     }
                 };
 
-                // Replace the validated tag with adjusted version
-                let old_tag = format!("\\{tag_name}{current_duration}");
-                let new_tag = format!("\\{tag_name}{new_duration}");
-                result = result.replace(&old_tag, &new_tag);
+                // Replace the digits of this tag only
+                let start =
+                    tag.position() + 1 + tag.name().len() + (args.len() - args.trim_start().len());
+                result.push_str(&original_content[copied..start]);
+                result.push_str(&new_duration.to_string());
+                copied = start + digits.len();
             }
         }
+        result.push_str(&original_content[copied..]);
 
         Ok(result)
     }
-- 
2.43.0


From 64c0094488aa5735e507d937246b85129618555c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:53 +0000
Subject: [PATCH 59/73] fix: end of a line landed inside a multi-byte line
 break

---
 crates/ass-editor/core/position/builder.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/crates/ass-editor/core/position/builder.rs b/crates/ass-editor/core/position/builder.rs
index 562a30a..7befb5b 100644
--- a/crates/ass-editor/core/position/builder.rs
+++ b/crates/ass-editor/core/position/builder.rs
@@ -139,11 +139,18 @@ impl PositionBuilder {
                 Ok(Position::new(line_start + byte_pos))
             } else {
                 // No column specified - go to end of line
-                let line_end = if line_idx + 1 < rope.len_lines() {
-                    rope.line_to_byte(line_idx + 1).saturating_sub(1)
-                } else {
-                    rope.len_bytes()
-                };
+                // (before its line break, which may be several bytes long)
+                let line = rope.line(line_idx);
+                let mut line_end = line_start + line.len_bytes();
+                if line_idx + 1 < rope.len_lines() {
+                    let mut chars = line.chars_at(line.len_chars());
+                    if let Some(last) = chars.prev() {
+                        line_end -= last.len_utf8();
+                        if last == '\n' && chars.prev() == Some('\r') {
+                            line_end -= 1;
+                        }
+                    }
+                }
                 Ok(Position::new(line_end))
             }
         } else {
-- 
2.43.0


From 2b4d7684fc7e26e3300744bf21e3f3f5cb1a21f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:30 +0000
Subject: [PATCH 60/73] fix: incremental edit after edits made by other means
 used a stale script

---
 crates/ass-editor/core/incremental/apply.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/ass-editor/core/incremental/apply.rs b/crates/ass-editor/core/incremental/apply.rs
index 5ccf12f..d61548f 100644
--- a/crates/ass-editor/core/incremental/apply.rs
+++ b/crates/ass-editor/core/incremental/apply.rs
@@ -28,6 +28,11 @@ impl IncrementalParser {
             return self.full_reparse(document_text);
         }
 
+        // Edits made by other means leave the cached script behind
+        if self.cached_script.as_deref() != Some(document_text) {
+            self.initialize_cache(document_text);
+        }
+
         // Validate range
         if range.end.offset > document_text.len() || range.start.offset > range.end.offset {
             return Err(EditorError::InvalidRange {
-- 
2.43.0


From 2645cd34e4729ad19fefe09d26d1b2e4b7bdf5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:30 +0000
Subject: [PATCH 61/73] fix: the end of line 0, which does not exist, is
 refused

---
 crates/ass-editor/core/position/builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/ass-editor/core/position/builder.rs b/crates/ass-editor/core/position/builder.rs
index 7befb5b..2421caa 100644
--- a/crates/ass-editor/core/position/builder.rs
+++ b/crates/ass-editor/core/position/builder.rs
@@ -106,7 +106,7 @@ impl PositionBuilder {
             // Convert to 0-indexed
             let line_idx = line.saturating_sub(1);
 
-            if line_idx >= rope.len_lines() {
+            if line == 0 || line_idx >= rope.len_lines() {
                 return Err(EditorError::InvalidPosition { line, column: 1 });
             }
 
-- 
2.43.0


From d789380cf7fb8f9fa1a70386c6ad8ab503e516ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:30 +0000
Subject: [PATCH 62/73] fix: a command run through SyncDocument is one undo
 step and rolls back on failure

---
 crates/ass-editor/core/thread_safety/sync_document.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/ass-editor/core/thread_safety/sync_document.rs b/crates/ass-editor/core/thread_safety/sync_document.rs
index 48da221..cc0b037 100644
--- a/crates/ass-editor/core/thread_safety/sync_document.rs
+++ b/crates/ass-editor/core/thread_safety/sync_document.rs
@@ -79,7 +79,7 @@ impl SyncDocument {
 
         // Now execute the command with write access
         let mut doc = self.write()?;
-        command.execute(&mut doc)
+        doc.execute_command(&command)
     }
 
     /// Try to get a read-only reference without blocking
-- 
2.43.0


From ecc9c717b96375c8823e27ef31933bb75449b592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:47 +0000
Subject: [PATCH 63/73] fix: script info commands read and change whole
 property lines of the section

---
 .../commands/script_info_commands/delete.rs   | 26 +++----
 .../commands/script_info_commands/get.rs      | 73 +++++--------------
 .../commands/script_info_commands/set.rs      | 37 ++++------
 crates/ass-editor/core/mod.rs                 |  1 +
 crates/ass-editor/core/section_text.rs        | 71 ++++++++++++++++++
 5 files changed, 115 insertions(+), 93 deletions(-)
 create mode 100644 crates/ass-editor/core/section_text.rs

diff --git a/crates/ass-editor/commands/script_info_commands/delete.rs b/crates/ass-editor/commands/script_info_commands/delete.rs
index a186915..093b909 100644
--- a/crates/ass-editor/commands/script_info_commands/delete.rs
+++ b/crates/ass-editor/commands/script_info_commands/delete.rs
@@ -1,6 +1,7 @@
 //! Command to remove a property from the `[Script Info]` section.
 
 use crate::commands::{CommandResult, EditorCommand};
+use crate::core::section_text::{key_value, section_header, section_lines, SCRIPT_INFO};
 use crate::core::{EditorDocument, EditorError, Position, Range, Result};
 
 #[cfg(not(feature = "std"))]
@@ -30,23 +31,18 @@ impl EditorCommand for DeleteScriptInfoCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
         let content = document.text().to_string();
 
-        // Find [Script Info] section
-        let script_info_start = content
-            .find("[Script Info]")
-            .ok_or_else(|| EditorError::command_failed("No [Script Info] section found"))?;
-
-        // Find the end of Script Info section
-        let script_info_end = content[script_info_start..]
-            .find("\n[")
-            .map(|pos| script_info_start + pos)
-            .unwrap_or(content.len());
+        if section_header(&content, SCRIPT_INFO).is_none() {
+            return Err(EditorError::command_failed(
+                "No [Script Info] section found",
+            ));
+        }
 
-        // Look for the property
-        let property_pattern = format!("{}: ", self.property);
-        let search_range = &content[script_info_start..script_info_end];
+        // Look for the line of the property
+        let found = section_lines(&content, SCRIPT_INFO)
+            .into_iter()
+            .find(|(_, line)| key_value(line).is_some_and(|(key, _)| key == self.property));
 
-        if let Some(prop_pos) = search_range.find(&property_pattern) {
-            let absolute_pos = script_info_start + prop_pos;
+        if let Some((absolute_pos, _)) = found {
             let line_end = content[absolute_pos..]
                 .find('\n')
                 .map(|pos| absolute_pos + pos + 1) // Include newline
diff --git a/crates/ass-editor/commands/script_info_commands/get.rs b/crates/ass-editor/commands/script_info_commands/get.rs
index 2cfb007..920f3a5 100644
--- a/crates/ass-editor/commands/script_info_commands/get.rs
+++ b/crates/ass-editor/commands/script_info_commands/get.rs
@@ -1,5 +1,6 @@
 //! Read commands for retrieving `[Script Info]` properties.
 
+use crate::core::section_text::{key_value, section_header, section_lines, SCRIPT_INFO};
 use crate::core::{EditorDocument, EditorError, Result};
 
 #[cfg(not(feature = "std"))]
@@ -29,33 +30,16 @@ impl GetScriptInfoCommand {
     pub fn get_value(&self, document: &EditorDocument) -> Result<Option<String>> {
         let content = document.text();
 
-        // Find [Script Info] section
-        let script_info_start = content
-            .find("[Script Info]")
-            .ok_or_else(|| EditorError::command_failed("No [Script Info] section found"))?;
-
-        // Find the end of Script Info section
-        let script_info_end = content[script_info_start..]
-            .find("\n[")
-            .map(|pos| script_info_start + pos)
-            .unwrap_or(content.len());
-
-        // Look for the property
-        let property_pattern = format!("{}: ", self.property);
-        let search_range = &content[script_info_start..script_info_end];
-
-        if let Some(prop_pos) = search_range.find(&property_pattern) {
-            let value_start = prop_pos + property_pattern.len();
-            let value_end = search_range[value_start..]
-                .find('\n')
-                .map(|pos| value_start + pos)
-                .unwrap_or(search_range.len());
-
-            let value = search_range[value_start..value_end].trim().to_string();
-            Ok(Some(value))
-        } else {
-            Ok(None)
+        if section_header(&content, SCRIPT_INFO).is_none() {
+            return Err(EditorError::command_failed(
+                "No [Script Info] section found",
+            ));
         }
+        Ok(section_lines(&content, SCRIPT_INFO)
+            .into_iter()
+            .filter_map(|(_, line)| key_value(line))
+            .find(|(key, _)| *key == self.property)
+            .map(|(_, value)| value.to_string()))
     }
 }
 
@@ -76,35 +60,16 @@ impl GetAllScriptInfoCommand {
     pub fn get_all(&self, document: &EditorDocument) -> Result<Vec<(String, String)>> {
         let content = document.text();
 
-        // Find [Script Info] section
-        let script_info_start = content
-            .find("[Script Info]")
-            .ok_or_else(|| EditorError::command_failed("No [Script Info] section found"))?;
-
-        // Find the end of Script Info section
-        let script_info_end = content[script_info_start..]
-            .find("\n[")
-            .map(|pos| script_info_start + pos)
-            .unwrap_or(content.len());
-
-        let search_range = &content[script_info_start..script_info_end];
-        let mut properties = Vec::new();
-
-        for line in search_range.lines() {
-            // Skip the section header and empty lines
-            if line.starts_with('[') || line.trim().is_empty() {
-                continue;
-            }
-
-            // Parse property: value pairs
-            if let Some(colon_pos) = line.find(':') {
-                let property = line[..colon_pos].trim().to_string();
-                let value = line[colon_pos + 1..].trim().to_string();
-                properties.push((property, value));
-            }
+        if section_header(&content, SCRIPT_INFO).is_none() {
+            return Err(EditorError::command_failed(
+                "No [Script Info] section found",
+            ));
         }
-
-        Ok(properties)
+        Ok(section_lines(&content, SCRIPT_INFO)
+            .into_iter()
+            .filter_map(|(_, line)| key_value(line))
+            .map(|(key, value)| (key.to_string(), value.to_string()))
+            .collect())
     }
 }
 
diff --git a/crates/ass-editor/commands/script_info_commands/set.rs b/crates/ass-editor/commands/script_info_commands/set.rs
index b572466..ddbee78 100644
--- a/crates/ass-editor/commands/script_info_commands/set.rs
+++ b/crates/ass-editor/commands/script_info_commands/set.rs
@@ -1,6 +1,7 @@
 //! Command to set or update a property in the `[Script Info]` section.
 
 use crate::commands::{CommandResult, EditorCommand};
+use crate::core::section_text::{key_value, section_header, section_lines, SCRIPT_INFO};
 use crate::core::{EditorDocument, EditorError, Position, Range, Result};
 
 #[cfg(not(feature = "std"))]
@@ -32,29 +33,17 @@ impl EditorCommand for SetScriptInfoCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
         let content = document.text().to_string();
 
-        // Find [Script Info] section
-        let script_info_start = content
-            .find("[Script Info]")
+        let header = section_header(&content, SCRIPT_INFO)
             .ok_or_else(|| EditorError::command_failed("No [Script Info] section found"))?;
 
-        // Find the end of Script Info section (next section or end of file)
-        let script_info_end = content[script_info_start..]
-            .find("\n[")
-            .map(|pos| script_info_start + pos)
-            .unwrap_or(content.len());
-
         // Check if property already exists
-        let property_pattern = format!("{}: ", self.property);
-        let search_range = &content[script_info_start..script_info_end];
+        let found = section_lines(&content, SCRIPT_INFO)
+            .into_iter()
+            .find(|(_, line)| key_value(line).is_some_and(|(key, _)| key == self.property));
 
-        if let Some(prop_pos) = search_range.find(&property_pattern) {
+        if let Some((line_start, line)) = found {
             // Property exists, update it
-            let absolute_pos = script_info_start + prop_pos;
-            let line_start = absolute_pos;
-            let line_end = content[absolute_pos..]
-                .find('\n')
-                .map(|pos| absolute_pos + pos)
-                .unwrap_or(content.len());
+            let line_end = line_start + line.len();
 
             let new_line = format!("{}: {}", self.property, self.value);
             let range = Range::new(Position::new(line_start), Position::new(line_end));
@@ -70,12 +59,12 @@ impl EditorCommand for SetScriptInfoCommand {
             ))
         } else {
             // Property doesn't exist, add it after [Script Info]
-            let insert_pos = content[script_info_start..]
-                .find('\n')
-                .map(|pos| script_info_start + pos + 1)
-                .unwrap_or(script_info_start + 13); // Length of "[Script Info]"
-
-            let new_line = format!("{}: {}\n", self.property, self.value);
+            let insert_pos = header.end;
+            let new_line = if content[header].ends_with('\n') {
+                format!("{}: {}\n", self.property, self.value)
+            } else {
+                format!("\n{}: {}\n", self.property, self.value)
+            };
             document.insert(Position::new(insert_pos), &new_line)?;
 
             Ok(CommandResult::success_with_change(
diff --git a/crates/ass-editor/core/mod.rs b/crates/ass-editor/core/mod.rs
index 2ba0a53..d41117d 100644
--- a/crates/ass-editor/core/mod.rs
+++ b/crates/ass-editor/core/mod.rs
@@ -14,6 +14,7 @@ pub mod history;
 #[cfg(feature = "stream")]
 pub mod incremental;
 pub mod position;
+pub(crate) mod section_text;
 
 #[cfg(feature = "concurrency")]
 pub mod thread_safety;
diff --git a/crates/ass-editor/core/section_text.rs b/crates/ass-editor/core/section_text.rs
new file mode 100644
index 0000000..1aebe35
--- /dev/null
+++ b/crates/ass-editor/core/section_text.rs
@@ -0,0 +1,71 @@
+//! Whole lines of the sections of an ASS text, with the offsets where they stand.
+
+use core::ops::Range;
+
+#[cfg(not(feature = "std"))]
+use alloc::vec::Vec;
+
+/// Header of the section that holds script properties
+pub(crate) const SCRIPT_INFO: &[&str] = &["[Script Info]"];
+
+/// Header of the section that holds events
+pub(crate) const EVENTS: &[&str] = &["[Events]"];
+
+/// Headers of the sections that hold styles
+pub(crate) const STYLES: &[&str] = &["[V4+ Styles]", "[V4 Styles]", "[Styles]"];
+
+/// Lines, without their line breaks, of every section with one of `headers`
+///
+/// Each line comes with its byte offset. A section runs from the line after its
+/// header to the next line that begins with a bracket.
+pub(crate) fn section_lines<'a>(content: &'a str, headers: &[&str]) -> Vec<(usize, &'a str)> {
+    let mut lines = Vec::new();
+    let mut inside = false;
+    let mut offset = 0;
+    for line in content.split_inclusive('\n') {
+        let name = line.trim_start_matches('\u{FEFF}').trim();
+        if name.starts_with('[') {
+            inside = headers.contains(&name);
+        } else if inside {
+            lines.push((offset, line.trim_end_matches(['\r', '\n'])));
+        }
+        offset += line.len();
+    }
+    lines
+}
+
+/// Key and value of a `Key: Value` line that is not a comment
+pub(crate) fn key_value(line: &str) -> Option<(&str, &str)> {
+    if line.trim_start().starts_with([';', '#']) {
+        return None;
+    }
+    let (key, value) = line.split_once(':')?;
+    Some((key.trim(), value.trim()))
+}
+
+/// First line, with its line break, that is one of `headers`
+pub(crate) fn section_header(content: &str, headers: &[&str]) -> Option<Range<usize>> {
+    let mut offset = 0;
+    for line in content.split_inclusive('\n') {
+        if headers.contains(&line.trim_start_matches('\u{FEFF}').trim()) {
+            return Some(offset..offset + line.len());
+        }
+        offset += line.len();
+    }
+    None
+}
+
+/// Ranges in `line` of the comma-separated fields after `key:`, without the spaces around them
+///
+/// The last of `count` fields takes the rest of the line.
+pub(crate) fn line_fields(line: &str, key: &str, count: usize) -> Option<Vec<Range<usize>>> {
+    let after_key = line.trim_start().strip_prefix(key)?.strip_prefix(':')?;
+    let mut start = line.len() - after_key.len();
+    let mut ranges = Vec::new();
+    for field in after_key.splitn(count, ',') {
+        let first = start + field.len() - field.trim_start().len();
+        ranges.push(first..first + field.trim().len());
+        start += field.len() + 1;
+    }
+    Some(ranges)
+}
-- 
2.43.0


From a711e774d53217e4cfdee5e6945dd26fcd19fa0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:47 +0000
Subject: [PATCH 64/73] fix: style commands change the fields of the named
 style or of the matching events, nothing else

---
 .../commands/style_commands/apply.rs          | 137 ++++++------------
 .../commands/style_commands/clone.rs          |  73 ++++------
 .../commands/style_commands/create.rs         |  78 +++++-----
 .../commands/style_commands/delete.rs         |  44 +++---
 .../commands/style_commands/edit.rs           | 107 +++++---------
 .../commands/style_commands/find.rs           |  52 +++++++
 .../ass-editor/commands/style_commands/mod.rs |   1 +
 7 files changed, 212 insertions(+), 280 deletions(-)
 create mode 100644 crates/ass-editor/commands/style_commands/find.rs

diff --git a/crates/ass-editor/commands/style_commands/apply.rs b/crates/ass-editor/commands/style_commands/apply.rs
index 730481f..14d95a3 100644
--- a/crates/ass-editor/commands/style_commands/apply.rs
+++ b/crates/ass-editor/commands/style_commands/apply.rs
@@ -4,6 +4,7 @@
 //! another, with an optional text filter on event lines.
 
 use crate::commands::{CommandResult, EditorCommand};
+use crate::core::section_text::{line_fields, section_header, section_lines, EVENTS};
 use crate::core::{EditorDocument, EditorError, Position, Range, Result};
 
 #[cfg(not(feature = "std"))]
@@ -49,104 +50,52 @@ impl ApplyStyleCommand {
 
 impl EditorCommand for ApplyStyleCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
-        let mut content = document.text();
-        let mut changes_made = 0;
-        let mut total_range: Option<Range> = None;
-
-        // Find events section
-        let events_start = content
-            .find("[Events]")
-            .ok_or_else(|| EditorError::command_failed("Events section not found"))?;
-
-        // Skip format line
-        let events_content_start = content[events_start..]
-            .find('\n')
-            .map(|pos| events_start + pos + 1)
-            .ok_or_else(|| EditorError::command_failed("Invalid events section format"))?;
-
-        // Skip format line again (Format: ...)
-        let first_event_start = content[events_content_start..]
-            .find('\n')
-            .map(|pos| events_content_start + pos + 1)
-            .unwrap_or(events_content_start);
-
-        let mut search_pos = first_event_start;
-
-        while search_pos < content.len() {
-            // Find next event line
-            let line_start = search_pos;
-            let line_end = content[line_start..]
-                .find('\n')
-                .map(|pos| line_start + pos)
-                .unwrap_or(content.len());
-
-            if line_start >= line_end {
-                break;
-            }
-
-            let line = &content[line_start..line_end];
-
-            // Check if this is an event line
-            if line.starts_with("Dialogue:") || line.starts_with("Comment:") {
-                let parts: Vec<&str> = line.split(',').collect();
-
-                // Check if this event uses the old style (typically 4th field after event type)
-                if parts.len() > 4 && parts[3].trim() == self.old_style {
-                    // Apply filter if specified
-                    let should_update = if let Some(ref filter) = self.event_filter {
-                        line.contains(filter)
-                    } else {
-                        true
-                    };
-
-                    if should_update {
-                        // Replace the old style with new style
-                        let updated_line = line.replace(
-                            &format!(",{},", self.old_style),
-                            &format!(",{},", self.new_style),
-                        );
-
-                        // Update the document
-                        let range = Range::new(Position::new(line_start), Position::new(line_end));
-                        document.replace(range, &updated_line)?;
-
-                        // Update content for next iteration (this is inefficient but correct)
-                        content = document.text();
-
-                        // Track overall range
-                        let change_range = Range::new(
-                            Position::new(line_start),
-                            Position::new(line_start + updated_line.len()),
-                        );
-                        total_range = Some(match total_range {
-                            Some(existing) => existing.union(&change_range),
-                            None => change_range,
-                        });
+        let content = document.text();
+        if section_header(&content, EVENTS).is_none() {
+            return Err(EditorError::command_failed("Events section not found"));
+        }
 
-                        changes_made += 1;
-                    }
-                }
-            } else if line.starts_with('[') && line != "[Events]" {
-                // Stop at next section
-                break;
+        // Style fields to replace, first to last
+        let mut fields = Vec::new();
+        for (start, line) in section_lines(&content, EVENTS) {
+            let values =
+                line_fields(line, "Dialogue", 10).or_else(|| line_fields(line, "Comment", 10));
+            let Some(values) = values.filter(|values| values.len() > 4) else {
+                continue;
+            };
+            let text = values.get(9).map_or("", |text| &line[text.clone()]);
+            let filter = self.event_filter.as_deref().unwrap_or("");
+            let style = values[3].clone();
+            if line[style.clone()] == *self.old_style && text.contains(filter) {
+                fields.push(start + style.start..start + style.end);
             }
-
-            search_pos = line_end + 1;
         }
-
-        if changes_made > 0 {
-            Ok(CommandResult::success_with_change(
-                total_range.unwrap_or(Range::new(Position::new(0), Position::new(0))),
-                Position::new(content.len()),
-            )
-            .with_message(format!(
-                "Applied style '{}' to {} events",
-                self.new_style, changes_made
-            )))
-        } else {
-            Ok(CommandResult::success()
-                .with_message("No events found matching the criteria".to_string()))
+        let (Some(first), Some(last)) = (fields.first(), fields.last()) else {
+            return Ok(CommandResult::success()
+                .with_message("No events found matching the criteria".to_string()));
+        };
+        let changed = first.start..last.end;
+
+        let mut new_text = String::new();
+        let mut kept = changed.start;
+        for field in &fields {
+            new_text.push_str(&content[kept..field.start]);
+            new_text.push_str(&self.new_style);
+            kept = field.end;
         }
+        let range = Range::new(Position::new(changed.start), Position::new(changed.end));
+        document.replace(range, &new_text)?;
+
+        let end_pos = Position::new(changed.start + new_text.len());
+        Ok(CommandResult::success_with_change(
+            Range::new(Position::new(changed.start), end_pos),
+            end_pos,
+        )
+        .with_message(format!(
+            "Applied style '{}' to {} events",
+            self.new_style,
+            fields.len()
+        )))
     }
 
     fn description(&self) -> &str {
diff --git a/crates/ass-editor/commands/style_commands/clone.rs b/crates/ass-editor/commands/style_commands/clone.rs
index c62524f..67bca31 100644
--- a/crates/ass-editor/commands/style_commands/clone.rs
+++ b/crates/ass-editor/commands/style_commands/clone.rs
@@ -3,11 +3,15 @@
 //! Provides [`CloneStyleCommand`] to duplicate an existing style under a new
 //! name, inserting the clone after the source style line.
 
+use super::find::find_style;
 use crate::commands::{CommandResult, EditorCommand};
 use crate::core::{EditorDocument, EditorError, Position, Range, Result};
 
 #[cfg(not(feature = "std"))]
-use alloc::{format, string::String};
+use alloc::{
+    format,
+    string::{String, ToString},
+};
 
 /// Command to clone an existing style with a new name
 #[derive(Debug, Clone)]
@@ -38,57 +42,36 @@ impl CloneStyleCommand {
 impl EditorCommand for CloneStyleCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
         let content = document.text();
-        let source_pattern = format!("Style: {}", self.source_style);
-
-        // Check if target style already exists
-        let target_pattern = format!("Style: {}", self.target_style);
-        if content.contains(&target_pattern) {
+        if find_style(&content, &self.target_style).is_some() {
             return Err(EditorError::command_failed(format!(
                 "Style '{}' already exists",
                 self.target_style
             )));
         }
-
-        if let Some(source_start) = content.find(&source_pattern) {
-            // Find the complete source style line
-            let line_start = content[..source_start]
-                .rfind('\n')
-                .map(|pos| pos + 1)
-                .unwrap_or(0);
-            let line_end = content[source_start..]
-                .find('\n')
-                .map(|pos| source_start + pos)
-                .unwrap_or(content.len());
-
-            let source_line = &content[line_start..line_end];
-
-            // Replace the style name in the cloned line
-            let cloned_line = source_line.replace(
-                &format!("Style: {}", self.source_style),
-                &format!("Style: {}", self.target_style),
-            );
-
-            // Find where to insert the new style (after the source style)
-            let insert_pos = line_end;
-            let insert_text = format!("\n{cloned_line}");
-
-            document.insert(Position::new(insert_pos), &insert_text)?;
-
-            let end_pos = Position::new(insert_pos + insert_text.len());
-            Ok(CommandResult::success_with_change(
-                Range::new(Position::new(insert_pos), end_pos),
-                end_pos,
-            )
-            .with_message(format!(
-                "Cloned style '{}' to '{}'",
-                self.source_style, self.target_style
-            )))
-        } else {
-            Err(EditorError::command_failed(format!(
+        let Some(source) = find_style(&content, &self.source_style) else {
+            return Err(EditorError::command_failed(format!(
                 "Source style '{}' not found",
                 self.source_style
-            )))
-        }
+            )));
+        };
+
+        // Repeat the line under the new name, after the original
+        let mut cloned_line = source.line.to_string();
+        let name_column = source.column("Name").unwrap_or(0);
+        cloned_line.replace_range(source.values[name_column].clone(), &self.target_style);
+        let insert_pos = source.start + source.line.len();
+        let insert_text = format!("\n{cloned_line}");
+        document.insert(Position::new(insert_pos), &insert_text)?;
+
+        let end_pos = Position::new(insert_pos + insert_text.len());
+        Ok(CommandResult::success_with_change(
+            Range::new(Position::new(insert_pos), end_pos),
+            end_pos,
+        )
+        .with_message(format!(
+            "Cloned style '{}' to '{}'",
+            self.source_style, self.target_style
+        )))
     }
 
     fn description(&self) -> &str {
diff --git a/crates/ass-editor/commands/style_commands/create.rs b/crates/ass-editor/commands/style_commands/create.rs
index bdcf344..b14bd0e 100644
--- a/crates/ass-editor/commands/style_commands/create.rs
+++ b/crates/ass-editor/commands/style_commands/create.rs
@@ -4,10 +4,11 @@
 //! section, creating the section when it does not yet exist.
 
 use crate::commands::{CommandResult, EditorCommand};
+use crate::core::section_text::{line_fields, section_header, section_lines, EVENTS, STYLES};
 use crate::core::{EditorDocument, Position, Range, Result, StyleBuilder};
 
 #[cfg(not(feature = "std"))]
-use alloc::{format, string::String};
+use alloc::{format, string::String, vec::Vec};
 
 /// Command to create a new style
 #[derive(Debug, Clone)]
@@ -38,56 +39,47 @@ impl CreateStyleCommand {
 impl EditorCommand for CreateStyleCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
         // Build the style line with the provided name
-        let mut builder = self.style_builder.clone();
-        builder = builder.name(&self.style_name);
-        let style_line = builder.build()?;
+        let builder = self.style_builder.clone().name(&self.style_name);
 
-        // Find the styles section or create one
         let content = document.text();
-        let styles_section_pos = content
-            .find("[V4+ Styles]")
-            .or_else(|| content.find("[V4 Styles]"))
-            .or_else(|| content.find("[Styles]"));
-
-        if let Some(section_start) = styles_section_pos {
-            // Find the end of the format line to insert after it
-            let section_content = &content[section_start..];
-            if let Some(format_line_end) = section_content.find('\n') {
-                let format_end_pos = section_start + format_line_end + 1;
-
-                // Find next format line or end of section
-                let insert_pos = if let Some(next_line_start) = content[format_end_pos..].find('\n')
-                {
-                    format_end_pos + next_line_start + 1
-                } else {
-                    format_end_pos
-                };
-
-                // Insert the new style
-                let insert_text = format!("{style_line}\n");
-                document.insert(Position::new(insert_pos), &insert_text)?;
-
-                let end_pos = Position::new(insert_pos + insert_text.len());
-                return Ok(CommandResult::success_with_change(
-                    Range::new(Position::new(insert_pos), end_pos),
-                    end_pos,
-                )
-                .with_message(format!("Created style '{}'", self.style_name)));
-            }
+        if let Some(header) = section_header(&content, STYLES) {
+            // Add the style below the format line, in the order of its columns
+            let format_line = section_lines(&content[header.start..], STYLES)
+                .into_iter()
+                .find_map(|(start, line)| {
+                    let columns = line_fields(line, "Format", usize::MAX)?;
+                    let names = columns.into_iter().map(|name| &line[name]);
+                    Some((header.start + start, names.collect::<Vec<_>>()))
+                });
+            let (above, style_line) = match format_line {
+                Some((start, columns)) => (start, builder.build_with_format(&columns)?),
+                None => (header.start, builder.build()?),
+            };
+            let insert_pos = content[above..]
+                .find('\n')
+                .map_or(content.len(), |pos| above + pos + 1);
+            let break_before = if content[..insert_pos].ends_with('\n') {
+                ""
+            } else {
+                "\n"
+            };
+            let insert_text = format!("{break_before}{style_line}\n");
+            document.insert(Position::new(insert_pos), &insert_text)?;
+
+            let end_pos = Position::new(insert_pos + insert_text.len());
+            return Ok(CommandResult::success_with_change(
+                Range::new(Position::new(insert_pos), end_pos),
+                end_pos,
+            )
+            .with_message(format!("Created style '{}'", self.style_name)));
         }
 
         // No styles section found, create one
+        let style_line = builder.build()?;
         let styles_section = format!(
             "\n[V4+ Styles]\nFormat: Name, Fontname, Fontsize, PrimaryColour, SecondaryColour, OutlineColour, BackColour, Bold, Italic, Underline, StrikeOut, ScaleX, ScaleY, Spacing, Angle, BorderStyle, Outline, Shadow, Alignment, MarginL, MarginR, MarginV, Encoding\n{style_line}\n"
         );
-
-        // Insert before [Events] section if it exists, otherwise at the end
-        let insert_pos = if let Some(events_pos) = content.find("[Events]") {
-            events_pos
-        } else {
-            content.len()
-        };
-
+        let insert_pos = section_header(&content, EVENTS).map_or(content.len(), |h| h.start);
         document.insert(Position::new(insert_pos), &styles_section)?;
 
         let end_pos = Position::new(insert_pos + styles_section.len());
diff --git a/crates/ass-editor/commands/style_commands/delete.rs b/crates/ass-editor/commands/style_commands/delete.rs
index 2d92380..ad55c5c 100644
--- a/crates/ass-editor/commands/style_commands/delete.rs
+++ b/crates/ass-editor/commands/style_commands/delete.rs
@@ -3,6 +3,7 @@
 //! Provides [`DeleteStyleCommand`] to remove a named style line from the
 //! styles section.
 
+use super::find::find_style;
 use crate::commands::{CommandResult, EditorCommand};
 use crate::core::{EditorDocument, EditorError, Position, Range, Result};
 
@@ -36,33 +37,26 @@ impl DeleteStyleCommand {
 impl EditorCommand for DeleteStyleCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
         let content = document.text();
-        let style_pattern = format!("Style: {}", self.style_name);
-
-        if let Some(style_start) = content.find(&style_pattern) {
-            // Find the complete line including the newline
-            let line_start = content[..style_start]
-                .rfind('\n')
-                .map(|pos| pos + 1)
-                .unwrap_or(0);
-            let line_end = content[style_start..]
-                .find('\n')
-                .map(|pos| style_start + pos + 1) // Include the newline
-                .unwrap_or(content.len());
-
-            let range = Range::new(Position::new(line_start), Position::new(line_end));
-            document.delete(range)?;
-
-            Ok(CommandResult::success_with_change(
-                Range::new(Position::new(line_start), Position::new(line_start)),
-                Position::new(line_start),
-            )
-            .with_message(format!("Deleted style '{}'", self.style_name)))
-        } else {
-            Err(EditorError::command_failed(format!(
+        let Some(style) = find_style(&content, &self.style_name) else {
+            return Err(EditorError::command_failed(format!(
                 "Style '{}' not found",
                 self.style_name
-            )))
-        }
+            )));
+        };
+
+        // Delete the whole line, with its line break
+        let line_start = style.start;
+        let line_end = content[line_start..]
+            .find('\n')
+            .map_or(content.len(), |pos| line_start + pos + 1);
+        let range = Range::new(Position::new(line_start), Position::new(line_end));
+        document.delete(range)?;
+
+        Ok(CommandResult::success_with_change(
+            Range::new(Position::new(line_start), Position::new(line_start)),
+            Position::new(line_start),
+        )
+        .with_message(format!("Deleted style '{}'", self.style_name)))
     }
 
     fn description(&self) -> &str {
diff --git a/crates/ass-editor/commands/style_commands/edit.rs b/crates/ass-editor/commands/style_commands/edit.rs
index 801ccab..95c5377 100644
--- a/crates/ass-editor/commands/style_commands/edit.rs
+++ b/crates/ass-editor/commands/style_commands/edit.rs
@@ -3,6 +3,7 @@
 //! Provides [`EditStyleCommand`] to update individual fields of an existing
 //! style, mapping field names to columns via the section format line.
 
+use super::find::find_style;
 use crate::commands::{CommandResult, EditorCommand};
 use crate::core::{EditorDocument, EditorError, Position, Range, Result};
 
@@ -10,7 +11,6 @@ use crate::core::{EditorDocument, EditorError, Position, Range, Result};
 use alloc::{
     format,
     string::{String, ToString},
-    vec::Vec,
 };
 
 #[cfg(feature = "std")]
@@ -84,81 +84,42 @@ impl EditStyleCommand {
 impl EditorCommand for EditStyleCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
         let content = document.text();
-        let style_pattern = format!("Style: {}", self.style_name);
-
-        if let Some(style_start) = content.find(&style_pattern) {
-            // Find the end of the style line
-            let line_start = content[..style_start]
-                .rfind('\n')
-                .map(|pos| pos + 1)
-                .unwrap_or(0);
-            let line_end = content[style_start..]
-                .find('\n')
-                .map(|pos| style_start + pos)
-                .unwrap_or(content.len());
-
-            let style_line = &content[line_start..line_end];
-            let fields: Vec<&str> = style_line.split(',').collect();
-
-            if fields.len() < 2 {
-                return Err(EditorError::command_failed("Invalid style format"));
-            }
-
-            // Find format line to determine field order
-            let styles_section_start = content[..line_start]
-                .rfind("[V4+ Styles]")
-                .or_else(|| content[..line_start].rfind("[V4 Styles]"))
-                .or_else(|| content[..line_start].rfind("[Styles]"))
-                .ok_or_else(|| EditorError::command_failed("Could not find styles section"))?;
-
-            let format_line_start = content[styles_section_start..]
-                .find("Format:")
-                .map(|pos| styles_section_start + pos)
-                .ok_or_else(|| EditorError::command_failed("Could not find format line"))?;
-
-            let format_line_end = content[format_line_start..]
-                .find('\n')
-                .map(|pos| format_line_start + pos)
-                .unwrap_or(content.len());
-
-            let format_line = &content[format_line_start..format_line_end];
-            let format_fields: Vec<&str> = format_line
-                .strip_prefix("Format: ")
-                .unwrap_or(format_line)
-                .split(", ")
-                .collect();
-
-            // Build updated style line
-            let mut updated_fields = fields
-                .iter()
-                .map(|f| f.to_string())
-                .collect::<Vec<String>>();
-
-            for (field_name, new_value) in &self.field_updates {
-                if let Some(field_index) = format_fields.iter().position(|f| f == field_name) {
-                    if field_index < updated_fields.len() {
-                        updated_fields[field_index] = new_value.clone();
-                    }
-                }
-            }
-
-            let new_style_line = updated_fields.join(",");
-            let range = Range::new(Position::new(line_start), Position::new(line_end));
-
-            document.replace(range, &new_style_line)?;
-
-            let end_pos = Position::new(line_start + new_style_line.len());
-            Ok(CommandResult::success_with_change(
-                Range::new(Position::new(line_start), end_pos),
-                end_pos,
-            )
-            .with_message(format!("Updated style '{}'", self.style_name)))
-        } else {
-            Err(EditorError::command_failed(format!(
+        let Some(style) = find_style(&content, &self.style_name) else {
+            return Err(EditorError::command_failed(format!(
                 "Style '{}' not found",
                 self.style_name
-            )))
+            )));
+        };
+        if style.values.len() < 2 {
+            return Err(EditorError::command_failed("Invalid style format"));
+        }
+        if style.columns.is_empty() {
+            return Err(EditorError::command_failed("Could not find format line"));
+        }
+
+        // Replace the values of the named columns, keeping the rest of the line
+        let mut new_style_line = String::new();
+        let mut kept = 0;
+        for (column, value) in style.columns.iter().zip(&style.values) {
+            if let Some(new_value) = self.field_updates.get(*column) {
+                new_style_line.push_str(&style.line[kept..value.start]);
+                new_style_line.push_str(new_value);
+                kept = value.end;
+            }
         }
+        new_style_line.push_str(&style.line[kept..]);
+
+        let line_start = style.start;
+        let line_end = line_start + style.line.len();
+        let range = Range::new(Position::new(line_start), Position::new(line_end));
+        document.replace(range, &new_style_line)?;
+
+        let end_pos = Position::new(line_start + new_style_line.len());
+        Ok(CommandResult::success_with_change(
+            Range::new(Position::new(line_start), end_pos),
+            end_pos,
+        )
+        .with_message(format!("Updated style '{}'", self.style_name)))
     }
 
     fn description(&self) -> &str {
diff --git a/crates/ass-editor/commands/style_commands/find.rs b/crates/ass-editor/commands/style_commands/find.rs
new file mode 100644
index 0000000..4425654
--- /dev/null
+++ b/crates/ass-editor/commands/style_commands/find.rs
@@ -0,0 +1,52 @@
+//! Finds the line of a style and its fields in the text of a document.
+
+use crate::core::section_text::{line_fields, section_lines, STYLES};
+use core::ops::Range;
+
+#[cfg(not(feature = "std"))]
+use alloc::vec::Vec;
+
+/// Line that defines a style
+pub(super) struct StyleLine<'a> {
+    /// Offset of the line in the document
+    pub(super) start: usize,
+    /// The line, without its line break
+    pub(super) line: &'a str,
+    /// Column names of the format line before it
+    pub(super) columns: Vec<&'a str>,
+    /// Ranges of the values in `line`, in the order of the columns
+    pub(super) values: Vec<Range<usize>>,
+}
+
+impl StyleLine<'_> {
+    /// Place of the named column
+    pub(super) fn column(&self, name: &str) -> Option<usize> {
+        self.columns.iter().position(|&column| column == name)
+    }
+}
+
+/// First style line whose name is `style_name`
+pub(super) fn find_style<'a>(content: &'a str, style_name: &str) -> Option<StyleLine<'a>> {
+    let mut columns = Vec::new();
+    for (start, line) in section_lines(content, STYLES) {
+        if let Some(names) = line_fields(line, "Format", usize::MAX) {
+            columns = names.into_iter().map(|name| &line[name]).collect();
+        } else if let Some(mut values) = line_fields(line, "Style", usize::MAX) {
+            // A leading `*Parent` field names the parent style
+            if values.len() > 1 && line[values[0].clone()].starts_with('*') {
+                values.remove(0);
+            }
+            let name_column = columns.iter().position(|&column| column == "Name");
+            let name = values.get(name_column.unwrap_or(0)).cloned();
+            if name.is_some_and(|name| &line[name] == style_name.trim()) {
+                return Some(StyleLine {
+                    start,
+                    line,
+                    columns,
+                    values,
+                });
+            }
+        }
+    }
+    None
+}
diff --git a/crates/ass-editor/commands/style_commands/mod.rs b/crates/ass-editor/commands/style_commands/mod.rs
index 73b3ebc..cffc700 100644
--- a/crates/ass-editor/commands/style_commands/mod.rs
+++ b/crates/ass-editor/commands/style_commands/mod.rs
@@ -8,6 +8,7 @@ mod clone;
 mod create;
 mod delete;
 mod edit;
+mod find;
 
 #[cfg(test)]
 mod tests;
-- 
2.43.0


From 0ebfeba5869eb2ceb98bf47268bf5ebfc4565d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:43 +0000
Subject: [PATCH 65/73] fix: font and graphic commands keep to whole lines of
 their section and to the named file

---
 .../commands/fonts_graphics_commands/add.rs   | 112 +++++++-----------
 .../commands/fonts_graphics_commands/clear.rs |  56 +++------
 .../commands/fonts_graphics_commands/list.rs  |  53 ++-------
 .../commands/fonts_graphics_commands/mod.rs   |   1 +
 .../fonts_graphics_commands/remove.rs         |  80 +++----------
 .../fonts_graphics_commands/section.rs        |  52 ++++++++
 6 files changed, 138 insertions(+), 216 deletions(-)
 create mode 100644 crates/ass-editor/commands/fonts_graphics_commands/section.rs

diff --git a/crates/ass-editor/commands/fonts_graphics_commands/add.rs b/crates/ass-editor/commands/fonts_graphics_commands/add.rs
index 4b623d4..09c72b3 100644
--- a/crates/ass-editor/commands/fonts_graphics_commands/add.rs
+++ b/crates/ass-editor/commands/fonts_graphics_commands/add.rs
@@ -1,15 +1,12 @@
 //! Commands for adding embedded fonts and graphics to ASS documents
 
+use super::section::{file_section, FONTS, GRAPHICS};
 use super::uuencode_data;
 use crate::commands::{CommandResult, EditorCommand};
 use crate::core::{EditorDocument, Position, Range, Result};
 
 #[cfg(not(feature = "std"))]
-use alloc::{
-    format,
-    string::{String, ToString},
-    vec::Vec,
-};
+use alloc::{format, string::String, vec::Vec};
 
 /// Command to add an embedded font to the ASS document
 ///
@@ -44,33 +41,20 @@ impl AddFontCommand {
 
 impl EditorCommand for AddFontCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
-        let content = document.text().to_string();
-
-        // Find or create [Fonts] section
-        let fonts_section = content.find("[Fonts]");
-
-        let insert_pos = if let Some(section_start) = fonts_section {
-            // Find the end of the Fonts section
-            content[section_start..]
-                .find("\n[")
-                .map(|pos| section_start + pos)
-                .unwrap_or(content.len())
-        } else {
-            // Create new Fonts section at the end
-            let mut insert_pos = content.len();
-
-            // Add newline if needed
-            if !content.ends_with('\n') {
-                document.insert(Position::new(insert_pos), "\n")?;
-                insert_pos += 1;
-            }
-
-            // Add section header
-            document.insert(Position::new(insert_pos), "[Fonts]\n")?;
-            insert_pos + "[Fonts]\n".len()
-        };
-
-        // Build font entry
+        let content = document.text();
+
+        // Add below the last line of the section, creating the section at the end
+        let section = file_section(&content, FONTS, "fontname:");
+        let insert_pos = section.as_ref().map_or(content.len(), |s| s.body.end);
+        let mut header = String::new();
+        if insert_pos > 0 && !content[..insert_pos].ends_with('\n') {
+            header.push('\n');
+        }
+        if section.is_none() {
+            header.push_str(FONTS);
+            header.push('\n');
+        }
+
         let filename = &self.filename;
         let mut font_entry = format!("fontname: {filename}\n");
         for line in &self.data_lines {
@@ -78,15 +62,15 @@ impl EditorCommand for AddFontCommand {
             font_entry.push('\n');
         }
 
-        // Insert font data
-        document.insert(Position::new(insert_pos), &font_entry)?;
+        document.insert(Position::new(insert_pos), &format!("{header}{font_entry}"))?;
 
+        let entry_pos = insert_pos + header.len();
         Ok(CommandResult::success_with_change(
             Range::new(
-                Position::new(insert_pos),
-                Position::new(insert_pos + font_entry.len()),
+                Position::new(entry_pos),
+                Position::new(entry_pos + font_entry.len()),
             ),
-            Position::new(insert_pos + font_entry.len()),
+            Position::new(entry_pos + font_entry.len()),
         ))
     }
 
@@ -134,33 +118,20 @@ impl AddGraphicCommand {
 
 impl EditorCommand for AddGraphicCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
-        let content = document.text().to_string();
-
-        // Find or create [Graphics] section
-        let graphics_section = content.find("[Graphics]");
-
-        let insert_pos = if let Some(section_start) = graphics_section {
-            // Find the end of the Graphics section
-            content[section_start..]
-                .find("\n[")
-                .map(|pos| section_start + pos)
-                .unwrap_or(content.len())
-        } else {
-            // Create new Graphics section at the end
-            let mut insert_pos = content.len();
-
-            // Add newline if needed
-            if !content.ends_with('\n') {
-                document.insert(Position::new(insert_pos), "\n")?;
-                insert_pos += 1;
-            }
-
-            // Add section header
-            document.insert(Position::new(insert_pos), "[Graphics]\n")?;
-            insert_pos + "[Graphics]\n".len()
-        };
-
-        // Build graphic entry
+        let content = document.text();
+
+        // Add below the last line of the section, creating the section at the end
+        let section = file_section(&content, GRAPHICS, "filename:");
+        let insert_pos = section.as_ref().map_or(content.len(), |s| s.body.end);
+        let mut header = String::new();
+        if insert_pos > 0 && !content[..insert_pos].ends_with('\n') {
+            header.push('\n');
+        }
+        if section.is_none() {
+            header.push_str(GRAPHICS);
+            header.push('\n');
+        }
+
         let filename = &self.filename;
         let mut graphic_entry = format!("filename: {filename}\n");
         for line in &self.data_lines {
@@ -168,15 +139,18 @@ impl EditorCommand for AddGraphicCommand {
             graphic_entry.push('\n');
         }
 
-        // Insert graphic data
-        document.insert(Position::new(insert_pos), &graphic_entry)?;
+        document.insert(
+            Position::new(insert_pos),
+            &format!("{header}{graphic_entry}"),
+        )?;
 
+        let entry_pos = insert_pos + header.len();
         Ok(CommandResult::success_with_change(
             Range::new(
-                Position::new(insert_pos),
-                Position::new(insert_pos + graphic_entry.len()),
+                Position::new(entry_pos),
+                Position::new(entry_pos + graphic_entry.len()),
             ),
-            Position::new(insert_pos + graphic_entry.len()),
+            Position::new(entry_pos + graphic_entry.len()),
         ))
     }
 
diff --git a/crates/ass-editor/commands/fonts_graphics_commands/clear.rs b/crates/ass-editor/commands/fonts_graphics_commands/clear.rs
index 85a3ed5..d1badda 100644
--- a/crates/ass-editor/commands/fonts_graphics_commands/clear.rs
+++ b/crates/ass-editor/commands/fonts_graphics_commands/clear.rs
@@ -1,11 +1,9 @@
 //! Commands for clearing embedded fonts and graphics sections in ASS documents
 
+use super::section::{file_section, FONTS, GRAPHICS};
 use crate::commands::{CommandResult, EditorCommand};
 use crate::core::{EditorDocument, Position, Range, Result};
 
-#[cfg(not(feature = "std"))]
-use alloc::string::ToString;
-
 /// Command to clear all embedded fonts from the ASS document
 ///
 /// Removes the entire `[Fonts]` section if it exists.
@@ -27,27 +25,17 @@ impl Default for ClearFontsCommand {
 
 impl EditorCommand for ClearFontsCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
-        let content = document.text().to_string();
-
-        // Find [Fonts] section
-        if let Some(fonts_section) = content.find("[Fonts]") {
-            let header_end = content[fonts_section..]
-                .find('\n')
-                .map(|pos| fonts_section + pos + 1)
-                .unwrap_or(fonts_section + "[Fonts]".len());
-
-            let section_end = content[fonts_section..]
-                .find("\n[")
-                .map(|pos| fonts_section + pos)
-                .unwrap_or(content.len());
+        let content = document.text();
 
-            if section_end > header_end {
-                let range = Range::new(Position::new(header_end), Position::new(section_end));
-                document.delete(range)?;
+        if let Some(section) = file_section(&content, FONTS, "fontname:") {
+            let body = section.body;
+            if !body.is_empty() {
+                let start = Position::new(body.start);
+                document.delete(Range::new(start, Position::new(body.end)))?;
 
                 return Ok(CommandResult::success_with_change(
-                    Range::new(Position::new(header_end), Position::new(header_end)),
-                    Position::new(header_end),
+                    Range::new(start, start),
+                    start,
                 ));
             }
         }
@@ -85,27 +73,17 @@ impl Default for ClearGraphicsCommand {
 
 impl EditorCommand for ClearGraphicsCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
-        let content = document.text().to_string();
-
-        // Find [Graphics] section
-        if let Some(graphics_section) = content.find("[Graphics]") {
-            let header_end = content[graphics_section..]
-                .find('\n')
-                .map(|pos| graphics_section + pos + 1)
-                .unwrap_or(graphics_section + "[Graphics]".len());
-
-            let section_end = content[graphics_section..]
-                .find("\n[")
-                .map(|pos| graphics_section + pos)
-                .unwrap_or(content.len());
+        let content = document.text();
 
-            if section_end > header_end {
-                let range = Range::new(Position::new(header_end), Position::new(section_end));
-                document.delete(range)?;
+        if let Some(section) = file_section(&content, GRAPHICS, "filename:") {
+            let body = section.body;
+            if !body.is_empty() {
+                let start = Position::new(body.start);
+                document.delete(Range::new(start, Position::new(body.end)))?;
 
                 return Ok(CommandResult::success_with_change(
-                    Range::new(Position::new(header_end), Position::new(header_end)),
-                    Position::new(header_end),
+                    Range::new(start, start),
+                    start,
                 ));
             }
         }
diff --git a/crates/ass-editor/commands/fonts_graphics_commands/list.rs b/crates/ass-editor/commands/fonts_graphics_commands/list.rs
index b86b9cd..1143371 100644
--- a/crates/ass-editor/commands/fonts_graphics_commands/list.rs
+++ b/crates/ass-editor/commands/fonts_graphics_commands/list.rs
@@ -1,5 +1,6 @@
 //! Commands for listing embedded fonts and graphics in ASS documents
 
+use super::section::{file_section, FONTS, GRAPHICS};
 use crate::core::{EditorDocument, Result};
 
 #[cfg(not(feature = "std"))]
@@ -23,29 +24,9 @@ impl ListFontsCommand {
     /// Execute and return list of font filenames
     pub fn list(&self, document: &EditorDocument) -> Result<Vec<String>> {
         let content = document.text();
-
-        // Find [Fonts] section
-        let fonts_section = content.find("[Fonts]");
-        if fonts_section.is_none() {
-            return Ok(Vec::new());
-        }
-
-        let section_start = fonts_section.unwrap();
-        let section_end = content[section_start..]
-            .find("\n[")
-            .map(|pos| section_start + pos)
-            .unwrap_or(content.len());
-
-        let section_content = &content[section_start..section_end];
-        let mut fonts = Vec::new();
-
-        for line in section_content.lines() {
-            if let Some(filename) = line.strip_prefix("fontname: ") {
-                fonts.push(filename.trim().to_string());
-            }
-        }
-
-        Ok(fonts)
+        let section = file_section(&content, FONTS, "fontname:");
+        let files = section.map_or_else(Vec::new, |section| section.files);
+        Ok(files.iter().map(|(name, _)| name.to_string()).collect())
     }
 }
 
@@ -70,29 +51,9 @@ impl ListGraphicsCommand {
     /// Execute and return list of graphic filenames
     pub fn list(&self, document: &EditorDocument) -> Result<Vec<String>> {
         let content = document.text();
-
-        // Find [Graphics] section
-        let graphics_section = content.find("[Graphics]");
-        if graphics_section.is_none() {
-            return Ok(Vec::new());
-        }
-
-        let section_start = graphics_section.unwrap();
-        let section_end = content[section_start..]
-            .find("\n[")
-            .map(|pos| section_start + pos)
-            .unwrap_or(content.len());
-
-        let section_content = &content[section_start..section_end];
-        let mut graphics = Vec::new();
-
-        for line in section_content.lines() {
-            if let Some(filename) = line.strip_prefix("filename: ") {
-                graphics.push(filename.trim().to_string());
-            }
-        }
-
-        Ok(graphics)
+        let section = file_section(&content, GRAPHICS, "filename:");
+        let files = section.map_or_else(Vec::new, |section| section.files);
+        Ok(files.iter().map(|(name, _)| name.to_string()).collect())
     }
 }
 
diff --git a/crates/ass-editor/commands/fonts_graphics_commands/mod.rs b/crates/ass-editor/commands/fonts_graphics_commands/mod.rs
index bcd7227..1cffe65 100644
--- a/crates/ass-editor/commands/fonts_graphics_commands/mod.rs
+++ b/crates/ass-editor/commands/fonts_graphics_commands/mod.rs
@@ -8,6 +8,7 @@ mod clear;
 mod encoding;
 mod list;
 mod remove;
+mod section;
 
 #[cfg(test)]
 mod tests;
diff --git a/crates/ass-editor/commands/fonts_graphics_commands/remove.rs b/crates/ass-editor/commands/fonts_graphics_commands/remove.rs
index 6957e6b..b201e9e 100644
--- a/crates/ass-editor/commands/fonts_graphics_commands/remove.rs
+++ b/crates/ass-editor/commands/fonts_graphics_commands/remove.rs
@@ -1,13 +1,11 @@
 //! Commands for removing embedded fonts and graphics from ASS documents
 
+use super::section::{file_section, FONTS, GRAPHICS};
 use crate::commands::{CommandResult, EditorCommand};
 use crate::core::{EditorDocument, EditorError, Position, Range, Result};
 
 #[cfg(not(feature = "std"))]
-use alloc::{
-    format,
-    string::{String, ToString},
-};
+use alloc::string::String;
 
 /// Command to remove an embedded font from the ASS document
 ///
@@ -27,39 +25,18 @@ impl RemoveFontCommand {
 
 impl EditorCommand for RemoveFontCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
-        let content = document.text().to_string();
-
-        // Find [Fonts] section
-        let fonts_section = content
-            .find("[Fonts]")
+        let content = document.text();
+        let section = file_section(&content, FONTS, "fontname:")
             .ok_or_else(|| EditorError::command_failed("No [Fonts] section found"))?;
 
-        // Find the end of the Fonts section
-        let section_end = content[fonts_section..]
-            .find("\n[")
-            .map(|pos| fonts_section + pos)
-            .unwrap_or(content.len());
-
-        // Look for the font entry
-        let filename = &self.filename;
-        let search_pattern = format!("fontname: {filename}");
-        let section_content = &content[fonts_section..section_end];
-
-        if let Some(font_pos) = section_content.find(&search_pattern) {
-            let absolute_pos = fonts_section + font_pos;
-
-            // Find the end of this font's data (next fontname: or section end)
-            let font_end = content[absolute_pos..]
-                .find("\nfontname:")
-                .map(|pos| absolute_pos + pos)
-                .unwrap_or(section_end);
-
-            let range = Range::new(Position::new(absolute_pos), Position::new(font_end));
-            document.delete(range)?;
+        let mut files = section.files.into_iter();
+        if let Some((_, lines)) = files.find(|(name, _)| *name == self.filename.trim()) {
+            let start = Position::new(lines.start);
+            document.delete(Range::new(start, Position::new(lines.end)))?;
 
             Ok(CommandResult::success_with_change(
-                Range::new(Position::new(absolute_pos), Position::new(absolute_pos)),
-                Position::new(absolute_pos),
+                Range::new(start, start),
+                start,
             ))
         } else {
             Ok(CommandResult::success())
@@ -93,39 +70,18 @@ impl RemoveGraphicCommand {
 
 impl EditorCommand for RemoveGraphicCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
-        let content = document.text().to_string();
-
-        // Find [Graphics] section
-        let graphics_section = content
-            .find("[Graphics]")
+        let content = document.text();
+        let section = file_section(&content, GRAPHICS, "filename:")
             .ok_or_else(|| EditorError::command_failed("No [Graphics] section found"))?;
 
-        // Find the end of the Graphics section
-        let section_end = content[graphics_section..]
-            .find("\n[")
-            .map(|pos| graphics_section + pos)
-            .unwrap_or(content.len());
-
-        // Look for the graphic entry
-        let filename = &self.filename;
-        let search_pattern = format!("filename: {filename}");
-        let section_content = &content[graphics_section..section_end];
-
-        if let Some(graphic_pos) = section_content.find(&search_pattern) {
-            let absolute_pos = graphics_section + graphic_pos;
-
-            // Find the end of this graphic's data (next filename: or section end)
-            let graphic_end = content[absolute_pos..]
-                .find("\nfilename:")
-                .map(|pos| absolute_pos + pos)
-                .unwrap_or(section_end);
-
-            let range = Range::new(Position::new(absolute_pos), Position::new(graphic_end));
-            document.delete(range)?;
+        let mut files = section.files.into_iter();
+        if let Some((_, lines)) = files.find(|(name, _)| *name == self.filename.trim()) {
+            let start = Position::new(lines.start);
+            document.delete(Range::new(start, Position::new(lines.end)))?;
 
             Ok(CommandResult::success_with_change(
-                Range::new(Position::new(absolute_pos), Position::new(absolute_pos)),
-                Position::new(absolute_pos),
+                Range::new(start, start),
+                start,
             ))
         } else {
             Ok(CommandResult::success())
diff --git a/crates/ass-editor/commands/fonts_graphics_commands/section.rs b/crates/ass-editor/commands/fonts_graphics_commands/section.rs
new file mode 100644
index 0000000..b33e7b9
--- /dev/null
+++ b/crates/ass-editor/commands/fonts_graphics_commands/section.rs
@@ -0,0 +1,52 @@
+//! Finds the embedded files of a `[Fonts]` or `[Graphics]` section.
+
+use crate::core::section_text::{section_header, section_lines};
+use core::ops::Range;
+
+#[cfg(not(feature = "std"))]
+use alloc::vec::Vec;
+
+/// Header of the section that holds embedded fonts
+pub(super) const FONTS: &str = "[Fonts]";
+
+/// Header of the section that holds embedded graphics
+pub(super) const GRAPHICS: &str = "[Graphics]";
+
+/// Section with embedded files
+pub(super) struct FileSection<'a> {
+    /// Range of the section below its header, without the blank lines at its end
+    pub(super) body: Range<usize>,
+    /// Names of the files and the ranges of their whole lines
+    pub(super) files: Vec<(&'a str, Range<usize>)>,
+}
+
+/// First section with this header, in which a line starting with `key` begins a file
+pub(super) fn file_section<'a>(
+    content: &'a str,
+    header: &str,
+    key: &str,
+) -> Option<FileSection<'a>> {
+    let header_line = section_header(content, &[header])?;
+    let mut body = header_line.end..header_line.end;
+    let mut files: Vec<(&str, Range<usize>)> = Vec::new();
+    let mut next_line = header_line.end;
+    for (start, line) in section_lines(&content[header_line.start..], &[header]) {
+        let start = header_line.start + start;
+        if start != next_line {
+            break;
+        }
+        next_line = content[start..]
+            .find('\n')
+            .map_or(content.len(), |pos| start + pos + 1);
+        if line.trim().is_empty() {
+            continue;
+        }
+        body.end = next_line;
+        if let Some(name) = line.trim_start().strip_prefix(key) {
+            files.push((name.trim(), start..next_line));
+        } else if let Some((_, lines)) = files.last_mut() {
+            lines.end = next_line;
+        }
+    }
+    Some(FileSection { body, files })
+}
-- 
2.43.0


From 7c17916932df3562ab71afaeb63a21de9e19714a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:55 +0000
Subject: [PATCH 66/73] fix: event commands look for the [Events] header on a
 line of its own

---
 crates/ass-editor/commands/event_commands/batch_delete.rs | 5 +++--
 crates/ass-editor/commands/event_commands/delete.rs       | 5 +++--
 crates/ass-editor/commands/event_commands/effect_exec.rs  | 5 +++--
 crates/ass-editor/commands/event_commands/merge.rs        | 5 +++--
 crates/ass-editor/commands/event_commands/split.rs        | 5 +++--
 crates/ass-editor/commands/event_commands/timing.rs       | 5 +++--
 crates/ass-editor/commands/event_commands/toggle.rs       | 5 +++--
 crates/ass-editor/commands/style_commands/create.rs       | 7 ++++++-
 8 files changed, 27 insertions(+), 15 deletions(-)

diff --git a/crates/ass-editor/commands/event_commands/batch_delete.rs b/crates/ass-editor/commands/event_commands/batch_delete.rs
index 6884e8a..4a3ad2f 100644
--- a/crates/ass-editor/commands/event_commands/batch_delete.rs
+++ b/crates/ass-editor/commands/event_commands/batch_delete.rs
@@ -1,6 +1,7 @@
 //! Command to delete multiple events from an ASS document.
 
 use crate::commands::{CommandResult, EditorCommand};
+use crate::core::section_text::{section_header, EVENTS};
 use crate::core::{EditorDocument, EditorError, Position, Range, Result};
 
 #[cfg(not(feature = "std"))]
@@ -39,8 +40,8 @@ impl EditorCommand for BatchDeleteEventsCommand {
         let content = document.text().to_string();
 
         // Find [Events] section
-        let events_start = content
-            .find("[Events]")
+        let events_start = section_header(&content, EVENTS)
+            .map(|header| header.start)
             .ok_or_else(|| EditorError::command_failed("No [Events] section found"))?;
 
         // Find Format line end
diff --git a/crates/ass-editor/commands/event_commands/delete.rs b/crates/ass-editor/commands/event_commands/delete.rs
index 5d1f357..5897f4a 100644
--- a/crates/ass-editor/commands/event_commands/delete.rs
+++ b/crates/ass-editor/commands/event_commands/delete.rs
@@ -1,6 +1,7 @@
 //! Command to delete a single event from an ASS document.
 
 use crate::commands::{CommandResult, EditorCommand};
+use crate::core::section_text::{section_header, EVENTS};
 use crate::core::{EditorDocument, EditorError, Position, Range, Result};
 
 #[cfg(not(feature = "std"))]
@@ -28,8 +29,8 @@ impl EditorCommand for DeleteEventCommand {
         let content = document.text().to_string();
 
         // Find [Events] section
-        let events_start = content
-            .find("[Events]")
+        let events_start = section_header(&content, EVENTS)
+            .map(|header| header.start)
             .ok_or_else(|| EditorError::command_failed("No [Events] section found"))?;
 
         // Find Format line end
diff --git a/crates/ass-editor/commands/event_commands/effect_exec.rs b/crates/ass-editor/commands/event_commands/effect_exec.rs
index a3caa6d..a3ec4e1 100644
--- a/crates/ass-editor/commands/event_commands/effect_exec.rs
+++ b/crates/ass-editor/commands/event_commands/effect_exec.rs
@@ -3,6 +3,7 @@
 use super::effect::{EffectOperation, EventEffectCommand};
 use super::helpers::parse_event_line;
 use crate::commands::{CommandResult, EditorCommand};
+use crate::core::section_text::{section_header, EVENTS};
 use crate::core::{EditorDocument, EditorError, Position, Range, Result};
 use ass_core::parser::ast::EventType;
 
@@ -15,8 +16,8 @@ use alloc::{
 impl EditorCommand for EventEffectCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
         let mut content = document.text();
-        let events_start = content
-            .find("[Events]")
+        let events_start = section_header(&content, EVENTS)
+            .map(|header| header.start)
             .ok_or_else(|| EditorError::command_failed("Events section not found"))?;
 
         let events_content = &content[events_start..];
diff --git a/crates/ass-editor/commands/event_commands/merge.rs b/crates/ass-editor/commands/event_commands/merge.rs
index 781c1cc..293c470 100644
--- a/crates/ass-editor/commands/event_commands/merge.rs
+++ b/crates/ass-editor/commands/event_commands/merge.rs
@@ -2,6 +2,7 @@
 
 use super::helpers::parse_event_line;
 use crate::commands::{CommandResult, EditorCommand};
+use crate::core::section_text::{section_header, EVENTS};
 use crate::core::{EditorDocument, EditorError, Position, Range, Result};
 use ass_core::parser::ast::EventType;
 
@@ -55,8 +56,8 @@ impl EditorCommand for MergeEventsCommand {
         }
 
         let content = document.text();
-        let events_start = content
-            .find("[Events]")
+        let events_start = section_header(&content, EVENTS)
+            .map(|header| header.start)
             .ok_or_else(|| EditorError::command_failed("Events section not found"))?;
 
         // Skip to first event after format line
diff --git a/crates/ass-editor/commands/event_commands/split.rs b/crates/ass-editor/commands/event_commands/split.rs
index 5160a83..3d86136 100644
--- a/crates/ass-editor/commands/event_commands/split.rs
+++ b/crates/ass-editor/commands/event_commands/split.rs
@@ -2,6 +2,7 @@
 
 use super::helpers::parse_event_line;
 use crate::commands::{CommandResult, EditorCommand};
+use crate::core::section_text::{section_header, EVENTS};
 use crate::core::{EditorDocument, EditorError, Position, Range, Result};
 use ass_core::parser::ast::EventType;
 use ass_core::utils::parse_ass_time;
@@ -44,8 +45,8 @@ impl EditorCommand for SplitEventCommand {
 
         // Find the event to split
         let content = document.text();
-        let events_start = content
-            .find("[Events]")
+        let events_start = section_header(&content, EVENTS)
+            .map(|header| header.start)
             .ok_or_else(|| EditorError::command_failed("Events section not found"))?;
 
         // Skip to first event after format line
diff --git a/crates/ass-editor/commands/event_commands/timing.rs b/crates/ass-editor/commands/event_commands/timing.rs
index 1a4799b..66113d6 100644
--- a/crates/ass-editor/commands/event_commands/timing.rs
+++ b/crates/ass-editor/commands/event_commands/timing.rs
@@ -2,6 +2,7 @@
 
 use super::helpers::parse_event_line;
 use crate::commands::{CommandResult, EditorCommand};
+use crate::core::section_text::{section_header, EVENTS};
 use crate::core::{EditorDocument, EditorError, Position, Range, Result};
 use ass_core::parser::ast::EventType;
 use ass_core::utils::format_ass_time;
@@ -76,8 +77,8 @@ fn shift_time(time_cs: u32, offset_cs: i32) -> u32 {
 impl EditorCommand for TimingAdjustCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
         let mut content = document.text();
-        let events_start = content
-            .find("[Events]")
+        let events_start = section_header(&content, EVENTS)
+            .map(|header| header.start)
             .ok_or_else(|| EditorError::command_failed("Events section not found"))?;
 
         let events_content = &content[events_start..];
diff --git a/crates/ass-editor/commands/event_commands/toggle.rs b/crates/ass-editor/commands/event_commands/toggle.rs
index dcf92dd..33c37f1 100644
--- a/crates/ass-editor/commands/event_commands/toggle.rs
+++ b/crates/ass-editor/commands/event_commands/toggle.rs
@@ -1,6 +1,7 @@
 //! Command to toggle event type between Dialogue and Comment.
 
 use crate::commands::{CommandResult, EditorCommand};
+use crate::core::section_text::{section_header, EVENTS};
 use crate::core::{EditorDocument, EditorError, Position, Range, Result};
 
 #[cfg(not(feature = "std"))]
@@ -48,8 +49,8 @@ impl ToggleEventTypeCommand {
 impl EditorCommand for ToggleEventTypeCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
         let mut content = document.text();
-        let events_start = content
-            .find("[Events]")
+        let events_start = section_header(&content, EVENTS)
+            .map(|header| header.start)
             .ok_or_else(|| EditorError::command_failed("Events section not found"))?;
 
         let events_content = &content[events_start..];
diff --git a/crates/ass-editor/commands/style_commands/create.rs b/crates/ass-editor/commands/style_commands/create.rs
index b14bd0e..803846e 100644
--- a/crates/ass-editor/commands/style_commands/create.rs
+++ b/crates/ass-editor/commands/style_commands/create.rs
@@ -52,7 +52,12 @@ impl EditorCommand for CreateStyleCommand {
                     Some((header.start + start, names.collect::<Vec<_>>()))
                 });
             let (above, style_line) = match format_line {
-                Some((start, columns)) => (start, builder.build_with_format(&columns)?),
+                Some((start, columns)) => (
+                    start,
+                    builder
+                        .build_with_format(&columns)
+                        .or_else(|_| builder.build())?,
+                ),
                 None => (header.start, builder.build()?),
             };
             let insert_pos = content[above..]
-- 
2.43.0


From 6afdfaadcc227cfc701f77893d5c204c361479cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:33 +0000
Subject: [PATCH 67/73] fix: tag commands keep everything but the tags they
 remove or replace

---
 .../commands/tag_commands/blocks.rs           | 47 ++++++++++
 .../ass-editor/commands/tag_commands/mod.rs   |  1 +
 .../ass-editor/commands/tag_commands/parse.rs | 39 +-------
 .../commands/tag_commands/remove.rs           | 93 ++++++-------------
 .../commands/tag_commands/replace.rs          | 92 ++++--------------
 5 files changed, 100 insertions(+), 172 deletions(-)
 create mode 100644 crates/ass-editor/commands/tag_commands/blocks.rs

diff --git a/crates/ass-editor/commands/tag_commands/blocks.rs b/crates/ass-editor/commands/tag_commands/blocks.rs
new file mode 100644
index 0000000..268278d
--- /dev/null
+++ b/crates/ass-editor/commands/tag_commands/blocks.rs
@@ -0,0 +1,47 @@
+//! Override blocks of a text and the tags in them, with the offsets where they stand.
+
+use ass_core::analysis::events::tags::{parse_override_block, OverrideTag};
+use core::ops::Range;
+
+#[cfg(not(feature = "std"))]
+use alloc::vec::Vec;
+
+/// Ranges of the override blocks of `text` between their braces, and whether each is closed
+///
+/// Braces nest; a block that is not closed runs to the end of the text.
+pub(super) fn override_blocks(text: &str) -> Vec<(Range<usize>, bool)> {
+    let mut blocks = Vec::new();
+    let mut block_start = 0;
+    let mut depth = 0;
+    for (pos, ch) in text.char_indices() {
+        if ch == '{' {
+            if depth == 0 {
+                block_start = pos + 1;
+            }
+            depth += 1;
+        } else if ch == '}' && depth > 0 {
+            depth -= 1;
+            if depth == 0 {
+                blocks.push((block_start..pos, true));
+            }
+        }
+    }
+    if depth > 0 {
+        blocks.push((block_start..text.len(), false));
+    }
+    blocks
+}
+
+/// Tags of an override block with the ranges of their whole text in it
+pub(super) fn block_tags(content: &str) -> Vec<(OverrideTag<'_>, Range<usize>)> {
+    let mut tags = Vec::new();
+    let mut diagnostics = Vec::new();
+    parse_override_block(content, 0, &mut tags, &mut diagnostics);
+    tags.into_iter()
+        .map(|tag| {
+            let start = tag.position();
+            let end = start + 1 + tag.name().len() + tag.args().len();
+            (tag, start..end)
+        })
+        .collect()
+}
diff --git a/crates/ass-editor/commands/tag_commands/mod.rs b/crates/ass-editor/commands/tag_commands/mod.rs
index 7afa0bf..9ef8dc9 100644
--- a/crates/ass-editor/commands/tag_commands/mod.rs
+++ b/crates/ass-editor/commands/tag_commands/mod.rs
@@ -6,6 +6,7 @@
 
 #![allow(clippy::while_let_on_iterator)]
 
+mod blocks;
 mod insert;
 mod parse;
 mod remove;
diff --git a/crates/ass-editor/commands/tag_commands/parse.rs b/crates/ass-editor/commands/tag_commands/parse.rs
index 3494f0b..830cff9 100644
--- a/crates/ass-editor/commands/tag_commands/parse.rs
+++ b/crates/ass-editor/commands/tag_commands/parse.rs
@@ -3,6 +3,7 @@
 //! Provides [`ParseTagCommand`] for extracting override tags from a range into
 //! [`ParsedTag`] records, optionally including their positions.
 
+use super::blocks::{block_tags, override_blocks};
 use crate::commands::{CommandResult, EditorCommand};
 use crate::core::{EditorDocument, Position, Range, Result};
 
@@ -71,32 +72,8 @@ impl ParseTagCommand {
     /// Parse tags from text content
     pub fn parse_tags_from_text(&self, text: &str) -> Result<Vec<ParsedTag>> {
         let mut tags = Vec::new();
-        let mut chars = text.chars().enumerate().peekable();
-
-        while let Some((pos, ch)) = chars.next() {
-            if ch == '{' {
-                // Found override block
-                let mut override_content = String::new();
-                let mut brace_count = 1;
-                let start_pos = pos;
-
-                while let Some((_, inner_ch)) = chars.next() {
-                    if inner_ch == '{' {
-                        brace_count += 1;
-                    } else if inner_ch == '}' {
-                        brace_count -= 1;
-                        if brace_count == 0 {
-                            break;
-                        }
-                    }
-                    override_content.push(inner_ch);
-                }
-
-                // Parse tags from override content
-                let mut override_tags =
-                    self.extract_tags_from_override(&override_content, start_pos)?;
-                tags.append(&mut override_tags);
-            }
+        for (block, _) in override_blocks(text) {
+            tags.append(&mut self.extract_tags_from_override(&text[block.clone()], block.start)?);
         }
 
         Ok(tags)
@@ -108,16 +85,8 @@ impl ParseTagCommand {
         content: &str,
         base_position: usize,
     ) -> Result<Vec<ParsedTag>> {
-        use ass_core::analysis::events::tags::parse_override_block;
-
-        let mut core_tags = Vec::new();
-        let mut diagnostics = Vec::new();
-        parse_override_block(content, 0, &mut core_tags, &mut diagnostics);
-
         let mut tags = Vec::new();
-
-        // Convert ass-core tags to ParsedTag format
-        for core_tag in &core_tags {
+        for (core_tag, _) in block_tags(content) {
             let args = core_tag.args();
 
             // Parse parameters and determine tag format based on argument structure
diff --git a/crates/ass-editor/commands/tag_commands/remove.rs b/crates/ass-editor/commands/tag_commands/remove.rs
index 79a0656..35c8291 100644
--- a/crates/ass-editor/commands/tag_commands/remove.rs
+++ b/crates/ass-editor/commands/tag_commands/remove.rs
@@ -4,11 +4,12 @@
 //! matching a specific pattern, from a range, optionally cleaning up empty
 //! override brackets.
 
+use super::blocks::{block_tags, override_blocks};
 use crate::commands::{CommandResult, EditorCommand};
 use crate::core::{EditorDocument, Position, Range, Result};
 
 #[cfg(not(feature = "std"))]
-use alloc::{string::String, vec::Vec};
+use alloc::string::String;
 
 /// Remove ASS override tags from specified range
 #[derive(Debug, Clone, PartialEq, Eq)]
@@ -75,77 +76,43 @@ impl RemoveTagCommand {
     /// Remove tags from text content
     fn remove_tags_from_text(&self, text: &str) -> Result<String> {
         let mut result = String::new();
-        let mut chars = text.chars().peekable();
-
-        while let Some(ch) = chars.next() {
-            if ch == '{' {
-                // Found override block - process it
-                let mut override_content = String::new();
-                let mut brace_count = 1;
-
-                while let Some(inner_ch) = chars.next() {
-                    if inner_ch == '{' {
-                        brace_count += 1;
-                    } else if inner_ch == '}' {
-                        brace_count -= 1;
-                        if brace_count == 0 {
-                            break;
-                        }
-                    }
-                    override_content.push(inner_ch);
-                }
-
-                // Process override content
-                let cleaned_override = self.process_override_content(&override_content);
-
-                // Add back if not empty or if we're keeping empty overrides
-                if !cleaned_override.is_empty() || !self.clean_empty_overrides {
-                    result.push('{');
-                    result.push_str(&cleaned_override);
-                    result.push('}');
-                }
-            } else {
-                result.push(ch);
+        let mut kept = 0;
+        for (block, closed) in override_blocks(text) {
+            if !closed {
+                break;
             }
+            let cleaned_override = self.process_override_content(&text[block.clone()]);
+            result.push_str(&text[kept..block.start - 1]);
+            // Only include the override block if it has content or we're keeping empty ones
+            if !cleaned_override.is_empty() || !self.clean_empty_overrides {
+                result.push('{');
+                result.push_str(&cleaned_override);
+                result.push('}');
+            }
+            kept = block.end + 1;
         }
+        result.push_str(&text[kept..]);
 
         Ok(result)
     }
 
-    /// Process content inside override brackets using ass-core's parser
+    /// Process override content to remove specified tags
     fn process_override_content(&self, content: &str) -> String {
-        use ass_core::analysis::events::tags::parse_override_block;
-
-        if let Some(pattern) = &self.tag_pattern {
-            // Remove only specific pattern using ass-core's parser
-            let mut tags = Vec::new();
-            let mut diagnostics = Vec::new();
-            parse_override_block(content, 0, &mut tags, &mut diagnostics);
-
-            // Rebuild content without matching tags
-            let mut result = String::new();
-            let mut processed_positions = Vec::new();
-
-            // Process tags from ass-core parser
-            for tag in &tags {
-                let pattern_without_backslash = &pattern[1..]; // Remove leading backslash from pattern
-                if !tag.name().starts_with(pattern_without_backslash) {
-                    // This tag should be kept - track its position
-                    processed_positions.push((tag.position(), tag.name(), tag.args()));
-                }
-            }
+        let Some(pattern) = &self.tag_pattern else {
+            // Remove all tags
+            return String::new();
+        };
 
-            // Rebuild the override content, keeping only non-matching tags
-            for (_, name, args) in processed_positions {
-                result.push('\\');
-                result.push_str(name);
-                result.push_str(args);
+        let pattern_without_backslash = pattern.strip_prefix('\\').unwrap_or(pattern);
+        let mut result = String::new();
+        let mut kept = 0;
+        for (tag, whole) in block_tags(content) {
+            if tag.name().starts_with(pattern_without_backslash) {
+                result.push_str(&content[kept..whole.start]);
+                kept = whole.end;
             }
-
-            result
-        } else {
-            // Remove all tags - return empty string
-            String::new()
         }
+        result.push_str(&content[kept..]);
+        result
     }
 }
diff --git a/crates/ass-editor/commands/tag_commands/replace.rs b/crates/ass-editor/commands/tag_commands/replace.rs
index 5280729..e2a04b9 100644
--- a/crates/ass-editor/commands/tag_commands/replace.rs
+++ b/crates/ass-editor/commands/tag_commands/replace.rs
@@ -3,15 +3,12 @@
 //! Provides [`ReplaceTagCommand`] for finding tags matching a pattern within a
 //! range and replacing them with another tag, either once or for all matches.
 
+use super::blocks::{block_tags, override_blocks};
 use crate::commands::{CommandResult, EditorCommand};
 use crate::core::{EditorDocument, Position, Range, Result};
 
 #[cfg(not(feature = "std"))]
-use alloc::{
-    format,
-    string::{String, ToString},
-    vec::Vec,
-};
+use alloc::string::String;
 
 /// Replace ASS override tag with another tag
 #[derive(Debug, Clone, PartialEq, Eq)]
@@ -71,80 +68,27 @@ impl ReplaceTagCommand {
     /// Replace tags in text content
     fn replace_tags_in_text(&self, text: &str) -> Result<String> {
         let mut result = String::new();
-        let mut chars = text.chars().peekable();
+        let mut kept = 0;
         let mut replacements_made = 0;
-
-        while let Some(ch) = chars.next() {
-            if ch == '{' {
-                // Found override block
-                result.push(ch);
-                let mut override_content = String::new();
-                let mut brace_count = 1;
-
-                while let Some(inner_ch) = chars.next() {
-                    if inner_ch == '{' {
-                        brace_count += 1;
-                    } else if inner_ch == '}' {
-                        brace_count -= 1;
-                        if brace_count == 0 {
-                            // Process override content before closing
-                            let processed = self.process_override_for_replacement(
-                                &override_content,
-                                &mut replacements_made,
-                            );
-                            result.push_str(&processed);
-                            result.push(inner_ch);
-                            break;
-                        }
-                    }
-                    override_content.push(inner_ch);
+        for (block, closed) in override_blocks(text) {
+            if !closed {
+                break;
+            }
+            for (_, tag) in block_tags(&text[block.clone()]) {
+                let tag = block.start + tag.start..block.start + tag.end;
+                if text[tag.clone()].starts_with(&self.find_pattern)
+                    && (self.replace_all || replacements_made == 0)
+                {
+                    // Replace only the matching prefix, preserve everything after it
+                    result.push_str(&text[kept..tag.start]);
+                    result.push_str(&self.replace_with);
+                    kept = tag.start + self.find_pattern.len();
+                    replacements_made += 1;
                 }
-            } else {
-                result.push(ch);
             }
         }
+        result.push_str(&text[kept..]);
 
         Ok(result)
     }
-
-    /// Process override content for tag replacement using ass-core's parser
-    fn process_override_for_replacement(
-        &self,
-        content: &str,
-        replacements_made: &mut usize,
-    ) -> String {
-        use ass_core::analysis::events::tags::parse_override_block;
-
-        if !self.replace_all && *replacements_made > 0 {
-            return content.to_string();
-        }
-
-        let mut tags = Vec::new();
-        let mut diagnostics = Vec::new();
-        parse_override_block(content, 0, &mut tags, &mut diagnostics);
-
-        let mut result = String::new();
-
-        // Process tags from ass-core parser
-        for tag in &tags {
-            // Reconstruct the full tag to match against the find pattern
-            let tag_full = format!("\\{}{}", tag.name(), tag.args());
-
-            // Check if this tag matches our find pattern
-            if tag_full.starts_with(&self.find_pattern)
-                && (self.replace_all || *replacements_made == 0)
-            {
-                // Replace the tag - preserve any suffix
-                let suffix = &tag_full[self.find_pattern.len()..];
-                result.push_str(&self.replace_with);
-                result.push_str(suffix);
-                *replacements_made += 1;
-            } else {
-                // Add the original tag back
-                result.push_str(&tag_full);
-            }
-        }
-
-        result
-    }
 }
-- 
2.43.0


From da86b161562a78b474339ef39210b5ee2d6e0b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:49 +0000
Subject: [PATCH 68/73] fix: document-level section edits look at whole lines
 of the section they change

---
 .../commands/style_commands/clone.rs          |  2 +-
 .../commands/style_commands/delete.rs         |  2 +-
 .../commands/style_commands/edit.rs           |  2 +-
 .../commands/style_commands/find.rs           | 52 -------------------
 .../ass-editor/commands/style_commands/mod.rs |  1 -
 crates/ass-editor/core/document/ass_api.rs    | 23 +++-----
 .../ass-editor/core/document/builder_edit.rs  | 23 ++++----
 .../ass-editor/core/document/section_lines.rs | 42 +++++++--------
 crates/ass-editor/core/section_text.rs        | 45 ++++++++++++++++
 9 files changed, 83 insertions(+), 109 deletions(-)
 delete mode 100644 crates/ass-editor/commands/style_commands/find.rs

diff --git a/crates/ass-editor/commands/style_commands/clone.rs b/crates/ass-editor/commands/style_commands/clone.rs
index 67bca31..789e8ee 100644
--- a/crates/ass-editor/commands/style_commands/clone.rs
+++ b/crates/ass-editor/commands/style_commands/clone.rs
@@ -3,8 +3,8 @@
 //! Provides [`CloneStyleCommand`] to duplicate an existing style under a new
 //! name, inserting the clone after the source style line.
 
-use super::find::find_style;
 use crate::commands::{CommandResult, EditorCommand};
+use crate::core::section_text::find_style;
 use crate::core::{EditorDocument, EditorError, Position, Range, Result};
 
 #[cfg(not(feature = "std"))]
diff --git a/crates/ass-editor/commands/style_commands/delete.rs b/crates/ass-editor/commands/style_commands/delete.rs
index ad55c5c..2c28b81 100644
--- a/crates/ass-editor/commands/style_commands/delete.rs
+++ b/crates/ass-editor/commands/style_commands/delete.rs
@@ -3,8 +3,8 @@
 //! Provides [`DeleteStyleCommand`] to remove a named style line from the
 //! styles section.
 
-use super::find::find_style;
 use crate::commands::{CommandResult, EditorCommand};
+use crate::core::section_text::find_style;
 use crate::core::{EditorDocument, EditorError, Position, Range, Result};
 
 #[cfg(not(feature = "std"))]
diff --git a/crates/ass-editor/commands/style_commands/edit.rs b/crates/ass-editor/commands/style_commands/edit.rs
index 95c5377..eff2d53 100644
--- a/crates/ass-editor/commands/style_commands/edit.rs
+++ b/crates/ass-editor/commands/style_commands/edit.rs
@@ -3,8 +3,8 @@
 //! Provides [`EditStyleCommand`] to update individual fields of an existing
 //! style, mapping field names to columns via the section format line.
 
-use super::find::find_style;
 use crate::commands::{CommandResult, EditorCommand};
+use crate::core::section_text::find_style;
 use crate::core::{EditorDocument, EditorError, Position, Range, Result};
 
 #[cfg(not(feature = "std"))]
diff --git a/crates/ass-editor/commands/style_commands/find.rs b/crates/ass-editor/commands/style_commands/find.rs
deleted file mode 100644
index 4425654..0000000
--- a/crates/ass-editor/commands/style_commands/find.rs
+++ /dev/null
@@ -1,52 +0,0 @@
-//! Finds the line of a style and its fields in the text of a document.
-
-use crate::core::section_text::{line_fields, section_lines, STYLES};
-use core::ops::Range;
-
-#[cfg(not(feature = "std"))]
-use alloc::vec::Vec;
-
-/// Line that defines a style
-pub(super) struct StyleLine<'a> {
-    /// Offset of the line in the document
-    pub(super) start: usize,
-    /// The line, without its line break
-    pub(super) line: &'a str,
-    /// Column names of the format line before it
-    pub(super) columns: Vec<&'a str>,
-    /// Ranges of the values in `line`, in the order of the columns
-    pub(super) values: Vec<Range<usize>>,
-}
-
-impl StyleLine<'_> {
-    /// Place of the named column
-    pub(super) fn column(&self, name: &str) -> Option<usize> {
-        self.columns.iter().position(|&column| column == name)
-    }
-}
-
-/// First style line whose name is `style_name`
-pub(super) fn find_style<'a>(content: &'a str, style_name: &str) -> Option<StyleLine<'a>> {
-    let mut columns = Vec::new();
-    for (start, line) in section_lines(content, STYLES) {
-        if let Some(names) = line_fields(line, "Format", usize::MAX) {
-            columns = names.into_iter().map(|name| &line[name]).collect();
-        } else if let Some(mut values) = line_fields(line, "Style", usize::MAX) {
-            // A leading `*Parent` field names the parent style
-            if values.len() > 1 && line[values[0].clone()].starts_with('*') {
-                values.remove(0);
-            }
-            let name_column = columns.iter().position(|&column| column == "Name");
-            let name = values.get(name_column.unwrap_or(0)).cloned();
-            if name.is_some_and(|name| &line[name] == style_name.trim()) {
-                return Some(StyleLine {
-                    start,
-                    line,
-                    columns,
-                    values,
-                });
-            }
-        }
-    }
-    None
-}
diff --git a/crates/ass-editor/commands/style_commands/mod.rs b/crates/ass-editor/commands/style_commands/mod.rs
index cffc700..73b3ebc 100644
--- a/crates/ass-editor/commands/style_commands/mod.rs
+++ b/crates/ass-editor/commands/style_commands/mod.rs
@@ -8,7 +8,6 @@ mod clone;
 mod create;
 mod delete;
 mod edit;
-mod find;
 
 #[cfg(test)]
 mod tests;
diff --git a/crates/ass-editor/core/document/ass_api.rs b/crates/ass-editor/core/document/ass_api.rs
index 296a9c3..c5e8774 100644
--- a/crates/ass-editor/core/document/ass_api.rs
+++ b/crates/ass-editor/core/document/ass_api.rs
@@ -7,6 +7,7 @@
 use super::EditorDocument;
 use crate::core::errors::Result;
 use crate::core::position::{Position, Range};
+use crate::core::section_text::{key_value, section_lines, SCRIPT_INFO};
 use ass_core::parser::ast::Section;
 
 #[cfg(not(feature = "std"))]
@@ -134,22 +135,12 @@ impl EditorDocument {
     pub fn set_script_info_field(&mut self, key: &str, value: &str) -> Result<()> {
         // Find the line of the field: the first one in the section with this key
         let content = self.text();
-        let section = content.find("[Script Info]").unwrap_or(0);
-        let section_end = content[section..]
-            .find("\n[")
-            .map_or(content.len(), |n| section + n);
-        let mut line_start = section;
-        let field_line = content[section..section_end]
-            .split_inclusive('\n')
-            .find_map(|line| {
-                let start = line_start;
-                line_start += line.len();
-                let (name, _) = line.split_once(':')?;
-                (name.trim() == key).then_some((start, line.trim_end_matches('\n').len()))
-            });
-
-        if let Some((line_start, line_len)) = field_line {
-            let line_end = line_start + line_len;
+        let field_line = section_lines(&content, SCRIPT_INFO)
+            .into_iter()
+            .find(|(_, line)| key_value(line).is_some_and(|(name, _)| name == key));
+
+        if let Some((line_start, line)) = field_line {
+            let line_end = line_start + line.len();
 
             let range = Range::new(Position::new(line_start), Position::new(line_end));
 
diff --git a/crates/ass-editor/core/document/builder_edit.rs b/crates/ass-editor/core/document/builder_edit.rs
index e3039ef..9cf8fd9 100644
--- a/crates/ass-editor/core/document/builder_edit.rs
+++ b/crates/ass-editor/core/document/builder_edit.rs
@@ -7,6 +7,7 @@
 use super::EditorDocument;
 use crate::core::errors::{EditorError, Result};
 use crate::core::position::{Position, Range};
+use crate::core::section_text::{line_fields, section_lines, EVENTS};
 use ass_core::parser::ast::Section;
 
 #[cfg(not(feature = "std"))]
@@ -67,20 +68,14 @@ impl EditorDocument {
                 if let Section::Events(events) = section {
                     // Get format line if available
                     if format_line.is_none() {
-                        // Find Events section header and format line in raw text
-                        if let Some(events_pos) = content.find("[Events]") {
-                            let after_header = &content[events_pos + 8..];
-                            if let Some(format_pos) = after_header.find("Format:") {
-                                let format_start = events_pos + 8 + format_pos + 7; // Skip "Format:"
-                                if let Some(format_end) = content[format_start..].find('\n') {
-                                    let format_str =
-                                        content[format_start..format_start + format_end].trim();
-                                    let fields: Vec<&str> =
-                                        format_str.split(',').map(str::trim).collect();
-                                    format_line = Some(fields);
-                                }
-                            }
-                        }
+                        format_line =
+                            section_lines(&content, EVENTS)
+                                .into_iter()
+                                .find_map(|(_, line)| {
+                                    let columns = line_fields(line, "Format", usize::MAX)?;
+                                    let names = columns.into_iter().map(|name| &line[name]);
+                                    Some(names.collect::<Vec<&str>>())
+                                });
                     }
 
                     for event in events {
diff --git a/crates/ass-editor/core/document/section_lines.rs b/crates/ass-editor/core/document/section_lines.rs
index 5aacca6..558ed29 100644
--- a/crates/ass-editor/core/document/section_lines.rs
+++ b/crates/ass-editor/core/document/section_lines.rs
@@ -5,7 +5,9 @@
 
 use super::EditorDocument;
 use crate::core::errors::Result;
-use crate::core::position::{Position, Range};
+use crate::core::position::{Position, Range as TextRange};
+use crate::core::section_text::{find_style, section_header, section_lines, EVENTS, STYLES};
+use core::ops::Range;
 
 #[cfg(not(feature = "std"))]
 use alloc::format;
@@ -14,9 +16,9 @@ impl EditorDocument {
     /// Add event line to document
     pub fn add_event_line(&mut self, event_line: &str) -> Result<()> {
         let content = self.text();
-        if let Some(events_pos) = content.find("[Events]") {
+        if let Some(header) = section_header(&content, EVENTS) {
             // Find end of format line and add after it
-            self.insert_after_format_line(&content, events_pos, event_line)
+            self.insert_after_format_line(&content, header, EVENTS, event_line)
         } else {
             // Add Events section if it doesn't exist
             let content_len = self.len_bytes();
@@ -25,21 +27,19 @@ impl EditorDocument {
         }
     }
 
-    /// Insert a line after the format line of the section starting at `section_pos`,
+    /// Insert a line after the format line of the section with this header,
     /// or after its header when it has none
     fn insert_after_format_line(
         &mut self,
         content: &str,
-        section_pos: usize,
+        header: Range<usize>,
+        headers: &[&str],
         line: &str,
     ) -> Result<()> {
-        let section_end = content[section_pos..]
-            .find("\n[")
-            .map_or(content.len(), |n| section_pos + n);
-        let format_start = content[section_pos..section_end]
-            .find("Format:")
-            .unwrap_or(0)
-            + section_pos;
+        let format_start = section_lines(&content[header.start..], headers)
+            .into_iter()
+            .find(|(_, line)| line.trim_start().starts_with("Format:"))
+            .map_or(header.start, |(start, _)| header.start + start);
         match content[format_start..].find('\n') {
             Some(n) => self.insert(Position::new(format_start + n + 1), &format!("{line}\n")),
             None => self.insert(Position::new(content.len()), &format!("\n{line}\n")),
@@ -49,12 +49,10 @@ impl EditorDocument {
     /// Edit style line
     pub fn edit_style_line(&mut self, style_name: &str, new_style_line: &str) -> Result<()> {
         let content = self.text();
-        let pattern = format!("Style: {style_name},");
 
-        if let Some(pos) = content.find(&pattern) {
-            // Find end of line
-            let line_end = content[pos..].find('\n').map_or(content.len(), |n| pos + n);
-            let range = Range::new(Position::new(pos), Position::new(line_end));
+        if let Some(style) = find_style(&content, style_name) {
+            let line_end = style.start + style.line.len();
+            let range = TextRange::new(Position::new(style.start), Position::new(line_end));
             self.replace(range, new_style_line)
         } else {
             // Add style if it doesn't exist
@@ -65,15 +63,13 @@ impl EditorDocument {
     /// Add style line to document
     pub fn add_style_line(&mut self, style_line: &str) -> Result<()> {
         let content = self.text();
-        if let Some(styles_pos) = content
-            .find("[V4+ Styles]")
-            .or_else(|| content.find("[V4 Styles]"))
-        {
+        if let Some(header) = section_header(&content, STYLES) {
             // Find end of format line and add after it
-            self.insert_after_format_line(&content, styles_pos, style_line)
+            self.insert_after_format_line(&content, header, STYLES, style_line)
         } else {
             // Add Styles section if it doesn't exist
-            let script_info_end = content.find("\n[Events]").unwrap_or(content.len());
+            let script_info_end =
+                section_header(&content, EVENTS).map_or(content.len(), |header| header.start);
             let styles_section = format!("\n[V4+ Styles]\nFormat: Name, Fontname, Fontsize, PrimaryColour, SecondaryColour, OutlineColour, BackColour, Bold, Italic, Underline, StrikeOut, ScaleX, ScaleY, Spacing, Angle, BorderStyle, Outline, Shadow, Alignment, MarginL, MarginR, MarginV, Encoding\n{style_line}\n");
             self.insert(Position::new(script_info_end), &styles_section)
         }
diff --git a/crates/ass-editor/core/section_text.rs b/crates/ass-editor/core/section_text.rs
index 1aebe35..afa9c6e 100644
--- a/crates/ass-editor/core/section_text.rs
+++ b/crates/ass-editor/core/section_text.rs
@@ -69,3 +69,48 @@ pub(crate) fn line_fields(line: &str, key: &str, count: usize) -> Option<Vec<Ran
     }
     Some(ranges)
 }
+
+/// Line that defines a style
+pub(crate) struct StyleLine<'a> {
+    /// Offset of the line in the document
+    pub(crate) start: usize,
+    /// The line, without its line break
+    pub(crate) line: &'a str,
+    /// Column names of the format line before it
+    pub(crate) columns: Vec<&'a str>,
+    /// Ranges of the values in `line`, in the order of the columns
+    pub(crate) values: Vec<Range<usize>>,
+}
+
+impl StyleLine<'_> {
+    /// Place of the named column
+    pub(crate) fn column(&self, name: &str) -> Option<usize> {
+        self.columns.iter().position(|&column| column == name)
+    }
+}
+
+/// First style line whose name is `style_name`
+pub(crate) fn find_style<'a>(content: &'a str, style_name: &str) -> Option<StyleLine<'a>> {
+    let mut columns = Vec::new();
+    for (start, line) in section_lines(content, STYLES) {
+        if let Some(names) = line_fields(line, "Format", usize::MAX) {
+            columns = names.into_iter().map(|name| &line[name]).collect();
+        } else if let Some(mut values) = line_fields(line, "Style", usize::MAX) {
+            // A leading `*Parent` field names the parent style
+            if values.len() > 1 && line[values[0].clone()].starts_with('*') {
+                values.remove(0);
+            }
+            let name_column = columns.iter().position(|&column| column == "Name");
+            let name = values.get(name_column.unwrap_or(0)).cloned();
+            if name.is_some_and(|name| &line[name] == style_name.trim()) {
+                return Some(StyleLine {
+                    start,
+                    line,
+                    columns,
+                    values,
+                });
+            }
+        }
+    }
+    None
+}
-- 
2.43.0


From 021c907e14905a4fbcc7c548c80e1faf68a3489e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:06 +0000
Subject: [PATCH 69/73] fix: editing event text by search changes the text of
 an event only

---
 crates/ass-editor/core/document/ass_api.rs          |  6 +++---
 .../ass-editor/core/document/incremental_parse.rs   |  6 ++++--
 crates/ass-editor/core/section_text.rs              | 13 +++++++++++++
 3 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/crates/ass-editor/core/document/ass_api.rs b/crates/ass-editor/core/document/ass_api.rs
index c5e8774..24ef41a 100644
--- a/crates/ass-editor/core/document/ass_api.rs
+++ b/crates/ass-editor/core/document/ass_api.rs
@@ -7,7 +7,7 @@
 use super::EditorDocument;
 use crate::core::errors::Result;
 use crate::core::position::{Position, Range};
-use crate::core::section_text::{key_value, section_lines, SCRIPT_INFO};
+use crate::core::section_text::{find_event_text, key_value, section_lines, SCRIPT_INFO};
 use ass_core::parser::ast::Section;
 
 #[cfg(not(feature = "std"))]
@@ -107,8 +107,8 @@ impl EditorDocument {
     pub fn edit_event_text(&mut self, old_text: &str, new_text: &str) -> Result<()> {
         let content = self.text();
 
-        if let Some(pos) = content.find(old_text) {
-            let range = Range::new(Position::new(pos), Position::new(pos + old_text.len()));
+        if let Some(found) = find_event_text(&content, old_text) {
+            let range = Range::new(Position::new(found.start), Position::new(found.end));
             self.replace(range, new_text)?;
         }
 
diff --git a/crates/ass-editor/core/document/incremental_parse.rs b/crates/ass-editor/core/document/incremental_parse.rs
index 12e1720..27364de 100644
--- a/crates/ass-editor/core/document/incremental_parse.rs
+++ b/crates/ass-editor/core/document/incremental_parse.rs
@@ -13,6 +13,8 @@ use crate::core::errors::EditorError;
 #[cfg(feature = "stream")]
 use crate::core::position::Position;
 #[cfg(feature = "stream")]
+use crate::core::section_text::find_event_text;
+#[cfg(feature = "stream")]
 use ass_core::parser::script::ScriptDeltaOwned;
 #[cfg(feature = "stream")]
 use ass_core::parser::Script;
@@ -53,8 +55,8 @@ impl EditorDocument {
         new_text: &str,
     ) -> Result<ScriptDeltaOwned> {
         let content = self.text();
-        if let Some(pos) = content.find(event_text) {
-            let range = Range::new(Position::new(pos), Position::new(pos + event_text.len()));
+        if let Some(found) = find_event_text(&content, event_text) {
+            let range = Range::new(Position::new(found.start), Position::new(found.end));
             self.edit_incremental(range, new_text)
         } else {
             Err(EditorError::ValidationError {
diff --git a/crates/ass-editor/core/section_text.rs b/crates/ass-editor/core/section_text.rs
index afa9c6e..522f528 100644
--- a/crates/ass-editor/core/section_text.rs
+++ b/crates/ass-editor/core/section_text.rs
@@ -70,6 +70,19 @@ pub(crate) fn line_fields(line: &str, key: &str, count: usize) -> Option<Vec<Ran
     Some(ranges)
 }
 
+/// Range of the first occurrence of `pattern` in the text of an event
+pub(crate) fn find_event_text(content: &str, pattern: &str) -> Option<Range<usize>> {
+    section_lines(content, EVENTS)
+        .into_iter()
+        .find_map(|(start, line)| {
+            let fields =
+                line_fields(line, "Dialogue", 10).or_else(|| line_fields(line, "Comment", 10))?;
+            let text = start + fields.get(9)?.start;
+            let found = text + content[text..start + line.len()].find(pattern)?;
+            Some(found..found + pattern.len())
+        })
+}
+
 /// Line that defines a style
 pub(crate) struct StyleLine<'a> {
     /// Offset of the line in the document
-- 
2.43.0


From 4fee2ea0fd032cc46ddf18e78ece239bc7265582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:02 +0000
Subject: [PATCH 70/73] fix: adjusting karaoke does not close a block that the
 text leaves open

---
 crates/ass-editor/commands/karaoke_commands/adjust_impl.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/ass-editor/commands/karaoke_commands/adjust_impl.rs b/crates/ass-editor/commands/karaoke_commands/adjust_impl.rs
index 312fa61..794227d 100644
--- a/crates/ass-editor/commands/karaoke_commands/adjust_impl.rs
+++ b/crates/ass-editor/commands/karaoke_commands/adjust_impl.rs
@@ -67,6 +67,7 @@ impl AdjustKaraokeCommand {
                 // Found override block - extract content
                 let mut override_content = String::new();
                 let mut brace_count = 1;
+                let mut closed = false;
 
                 for inner_ch in chars.by_ref() {
                     if inner_ch == '{' {
@@ -74,6 +75,7 @@ impl AdjustKaraokeCommand {
                     } else if inner_ch == '}' {
                         brace_count -= 1;
                         if brace_count == 0 {
+                            closed = true;
                             break;
                         }
                     }
@@ -100,7 +102,9 @@ impl AdjustKaraokeCommand {
 
                 result.push('{');
                 result.push_str(&processed_content);
-                result.push('}');
+                if closed {
+                    result.push('}');
+                }
             } else {
                 result.push(ch);
             }
-- 
2.43.0


From 5f9351b99dff022e2e631a422606fed3e3a5d38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:01 +0000
Subject: [PATCH 71/73] fix: wrapping a range in tags is one edit, and a
 rejected one changes nothing

---
 crates/ass-editor/commands/tag_commands/wrap.rs | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/crates/ass-editor/commands/tag_commands/wrap.rs b/crates/ass-editor/commands/tag_commands/wrap.rs
index 5e10071..980060e 100644
--- a/crates/ass-editor/commands/tag_commands/wrap.rs
+++ b/crates/ass-editor/commands/tag_commands/wrap.rs
@@ -79,18 +79,12 @@ impl EditorCommand for WrapTagCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
         let closing_tag = self.get_closing_tag();
 
-        // Insert closing tag first (so positions don't shift)
-        let closing_formatted = format!("{{{closing_tag}}}");
-        document.insert(self.range.end, &closing_formatted)?;
+        // One edit, so that a rejected range changes nothing and one undo takes it back
+        let original_text = document.text_range(self.range)?;
+        let wrapped_text = format!("{{{}}}{original_text}{{{closing_tag}}}", self.opening_tag);
+        document.replace(self.range, &wrapped_text)?;
 
-        // Insert opening tag
-        let opening_formatted = format!("{{{}}}", self.opening_tag);
-        document.insert(self.range.start, &opening_formatted)?;
-
-        let total_length = opening_formatted.len()
-            + (self.range.end.offset - self.range.start.offset)
-            + closing_formatted.len();
-        let end_pos = Position::new(self.range.start.offset + total_length);
+        let end_pos = Position::new(self.range.start.offset + wrapped_text.len());
         let range = Range::new(self.range.start, end_pos);
 
         Ok(CommandResult::success_with_change(range, end_pos))
-- 
2.43.0


From 0ca34783fd6757f3766145273278e84c5294248e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:19 +0000
Subject: [PATCH 72/73] fix: wrapping text in a tag whose name begins with b,
 i, u or s closes that tag

---
 crates/ass-editor/commands/tag_commands/wrap.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/crates/ass-editor/commands/tag_commands/wrap.rs b/crates/ass-editor/commands/tag_commands/wrap.rs
index 980060e..65cf4c9 100644
--- a/crates/ass-editor/commands/tag_commands/wrap.rs
+++ b/crates/ass-editor/commands/tag_commands/wrap.rs
@@ -59,13 +59,19 @@ impl WrapTagCommand {
         // Auto-generate closing tag based on opening tag
         let tag = self.opening_tag.trim_start_matches('\\');
 
-        if tag.starts_with('b') {
+        // `\b` is bold, but `\blur` and `\bord` are not
+        let is_tag = |name: char| {
+            tag.strip_prefix(name)
+                .is_some_and(|rest| !rest.starts_with(|c: char| c.is_ascii_alphabetic()))
+        };
+
+        if is_tag('b') {
             "\\b0".to_string()
-        } else if tag.starts_with('i') {
+        } else if is_tag('i') {
             "\\i0".to_string()
-        } else if tag.starts_with('u') {
+        } else if is_tag('u') {
             "\\u0".to_string()
-        } else if tag.starts_with('s') {
+        } else if is_tag('s') {
             "\\s0".to_string()
         } else if tag.starts_with("c&") || tag.starts_with("1c&") {
             "\\c".to_string() // Reset to default color
-- 
2.43.0


From 757f50718d7942090bfcbff97a25566310867512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:32 +0000
Subject: [PATCH 73/73] fix: WebVTT line position of a cue with an extreme
 vertical margin overflowed

---
 crates/ass-editor/utils/formats/export_webvtt.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/ass-editor/utils/formats/export_webvtt.rs b/crates/ass-editor/utils/formats/export_webvtt.rs
index 33af485..7326d04 100644
--- a/crates/ass-editor/utils/formats/export_webvtt.rs
+++ b/crates/ass-editor/utils/formats/export_webvtt.rs
@@ -59,7 +59,8 @@ impl FormatConverter {
                                 // Parse margins as integers for positioning
                                 let margin_v: i32 = event.margin_v.parse().unwrap_or(0);
                                 if margin_v != 0 {
-                                    output.push_str(&format!(" line:{}", 100 - margin_v));
+                                    output
+                                        .push_str(&format!(" line:{}", 100 - i64::from(margin_v)));
                                 }
                             }
 
-- 
2.43.0

