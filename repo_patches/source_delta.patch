From d7553d1bb10f0500b57f68c457cb5b457930909f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:00 +0000
Subject: [PATCH 001/111] fix: at_or_next_codepoint_boundary from inside a
 codepoint

Moving forward from the middle of a codepoint used the continuation byte to
guess the codepoint's length, so the result could lie past the next boundary,
or inside the next codepoint.
---
 rust/rope/src/rope.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rust/rope/src/rope.rs b/rust/rope/src/rope.rs
index b678bb1..67179d6 100644
--- a/rust/rope/src/rope.rs
+++ b/rust/rope/src/rope.rs
@@ -422,7 +422,9 @@ impl Rope {
         if self.is_codepoint_boundary(offset) {
             Some(offset)
         } else {
-            self.next_codepoint_offset(offset)
+            // `offset` is inside a codepoint, which is not a valid position to
+            // move forward from; start from the beginning of that codepoint.
+            self.next_codepoint_offset(self.prev_codepoint_offset(offset)?)
         }
     }
 
-- 
2.43.0


From dc37e8ad8fc25f82253dc8ffc338d9f08eb8ed82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:31 +0000
Subject: [PATCH 002/111] fix: grapheme boundaries across rope leaves

The cursor was resumed over several leaves without keeping track of which leaf
is the current one, and GraphemeCursor itself gives up on an emoji sequence
spread over more than two chunks, so that clusters at a leaf edge were split
or joined depending on how the text happened to be stored.
---
 rust/rope/src/rope.rs | 73 +++++++++++++++++++++----------------------
 1 file changed, 35 insertions(+), 38 deletions(-)

diff --git a/rust/rope/src/rope.rs b/rust/rope/src/rope.rs
index 67179d6..b48e6b9 100644
--- a/rust/rope/src/rope.rs
+++ b/rust/rope/src/rope.rs
@@ -675,59 +675,56 @@ impl<'a> Cursor<'a, RopeInfo> {
     }
 
     pub fn next_grapheme(&mut self) -> Option<usize> {
-        let (mut l, mut offset) = self.get_leaf()?;
+        let (l, mut offset) = self.get_leaf()?;
         let mut pos = self.pos();
         while offset < l.len() && !l.is_char_boundary(offset) {
             pos -= 1;
             offset -= 1;
         }
-        let mut leaf_offset = pos - offset;
-        let mut c = GraphemeCursor::new(pos, self.total_len(), true);
-        let mut next_boundary = c.next_boundary(&l, leaf_offset);
-        while let Err(incomp) = next_boundary {
-            if let GraphemeIncomplete::PreContext(_) = incomp {
-                let (pl, poffset) = self.prev_leaf()?;
-                c.provide_context(&pl, self.pos() - poffset);
-            } else if incomp == GraphemeIncomplete::NextChunk {
-                self.set(pos);
-                let (nl, noffset) = self.next_leaf()?;
-                l = nl;
-                leaf_offset = self.pos() - noffset;
-                pos = leaf_offset + nl.len();
-            } else {
-                return None;
-            }
-            next_boundary = c.next_boundary(&l, leaf_offset);
-        }
-        next_boundary.unwrap_or(None)
+        self.grapheme_boundary(pos, |c, chunk, start| c.next_boundary(chunk, start))
     }
 
     pub fn prev_grapheme(&mut self) -> Option<usize> {
-        let (mut l, mut offset) = self.get_leaf()?;
+        let (l, mut offset) = self.get_leaf()?;
         let mut pos = self.pos();
         while offset < l.len() && !l.is_char_boundary(offset) {
             pos += 1;
             offset += 1;
         }
-        let mut leaf_offset = pos - offset;
-        let mut c = GraphemeCursor::new(pos, l.len() + leaf_offset, true);
-        let mut prev_boundary = c.prev_boundary(&l, leaf_offset);
-        while let Err(incomp) = prev_boundary {
-            if let GraphemeIncomplete::PreContext(_) = incomp {
-                let (pl, poffset) = self.prev_leaf()?;
-                c.provide_context(&pl, self.pos() - poffset);
-            } else if incomp == GraphemeIncomplete::PrevChunk {
-                self.set(pos);
-                let (pl, poffset) = self.prev_leaf()?;
-                l = pl;
-                leaf_offset = self.pos() - poffset;
-                pos = leaf_offset + pl.len();
-            } else {
-                return None;
+        self.grapheme_boundary(pos, |c, chunk, start| c.prev_boundary(chunk, start))
+    }
+
+    /// Runs `find` on the text around `pos`, which is the current leaf, and as
+    /// many of its neighbors as it takes to decide the boundary.
+    ///
+    /// The text is always given to `find` in one piece, with a new
+    /// `GraphemeCursor`: resuming one over several chunks doesn't find the
+    /// right boundary if a cluster is spread over more than two of them.
+    fn grapheme_boundary<F>(&self, pos: usize, find: F) -> Option<usize>
+    where
+        F: Fn(&mut GraphemeCursor, &str, usize) -> Result<Option<usize>, GraphemeIncomplete>,
+    {
+        let (l, offset) = self.get_leaf()?;
+        let mut start = self.pos() - offset;
+        let mut chunk = Cow::from(l.as_str());
+        loop {
+            let mut c = GraphemeCursor::new(pos, self.total_len(), true);
+            match find(&mut c, &chunk, start) {
+                Ok(boundary) => return boundary,
+                Err(GraphemeIncomplete::NextChunk) => {
+                    let next_cursor = Cursor::new(self.root(), start + chunk.len());
+                    let (next, _) = next_cursor.get_leaf()?;
+                    chunk = Cow::from(chunk.into_owned() + next);
+                }
+                Err(GraphemeIncomplete::PreContext(_)) | Err(GraphemeIncomplete::PrevChunk) => {
+                    let mut prev_cursor = Cursor::new(self.root(), start);
+                    let (prev, _) = prev_cursor.prev_leaf()?;
+                    start -= prev.len();
+                    chunk = Cow::from(prev.clone() + &chunk);
+                }
+                Err(GraphemeIncomplete::InvalidOffset) => return None,
             }
-            prev_boundary = c.prev_boundary(&l, leaf_offset);
         }
-        prev_boundary.unwrap_or(None)
     }
 }
 
-- 
2.43.0


From 1e9519e1df7daa19193b6d1ef99c047456bd3d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:36 +0000
Subject: [PATCH 003/111] fix: offsets of inserted and deleted regions of a
 delta

Iterating the regions of a delta advanced the old-text offset by the length
of inserted text, so replacements and consecutive inserts were reported at
wrong offsets of the base.
---
 rust/rope/src/delta.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/rust/rope/src/delta.rs b/rust/rope/src/delta.rs
index a904217..21c67ff 100644
--- a/rust/rope/src/delta.rs
+++ b/rust/rope/src/delta.rs
@@ -654,7 +654,6 @@ impl<'a, N: NodeInfo> Iterator for InsertsIter<'a, N> {
                 DeltaElement::Insert(ref n) => {
                     result = Some(DeltaRegion::new(self.last_end, self.pos, n.len()));
                     self.pos += n.len();
-                    self.last_end += n.len();
                     break;
                 }
             }
@@ -689,7 +688,6 @@ impl<'a, N: NodeInfo> Iterator for DeletionsIter<'a, N> {
                 }
                 DeltaElement::Insert(ref n) => {
                     self.pos += n.len();
-                    self.last_end += n.len();
                 }
             }
         }
-- 
2.43.0


From 53037018c74ce9c189ec16009f3c0e40a5398a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:23 +0000
Subject: [PATCH 004/111] fix: gc of an undo group that follows a retained one

Dropping a revision whose inserts stay in the document left the revisions
before it with subsets of the wrong length, so a later undo reaching them
panicked. Expand them by the text that is kept.
---
 rust/rope/src/engine.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/rust/rope/src/engine.rs b/rust/rope/src/engine.rs
index 14ab7da..6ae156a 100644
--- a/rust/rope/src/engine.rs
+++ b/rust/rope/src/engine.rs
@@ -606,6 +606,9 @@ impl Engine {
             self.tombstones = dels_from_tombstones.delete_from(&self.tombstones);
             self.deletes_from_union = self.deletes_from_union.transform_shrink(&gc_dels);
         }
+        // The inserts of dropped revisions that stay in the document. The revisions
+        // before them have to be expanded as if that text had always been there.
+        let mut kept_inserts = Subset::new(self.deletes_from_union.len());
         let old_revs = std::mem::replace(&mut self.revs, Vec::new());
         for rev in old_revs.into_iter().rev() {
             match rev.edit {
@@ -615,17 +618,22 @@ impl Engine {
                     } else {
                         Some(gc_dels.transform_shrink(&inserts))
                     };
+                    let (inserts, deletes) = if gc_dels.is_empty() {
+                        (inserts, deletes)
+                    } else {
+                        (inserts.transform_shrink(&gc_dels), deletes.transform_shrink(&gc_dels))
+                    };
                     if retain_revs.contains(&rev.rev_id) || !gc_groups.contains(&undo_group) {
-                        let (inserts, deletes) = if gc_dels.is_empty() {
-                            (inserts, deletes)
-                        } else {
-                            (inserts.transform_shrink(&gc_dels), deletes.transform_shrink(&gc_dels))
-                        };
+                        let inserts = inserts.transform_expand(&kept_inserts);
+                        let deletes = deletes.transform_expand(&kept_inserts);
+                        kept_inserts = kept_inserts.transform_shrink(&inserts);
                         self.revs.push(Revision {
                             rev_id: rev.rev_id,
                             max_undo_so_far: rev.max_undo_so_far,
                             edit: Edit { priority, undo_group, inserts, deletes },
                         });
+                    } else {
+                        kept_inserts = inserts.transform_union(&kept_inserts);
                     }
                     if let Some(new_gc_dels) = new_gc_dels {
                         gc_dels = new_gc_dels;
-- 
2.43.0


From 011fb295a1db21bce36b171494c2bb8344f0f45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:38 +0000
Subject: [PATCH 005/111] fix: merge ordered concurrent inserts of different
 peers wrongly

Consecutive revisions of equal priority were combined into one transform even
when they came from different sessions, which are ordered by session, so three
or more peers could diverge.
---
 rust/rope/src/engine.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rust/rope/src/engine.rs b/rust/rope/src/engine.rs
index 6ae156a..9eb73a2 100644
--- a/rust/rope/src/engine.rs
+++ b/rust/rope/src/engine.rs
@@ -870,18 +870,18 @@ fn compute_deltas(
 /// as opposed to thousands of revisions.
 fn compute_transforms(revs: Vec<Revision>) -> Vec<(FullPriority, Subset)> {
     let mut out = Vec::new();
-    let mut last_priority: Option<usize> = None;
+    let mut last_priority: Option<FullPriority> = None;
     for r in revs {
         if let Contents::Edit { priority, inserts, .. } = r.edit {
             if inserts.is_empty() {
                 continue;
             }
-            if Some(priority) == last_priority {
+            let prio = FullPriority { priority, session_id: r.rev_id.session_id() };
+            if Some(prio) == last_priority {
                 let last: &mut (FullPriority, Subset) = out.last_mut().unwrap();
                 last.1 = last.1.transform_union(&inserts);
             } else {
-                last_priority = Some(priority);
-                let prio = FullPriority { priority, session_id: r.rev_id.session_id() };
+                last_priority = Some(prio);
                 out.push((prio, inserts));
             }
         }
-- 
2.43.0


From a9245faadf8fcae3959c755f1f6373e7b521939a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:23 +0000
Subject: [PATCH 006/111] fix: backwards rope comparison stops inside a
 codepoint

---
 rust/rope/src/compare.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/rope/src/compare.rs b/rust/rope/src/compare.rs
index 36da4b9..fc38331 100644
--- a/rust/rope/src/compare.rs
+++ b/rust/rope/src/compare.rs
@@ -248,7 +248,7 @@ impl<'a> RopeScanner<'a> {
                 ne_idx_rev(self.base_chunk.as_bytes(), self.target_chunk.as_bytes())
             {
                 // find nearest codepoint boundary
-                while idx > 1 && !self.base_chunk.is_char_boundary(self.base_chunk.len() - idx) {
+                while idx > 0 && !self.base_chunk.is_char_boundary(self.base_chunk.len() - idx) {
                     idx -= 1;
                 }
                 return stop.min(self.scanned + idx);
-- 
2.43.0


From 020fc4e2c6143434d2bbe8226556df490597dcc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:37 +0000
Subject: [PATCH 007/111] fix: vectorised byte comparison reads past the end of
 its slices

---
 rust/rope/src/compare.rs | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/rust/rope/src/compare.rs b/rust/rope/src/compare.rs
index fc38331..d99b3ca 100644
--- a/rust/rope/src/compare.rs
+++ b/rust/rope/src/compare.rs
@@ -104,20 +104,19 @@ pub fn ne_idx_rev(one: &[u8], two: &[u8]) -> Option<usize> {
 pub unsafe fn ne_idx_avx(one: &[u8], two: &[u8]) -> Option<usize> {
     let min_len = one.len().min(two.len());
     let mut idx = 0;
-    while idx < min_len {
-        let stride_len = AVX_STRIDE.min(min_len - idx);
+    // only full strides are loaded; a load of the tail would read past the end
+    // of the slices.
+    while idx + AVX_STRIDE <= min_len {
         let mask = avx_compare_mask(
-            &one.get_unchecked(idx..idx + stride_len),
-            &two.get_unchecked(idx..idx + stride_len),
+            &one.get_unchecked(idx..idx + AVX_STRIDE),
+            &two.get_unchecked(idx..idx + AVX_STRIDE),
         );
-        // at the end of the slice the mask might include garbage bytes, so
-        // we ignore matches that are OOB
-        if mask != 0 && idx + (mask.trailing_zeros() as usize) < min_len {
+        if mask != 0 {
             return Some(idx + mask.trailing_zeros() as usize);
         }
         idx += AVX_STRIDE;
     }
-    None
+    ne_idx_fallback(&one[idx..min_len], &two[idx..min_len]).map(|i| idx + i)
 }
 
 #[doc(hidden)]
@@ -126,18 +125,19 @@ pub unsafe fn ne_idx_avx(one: &[u8], two: &[u8]) -> Option<usize> {
 pub unsafe fn ne_idx_sse(one: &[u8], two: &[u8]) -> Option<usize> {
     let min_len = one.len().min(two.len());
     let mut idx = 0;
-    while idx < min_len {
-        let stride_len = SSE_STRIDE.min(min_len - idx);
+    // only full strides are loaded; a load of the tail would read past the end
+    // of the slices.
+    while idx + SSE_STRIDE <= min_len {
         let mask = sse_compare_mask(
-            &one.get_unchecked(idx..idx + stride_len),
-            &two.get_unchecked(idx..idx + stride_len),
+            &one.get_unchecked(idx..idx + SSE_STRIDE),
+            &two.get_unchecked(idx..idx + SSE_STRIDE),
         );
-        if mask != 0 && idx + (mask.trailing_zeros() as usize) < min_len {
+        if mask != 0 {
             return Some(idx + mask.trailing_zeros() as usize);
         }
         idx += SSE_STRIDE;
     }
-    None
+    ne_idx_fallback(&one[idx..min_len], &two[idx..min_len]).map(|i| idx + i)
 }
 
 #[doc(hidden)]
-- 
2.43.0


From 392042cc05cdd34475837c6935cb80d25bcd9491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:37 +0000
Subject: [PATCH 008/111] fix: diff copies overlapping or out of order regions
 of the base

---
 rust/rope/src/diff.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/rust/rope/src/diff.rs b/rust/rope/src/diff.rs
index cead72e..a5feecf 100644
--- a/rust/rope/src/diff.rs
+++ b/rust/rope/src/diff.rs
@@ -113,22 +113,27 @@ impl Diff<RopeInfo> for LineHashDiff {
         // for each matching region, we extend it forwards and backwards.
         // we keep track of how far forward we extend it each time, to avoid
         // having a subsequent scan extend backwards over the same region.
+        // copied regions must not overlap in the base either.
         let mut prev_end = start_offset;
+        let mut prev_base_end = start_offset;
+        let base_end = base.len() - diff_end;
 
         for (targ_off, base_off) in longest_subseq {
-            if targ_off <= prev_end {
+            if targ_off <= prev_end || base_off < prev_base_end || base_off >= base_end {
                 continue;
             }
+            let max_left = (targ_off - prev_end).min(base_off - prev_base_end);
             let (left_dist, mut right_dist) =
-                expand_match(base, target, base_off, targ_off, prev_end);
+                expand_match(base, target, base_off, targ_off, max_left);
 
-            // don't let last match expand past target_end
-            right_dist = right_dist.min(target_end - targ_off);
+            // don't let last match expand into the common suffix
+            right_dist = right_dist.min(target_end - targ_off).min(base_end - base_off);
 
             let targ_start = targ_off - left_dist;
             let base_start = base_off - left_dist;
             let len = left_dist + right_dist;
             prev_end = targ_start + len;
+            prev_base_end = base_start + len;
 
             builder.copy(base_start, targ_start, len);
         }
@@ -152,10 +157,9 @@ fn expand_match(
     target: &Rope,
     base_off: usize,
     targ_off: usize,
-    prev_match_targ_end: usize,
+    max_left: usize,
 ) -> (usize, usize) {
     let mut scanner = RopeScanner::new(base, target);
-    let max_left = targ_off - prev_match_targ_end;
     let start = scanner.find_ne_char_back(base_off, targ_off, max_left);
     debug_assert!(start <= max_left, "{} <= {}", start, max_left);
     let end = scanner.find_ne_char(base_off, targ_off, None);
-- 
2.43.0


From fc414aa820a84edc53b4e15cb0724978528d46ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:37 +0000
Subject: [PATCH 009/111] fix: case-insensitive search for patterns with
 non-ASCII capitals

---
 rust/rope/src/find.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rust/rope/src/find.rs b/rust/rope/src/find.rs
index b5862ac..318f271 100644
--- a/rust/rope/src/find.rs
+++ b/rust/rope/src/find.rs
@@ -119,7 +119,8 @@ pub fn find_progress(
                     find_progress_iter(cursor, lines, pat, scanner, matcher, num_steps)
                 }
                 CaseMatching::CaseInsensitive => {
-                    let pat_lower = pat.to_lowercase();
+                    // lowercase each codepoint on its own, as the matcher does
+                    let pat_lower: String = pat.chars().flat_map(char::to_lowercase).collect();
                     let b = pat_lower.as_bytes()[0];
                     let matcher = compare_cursor_str_casei;
                     if b == b'i' {
@@ -137,7 +138,7 @@ pub fn find_progress(
                         let scanner = |s: &str| memchr(b, s.as_bytes());
                         find_progress_iter(cursor, lines, &pat_lower, scanner, matcher, num_steps)
                     } else {
-                        let c = pat.chars().next().unwrap();
+                        let c = pat_lower.chars().next().unwrap();
                         let scanner = |s: &str| scan_lowercase(c, s);
                         find_progress_iter(cursor, lines, &pat_lower, scanner, matcher, num_steps)
                     }
-- 
2.43.0


From a2d17ba20376c05ead7e2dab595c8b8d2290878e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:44 +0000
Subject: [PATCH 010/111] fix: line breaking forgets its context after a second
 space

---
 rust/unicode/src/tables.rs      | 86 ++++++++++++++++-----------------
 rust/unicode/tools/mk_tables.py |  7 ++-
 2 files changed, 49 insertions(+), 44 deletions(-)

diff --git a/rust/unicode/src/tables.rs b/rust/unicode/src/tables.rs
index fc3087d..12c826d 100644
--- a/rust/unicode/src/tables.rs
+++ b/rust/unicode/src/tables.rs
@@ -1340,175 +1340,175 @@ pub const LINEBREAK_STATE_MACHINE: [u8; 3827] = [
     162, 163, 36, 37, 166, 167, 168, 169, 45,
     // state 46: SP+ XX
     128, 129, 130, 131, 132, 133, 6, 135, 8, 137, 10, 11, 140, 141, 142, 143,
-    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 26, 27, 28, 29, 30, 159,
+    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 46, 27, 28, 29, 30, 159,
     160, 161, 162, 163, 36, 165, 166, 167, 168, 169, 170,
     // state 47: SP+ AI
     128, 129, 130, 131, 132, 133, 6, 135, 8, 137, 10, 11, 140, 141, 142, 143,
-    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 26, 27, 28, 29, 30, 159,
+    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 47, 27, 28, 29, 30, 159,
     160, 161, 162, 163, 36, 165, 166, 167, 168, 169, 170,
     // state 48: SP+ AL
     128, 129, 130, 131, 132, 133, 6, 135, 8, 137, 10, 11, 140, 141, 142, 143,
-    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 26, 27, 28, 29, 30, 159,
+    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 48, 27, 28, 29, 30, 159,
     160, 161, 162, 163, 36, 165, 166, 167, 168, 169, 170,
     // state 49: SP+ B2
     128, 129, 130, 3, 132, 133, 6, 135, 8, 137, 10, 11, 140, 141, 142, 143, 16,
-    17, 146, 147, 148, 149, 150, 151, 152, 153, 26, 27, 28, 29, 30, 159, 160,
+    17, 146, 147, 148, 149, 150, 151, 152, 153, 49, 27, 28, 29, 30, 159, 160,
     161, 162, 163, 36, 165, 166, 167, 168, 169, 170,
     // state 50: SP+ BA
     128, 129, 130, 131, 132, 133, 6, 135, 8, 137, 10, 11, 140, 141, 142, 143,
-    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 26, 27, 28, 29, 30, 159,
+    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 50, 27, 28, 29, 30, 159,
     160, 161, 162, 163, 36, 165, 166, 167, 168, 169, 170,
     // state 51: SP+ BB
     128, 129, 130, 131, 132, 133, 6, 135, 8, 137, 10, 11, 140, 141, 142, 143,
-    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 26, 27, 28, 29, 30, 159,
+    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 51, 27, 28, 29, 30, 159,
     160, 161, 162, 163, 36, 165, 166, 167, 168, 169, 170,
     // state 52: SP+ BK
     128, 129, 130, 131, 132, 133, 6, 135, 8, 130, 10, 11, 140, 141, 142, 143,
-    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 26, 27, 28, 29, 30, 159,
+    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 52, 27, 28, 29, 30, 159,
     160, 161, 162, 163, 36, 165, 166, 167, 168, 169, 130,
     // state 53: SP+ CB
     128, 129, 130, 131, 132, 133, 6, 135, 8, 137, 10, 11, 140, 141, 142, 143,
-    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 26, 27, 28, 29, 30, 159,
+    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 53, 27, 28, 29, 30, 159,
     160, 161, 162, 163, 36, 165, 166, 167, 168, 169, 170,
     // state 54: SP+ CL
     128, 129, 130, 131, 132, 133, 6, 135, 8, 137, 10, 11, 140, 141, 142, 143,
-    16, 17, 18, 147, 148, 149, 150, 151, 152, 153, 26, 27, 28, 29, 30, 159, 160,
+    16, 17, 18, 147, 148, 149, 150, 151, 152, 153, 54, 27, 28, 29, 30, 159, 160,
     161, 162, 163, 36, 37, 166, 167, 168, 169, 170,
     // state 55: SP+ CM
     128, 129, 130, 131, 132, 133, 6, 135, 8, 137, 10, 11, 140, 141, 142, 143,
-    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 26, 27, 28, 29, 30, 159,
+    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 55, 27, 28, 29, 30, 159,
     160, 161, 162, 163, 36, 165, 166, 167, 168, 169, 170,
     // state 56: SP+ CR
     128, 129, 130, 131, 132, 133, 6, 135, 8, 130, 10, 11, 140, 141, 142, 143,
-    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 26, 27, 28, 29, 30, 159,
+    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 56, 27, 28, 29, 30, 159,
     160, 161, 162, 163, 36, 165, 166, 167, 168, 169, 130,
     // state 57: SP+ EX
     128, 129, 130, 131, 132, 133, 6, 135, 8, 137, 10, 11, 140, 141, 142, 143,
-    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 26, 27, 28, 29, 30, 159,
+    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 57, 27, 28, 29, 30, 159,
     160, 161, 162, 163, 36, 165, 166, 167, 168, 169, 170,
     // state 58: SP+ GL
     128, 129, 130, 131, 132, 133, 6, 135, 8, 137, 10, 11, 140, 141, 142, 143,
-    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 26, 27, 28, 29, 30, 159,
+    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 58, 27, 28, 29, 30, 159,
     160, 161, 162, 163, 36, 165, 166, 167, 168, 169, 170,
     // state 59: SP+ HY
     128, 129, 130, 131, 132, 133, 6, 135, 8, 137, 10, 11, 140, 141, 142, 143,
-    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 26, 27, 28, 29, 30, 159,
+    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 59, 27, 28, 29, 30, 159,
     160, 161, 162, 163, 36, 165, 166, 167, 168, 169, 170,
     // state 60: SP+ ID
     128, 129, 130, 131, 132, 133, 6, 135, 8, 137, 10, 11, 140, 141, 142, 143,
-    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 26, 27, 28, 29, 30, 159,
+    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 60, 27, 28, 29, 30, 159,
     160, 161, 162, 163, 36, 165, 166, 167, 168, 169, 170,
     // state 61: SP+ IN
     128, 129, 130, 131, 132, 133, 6, 135, 8, 137, 10, 11, 140, 141, 142, 143,
-    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 26, 27, 28, 29, 30, 159,
+    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 61, 27, 28, 29, 30, 159,
     160, 161, 162, 163, 36, 165, 166, 167, 168, 169, 170,
     // state 62: SP+ IS
     128, 129, 130, 131, 132, 133, 6, 135, 8, 137, 10, 11, 140, 141, 142, 143,
-    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 26, 27, 28, 29, 30, 159,
+    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 62, 27, 28, 29, 30, 159,
     160, 161, 162, 163, 36, 165, 166, 167, 168, 169, 170,
     // state 63: SP+ LF
     128, 129, 130, 131, 132, 133, 6, 135, 8, 130, 10, 11, 140, 141, 142, 143,
-    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 26, 27, 28, 29, 30, 159,
+    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 63, 27, 28, 29, 30, 159,
     160, 161, 162, 163, 36, 165, 166, 167, 168, 169, 130,
     // state 64: SP+ NS
     128, 129, 130, 131, 132, 133, 6, 135, 8, 137, 10, 11, 140, 141, 142, 143,
-    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 26, 27, 28, 29, 30, 159,
+    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 64, 27, 28, 29, 30, 159,
     160, 161, 162, 163, 36, 165, 166, 167, 168, 169, 170,
     // state 65: SP+ NU
     128, 129, 130, 131, 132, 133, 6, 135, 8, 137, 10, 11, 140, 141, 142, 143,
-    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 26, 27, 28, 29, 30, 159,
+    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 65, 27, 28, 29, 30, 159,
     160, 161, 162, 163, 36, 165, 166, 167, 168, 169, 170,
     // state 66: SP+ OP
     0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20,
-    21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39,
+    21, 22, 23, 24, 25, 66, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39,
     40, 41, 42,
     // state 67: SP+ PO
     128, 129, 130, 131, 132, 133, 6, 135, 8, 137, 10, 11, 140, 141, 142, 143,
-    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 26, 27, 28, 29, 30, 159,
+    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 67, 27, 28, 29, 30, 159,
     160, 161, 162, 163, 36, 165, 166, 167, 168, 169, 170,
     // state 68: SP+ PR
     128, 129, 130, 131, 132, 133, 6, 135, 8, 137, 10, 11, 140, 141, 142, 143,
-    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 26, 27, 28, 29, 30, 159,
+    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 68, 27, 28, 29, 30, 159,
     160, 161, 162, 163, 36, 165, 166, 167, 168, 169, 170,
     // state 69: SP+ QU
     128, 129, 130, 131, 132, 133, 6, 135, 8, 137, 10, 11, 140, 141, 142, 143,
-    16, 17, 146, 147, 20, 149, 150, 151, 152, 153, 26, 27, 28, 29, 30, 159, 160,
+    16, 17, 146, 147, 20, 149, 150, 151, 152, 153, 69, 27, 28, 29, 30, 159, 160,
     161, 162, 163, 36, 165, 166, 167, 168, 169, 170,
     // state 70: SP+ SA
     128, 129, 130, 131, 132, 133, 6, 135, 8, 137, 10, 11, 140, 141, 142, 143,
-    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 26, 27, 28, 29, 30, 159,
+    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 70, 27, 28, 29, 30, 159,
     160, 161, 162, 163, 36, 165, 166, 167, 168, 169, 170,
     // state 71: SP+ SG
     128, 129, 130, 131, 132, 133, 6, 135, 8, 137, 10, 11, 140, 141, 142, 143,
-    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 26, 27, 28, 29, 30, 159,
+    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 71, 27, 28, 29, 30, 159,
     160, 161, 162, 163, 36, 165, 166, 167, 168, 169, 170,
     // state 72: SP+ SP
     128, 129, 130, 131, 132, 133, 6, 135, 8, 130, 10, 11, 140, 141, 142, 143,
-    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 26, 27, 28, 29, 30, 159,
+    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 72, 27, 28, 29, 30, 159,
     160, 161, 162, 163, 36, 165, 166, 167, 168, 169, 130,
     // state 73: SP+ SY
     128, 129, 130, 131, 132, 133, 6, 135, 8, 137, 10, 11, 140, 141, 142, 143,
-    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 26, 27, 28, 29, 30, 159,
+    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 73, 27, 28, 29, 30, 159,
     160, 161, 162, 163, 36, 165, 166, 167, 168, 169, 170,
     // state 74: SP+ ZW
     128, 129, 130, 131, 132, 133, 6, 135, 136, 130, 10, 139, 140, 141, 142, 143,
-    144, 17, 146, 147, 148, 149, 150, 151, 152, 153, 26, 155, 28, 29, 158, 159,
+    144, 17, 146, 147, 148, 149, 150, 151, 152, 153, 74, 155, 28, 29, 158, 159,
     160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 130,
     // state 75: SP+ NL
     128, 129, 130, 131, 132, 133, 6, 135, 8, 130, 10, 11, 140, 141, 142, 143,
-    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 26, 27, 28, 29, 30, 159,
+    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 75, 27, 28, 29, 30, 159,
     160, 161, 162, 163, 36, 165, 166, 167, 168, 169, 130,
     // state 76: SP+ WJ
     128, 129, 130, 131, 132, 133, 6, 135, 8, 137, 10, 11, 140, 141, 142, 143,
-    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 26, 27, 28, 29, 30, 159,
+    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 76, 27, 28, 29, 30, 159,
     160, 161, 162, 163, 36, 165, 166, 167, 168, 169, 170,
     // state 77: SP+ H2
     128, 129, 130, 131, 132, 133, 6, 135, 8, 137, 10, 11, 140, 141, 142, 143,
-    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 26, 27, 28, 29, 30, 159,
+    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 77, 27, 28, 29, 30, 159,
     160, 161, 162, 163, 36, 165, 166, 167, 168, 169, 170,
     // state 78: SP+ H3
     128, 129, 130, 131, 132, 133, 6, 135, 8, 137, 10, 11, 140, 141, 142, 143,
-    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 26, 27, 28, 29, 30, 159,
+    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 78, 27, 28, 29, 30, 159,
     160, 161, 162, 163, 36, 165, 166, 167, 168, 169, 170,
     // state 79: SP+ JL
     128, 129, 130, 131, 132, 133, 6, 135, 8, 137, 10, 11, 140, 141, 142, 143,
-    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 26, 27, 28, 29, 30, 159,
+    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 79, 27, 28, 29, 30, 159,
     160, 161, 162, 163, 36, 165, 166, 167, 168, 169, 170,
     // state 80: SP+ JT
     128, 129, 130, 131, 132, 133, 6, 135, 8, 137, 10, 11, 140, 141, 142, 143,
-    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 26, 27, 28, 29, 30, 159,
+    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 80, 27, 28, 29, 30, 159,
     160, 161, 162, 163, 36, 165, 166, 167, 168, 169, 170,
     // state 81: SP+ JV
     128, 129, 130, 131, 132, 133, 6, 135, 8, 137, 10, 11, 140, 141, 142, 143,
-    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 26, 27, 28, 29, 30, 159,
+    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 81, 27, 28, 29, 30, 159,
     160, 161, 162, 163, 36, 165, 166, 167, 168, 169, 170,
     // state 82: SP+ CP
     128, 129, 130, 131, 132, 133, 6, 135, 8, 137, 10, 11, 140, 141, 142, 143,
-    16, 17, 18, 147, 148, 149, 150, 151, 152, 153, 26, 27, 28, 29, 30, 159, 160,
+    16, 17, 18, 147, 148, 149, 150, 151, 152, 153, 82, 27, 28, 29, 30, 159, 160,
     161, 162, 163, 36, 37, 166, 167, 168, 169, 170,
     // state 83: SP+ CJ
     128, 129, 130, 131, 132, 133, 6, 135, 8, 137, 10, 11, 140, 141, 142, 143,
-    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 26, 27, 28, 29, 30, 159,
+    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 83, 27, 28, 29, 30, 159,
     160, 161, 162, 163, 36, 165, 166, 167, 168, 169, 170,
     // state 84: SP+ HL
     128, 129, 130, 131, 132, 133, 6, 135, 8, 137, 10, 11, 140, 141, 142, 143,
-    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 26, 27, 28, 29, 30, 159,
+    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 84, 27, 28, 29, 30, 159,
     160, 161, 162, 163, 36, 165, 166, 167, 168, 169, 170,
     // state 85: SP+ RI
     128, 129, 130, 131, 132, 133, 6, 135, 8, 137, 10, 11, 140, 141, 142, 143,
-    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 26, 27, 28, 29, 30, 159,
+    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 85, 27, 28, 29, 30, 159,
     160, 161, 162, 163, 36, 165, 166, 167, 168, 169, 170,
     // state 86: SP+ EB
     128, 129, 130, 131, 132, 133, 6, 135, 8, 137, 10, 11, 140, 141, 142, 143,
-    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 26, 27, 28, 29, 30, 159,
+    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 86, 27, 28, 29, 30, 159,
     160, 161, 162, 163, 36, 165, 166, 167, 168, 169, 170,
     // state 87: SP+ EM
     128, 129, 130, 131, 132, 133, 6, 135, 8, 137, 10, 11, 140, 141, 142, 143,
-    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 26, 27, 28, 29, 30, 159,
+    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 87, 27, 28, 29, 30, 159,
     160, 161, 162, 163, 36, 165, 166, 167, 168, 169, 170,
     // state 88: SP+ ZWJ
     128, 129, 130, 131, 132, 133, 6, 135, 8, 137, 10, 11, 140, 141, 142, 143,
-    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 26, 27, 28, 29, 30, 159,
+    16, 17, 146, 147, 148, 149, 150, 151, 152, 153, 88, 27, 28, 29, 30, 159,
     160, 161, 162, 163, 36, 165, 166, 167, 168, 169, 170,
 ];
 
diff --git a/rust/unicode/tools/mk_tables.py b/rust/unicode/tools/mk_tables.py
index fe6b614..02279f4 100644
--- a/rust/unicode/tools/mk_tables.py
+++ b/rust/unicode/tools/mk_tables.py
@@ -388,7 +388,12 @@ def mk_lb_rules():
                 # SP+ states
                 bk = ts[L + '|' + R]
                 flags = bk_to_flags[bk]
-                sm[left + n + nspecial][right] = flags + r_with_cm
+                if flags == 0 and R == 'SP':
+                    # further spaces don't change the context
+                    state = left + n + nspecial
+                else:
+                    state = flags + r_with_cm
+                sm[left + n + nspecial][right] = state
     nunique = len(set(str(line) for line in sm))
     print '//', nunique, 'unique states'
     print 'pub const N_LINEBREAK_CATEGORIES: usize = %d;' % n
-- 
2.43.0


From c048bcb9c2f68d092c3ea0137fb5562c067aa48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:54 +0000
Subject: [PATCH 011/111] fix: line break between a flag and a no-break space

---
 rust/unicode/src/tables.rs      | 2 +-
 rust/unicode/tools/mk_tables.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/unicode/src/tables.rs b/rust/unicode/src/tables.rs
index 12c826d..681e848 100644
--- a/rust/unicode/src/tables.rs
+++ b/rust/unicode/src/tables.rs
@@ -1335,7 +1335,7 @@ pub const LINEBREAK_STATE_MACHINE: [u8; 3827] = [
     21, 22, 23, 24, 25, 44, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39,
     40, 41, 44,
     // state 45: RI+RI
-    128, 129, 130, 131, 4, 133, 6, 135, 8, 45, 10, 11, 140, 13, 142, 143, 16,
+    128, 129, 130, 131, 4, 133, 6, 135, 8, 45, 10, 11, 12, 13, 142, 143, 16,
     17, 18, 147, 148, 149, 150, 23, 152, 153, 45, 27, 28, 29, 30, 159, 160, 161,
     162, 163, 36, 37, 166, 167, 168, 169, 45,
     // state 46: SP+ XX
diff --git a/rust/unicode/tools/mk_tables.py b/rust/unicode/tools/mk_tables.py
index 02279f4..5659a1c 100644
--- a/rust/unicode/tools/mk_tables.py
+++ b/rust/unicode/tools/mk_tables.py
@@ -212,7 +212,7 @@ def mk_lb_rules():
     update(t, 'GL', Any, 'x')
 
     # LB12:
-    excl = set(linebreak_assignments) - set(('SP', 'BA', 'HY'))
+    excl = set(Any) - set(('SP', 'BA', 'HY', 'HL+BA', 'HL+HY'))
     update(t, excl, 'GL', 'x')
 
     # LB13:
-- 
2.43.0


From ceae7154bedbe6211e7b2034337d0d8d75b8215b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:32 +0000
Subject: [PATCH 012/111] fix: line break between a zero width joiner and an
 emoji

---
 rust/unicode/src/lib.rs | 36 +++++++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/rust/unicode/src/lib.rs b/rust/unicode/src/lib.rs
index 96eb7f5..a59d4ee 100644
--- a/rust/unicode/src/lib.rs
+++ b/rust/unicode/src/lib.rs
@@ -69,6 +69,25 @@ pub fn linebreak_property_str(s: &str, ix: usize) -> (u8, usize) {
     }
 }
 
+// Line break classes involved in LB8a
+const LB_ID: u8 = 14;
+const LB_EB: u8 = 40;
+const LB_EM: u8 = 41;
+const LB_ZWJ: u8 = 42;
+
+/// Returns the entry of the state machine for a character of class `lb`.
+///
+/// The state is that of the character a zero width joiner is attached to (LB9),
+/// hence LB8a (never break between a joiner and an emoji) is applied here.
+fn next_state(state: u8, after_zwj: bool, lb: u8) -> u8 {
+    let new = LINEBREAK_STATE_MACHINE[(state as usize) * N_LINEBREAK_CATEGORIES + (lb as usize)];
+    if after_zwj && (lb == LB_ID || lb == LB_EB || lb == LB_EM) {
+        lb
+    } else {
+        new
+    }
+}
+
 /// An iterator which produces line breaks according to the UAX 14 line
 /// breaking algorithm. For each break, return a tuple consisting of the offset
 /// within the source string and a bool indicating whether it's a hard break.
@@ -82,6 +101,7 @@ pub struct LineBreakIterator<'a> {
     s: &'a str,
     ix: usize,
     state: u8,
+    after_zwj: bool,
 }
 
 impl<'a> Iterator for LineBreakIterator<'a> {
@@ -103,8 +123,8 @@ impl<'a> Iterator for LineBreakIterator<'a> {
                 }
                 Ordering::Less => {
                     let (lb, len) = linebreak_property_str(self.s, self.ix);
-                    let i = (self.state as usize) * N_LINEBREAK_CATEGORIES + (lb as usize);
-                    let new = LINEBREAK_STATE_MACHINE[i];
+                    let new = next_state(self.state, self.after_zwj, lb);
+                    self.after_zwj = lb == LB_ZWJ;
                     //println!("{:?}[{}], state {} + lb {} -> {}", &self.s[self.ix..], self.ix, self.state, lb, new);
                     let result = self.ix;
                     self.ix += len;
@@ -129,10 +149,11 @@ impl<'a> LineBreakIterator<'a> {
                 s,
                 ix: 1, // LB2, don't break; sot takes priority for empty string
                 state: 0,
+                after_zwj: false,
             }
         } else {
             let (lb, len) = linebreak_property_str(s, 0);
-            LineBreakIterator { s, ix: len, state: lb }
+            LineBreakIterator { s, ix: len, state: lb, after_zwj: lb == LB_ZWJ }
         }
     }
 }
@@ -149,13 +170,14 @@ impl<'a> LineBreakIterator<'a> {
 pub struct LineBreakLeafIter {
     ix: usize,
     state: u8,
+    after_zwj: bool,
 }
 
 impl Default for LineBreakLeafIter {
     // A default value. No guarantees on what happens when next() is called
     // on this. Intended to be useful for empty ropes.
     fn default() -> LineBreakLeafIter {
-        LineBreakLeafIter { ix: 0, state: 0 }
+        LineBreakLeafIter { ix: 0, state: 0, after_zwj: false }
     }
 }
 
@@ -164,7 +186,7 @@ impl LineBreakLeafIter {
     /// Precondition: ix is at a code point boundary within s.
     pub fn new(s: &str, ix: usize) -> LineBreakLeafIter {
         let (lb, len) = if ix == s.len() { (0, 0) } else { linebreak_property_str(s, ix) };
-        LineBreakLeafIter { ix: ix + len, state: lb }
+        LineBreakLeafIter { ix: ix + len, state: lb, after_zwj: lb == LB_ZWJ }
     }
 
     /// Return break pos and whether it's a hard break. Note: hard break
@@ -184,8 +206,8 @@ impl LineBreakLeafIter {
                 return (s.len(), false);
             }
             let (lb, len) = linebreak_property_str(s, self.ix);
-            let i = (self.state as usize) * N_LINEBREAK_CATEGORIES + (lb as usize);
-            let new = LINEBREAK_STATE_MACHINE[i];
+            let new = next_state(self.state, self.after_zwj, lb);
+            self.after_zwj = lb == LB_ZWJ;
             //println!("\"{}\"[{}], state {} + lb {} -> {}", &s[self.ix..], self.ix, self.state, lb, new);
             let result = self.ix;
             self.ix += len;
-- 
2.43.0


From 1c7d02baba3280a0522bd2d2dd1193d3b779e6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:29 +0000
Subject: [PATCH 013/111] fix: no line break after a space which follows a
 hyphenated Hebrew letter or a flag

---
 rust/unicode/src/tables.rs      | 6 +++---
 rust/unicode/tools/mk_tables.py | 3 ++-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/rust/unicode/src/tables.rs b/rust/unicode/src/tables.rs
index 681e848..c33ee45 100644
--- a/rust/unicode/src/tables.rs
+++ b/rust/unicode/src/tables.rs
@@ -1328,15 +1328,15 @@ pub const LINEBREAK_STATE_MACHINE: [u8; 3827] = [
     38, 167, 40, 41, 2,
     // state 43: HL+HY
     0, 1, 2, 3, 4, 5, 6, 135, 8, 43, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20,
-    21, 22, 23, 24, 25, 43, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39,
+    21, 22, 23, 24, 25, 59, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39,
     40, 41, 43,
     // state 44: HL+BA
     0, 1, 2, 3, 4, 5, 6, 135, 8, 44, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20,
-    21, 22, 23, 24, 25, 44, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39,
+    21, 22, 23, 24, 25, 50, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39,
     40, 41, 44,
     // state 45: RI+RI
     128, 129, 130, 131, 4, 133, 6, 135, 8, 45, 10, 11, 12, 13, 142, 143, 16,
-    17, 18, 147, 148, 149, 150, 23, 152, 153, 45, 27, 28, 29, 30, 159, 160, 161,
+    17, 18, 147, 148, 149, 150, 23, 152, 153, 85, 27, 28, 29, 30, 159, 160, 161,
     162, 163, 36, 37, 166, 167, 168, 169, 45,
     // state 46: SP+ XX
     128, 129, 130, 131, 132, 133, 6, 135, 8, 137, 10, 11, 140, 141, 142, 143,
diff --git a/rust/unicode/tools/mk_tables.py b/rust/unicode/tools/mk_tables.py
index 5659a1c..e34faa1 100644
--- a/rust/unicode/tools/mk_tables.py
+++ b/rust/unicode/tools/mk_tables.py
@@ -366,7 +366,8 @@ def mk_lb_rules():
                 if left < n:
                     state = left + n + nspecial
                 else:
-                    state = left
+                    base = Any[left].split('+')[-1]
+                    state = linebreak_assignments.index(base) + n + nspecial
             elif flags == 0 and L == 'HL' and R == 'HY':
                 # special state for LB21a
                 state = n
-- 
2.43.0


From c35647f586795e968872f52083e8b1d804c9dbf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:58 +0000
Subject: [PATCH 014/111] fix: a response whose id is not an unsigned integer
 ended the reader thread

---
 rust/rpc/src/lib.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rust/rpc/src/lib.rs b/rust/rpc/src/lib.rs
index 14d79bd..b135deb 100644
--- a/rust/rpc/src/lib.rs
+++ b/rust/rpc/src/lib.rs
@@ -281,7 +281,13 @@ impl<W: Write + Send> RpcLoop<W> {
                         }
                     };
                     if json.is_response() {
-                        let id = json.get_id().unwrap();
+                        let id = match json.get_id() {
+                            Some(id) => id,
+                            None => {
+                                error!("ignoring response with invalid id");
+                                continue;
+                            }
+                        };
                         let _resp =
                             trace_block_payload("read loop response", &["rpc"], format!("{}", id));
                         match json.into_response() {
-- 
2.43.0


From f487fd522d86ac66e3e776c3ecc570f10b833764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:28 +0000
Subject: [PATCH 015/111] fix: deadlock when the handler of a failed request
 makes a request

---
 rust/rpc/src/lib.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/rust/rpc/src/lib.rs b/rust/rpc/src/lib.rs
index b135deb..def5787 100644
--- a/rust/rpc/src/lib.rs
+++ b/rust/rpc/src/lib.rs
@@ -42,6 +42,7 @@ pub mod test_utils;
 use std::cmp;
 use std::collections::{BTreeMap, BinaryHeap, VecDeque};
 use std::io::{self, BufRead, Write};
+use std::mem;
 use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
 use std::sync::mpsc;
 use std::sync::{Arc, Condvar, Mutex};
@@ -480,8 +481,9 @@ impl<W: Write> RawPeer<W> {
             "method": method,
             "params": params,
         })) {
-            let mut pending = self.0.pending.lock().unwrap();
-            if let Some(rh) = pending.remove(&id) {
+            // the lock must not be held while the handler runs: it may send a request
+            let handler = self.0.pending.lock().unwrap().remove(&id);
+            if let Some(rh) = handler {
                 rh.invoke(Err(Error::Io(e)));
             }
         }
@@ -547,13 +549,15 @@ impl<W: Write> RawPeer<W> {
 
     /// send disconnect error to pending requests.
     fn disconnect(&self) {
-        let mut pending = self.0.pending.lock().unwrap();
-        let ids = pending.keys().cloned().collect::<Vec<_>>();
-        for id in &ids {
-            let callback = pending.remove(id).unwrap();
-            callback.invoke(Err(Error::PeerDisconnect));
+        let handlers = {
+            let mut pending = self.0.pending.lock().unwrap();
+            self.0.needs_exit.store(true, Ordering::Relaxed);
+            mem::replace(&mut *pending, BTreeMap::new())
+        };
+        // the lock must not be held while a handler runs: it may send a request
+        for (_, handler) in handlers {
+            handler.invoke(Err(Error::PeerDisconnect));
         }
-        self.0.needs_exit.store(true, Ordering::Relaxed);
     }
 
     /// Returns `true` if an error has occured in the main thread.
-- 
2.43.0


From b215678bb47189cb56b5fda0bbda902cc19834c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:13 +0000
Subject: [PATCH 016/111] fix: requests made after the end of the input were
 never answered

---
 rust/rpc/src/lib.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/rust/rpc/src/lib.rs b/rust/rpc/src/lib.rs
index def5787..f3a70d2 100644
--- a/rust/rpc/src/lib.rs
+++ b/rust/rpc/src/lib.rs
@@ -200,7 +200,6 @@ struct RpcState<W: Write> {
     idle_queue: Mutex<VecDeque<usize>>,
     timers: Mutex<BinaryHeap<Timer>>,
     needs_exit: AtomicBool,
-    is_blocked: AtomicBool,
 }
 
 /// A structure holding the state of a main loop for handling RPC's.
@@ -222,7 +221,6 @@ impl<W: Write + Send> RpcLoop<W> {
             idle_queue: Mutex::new(VecDeque::new()),
             timers: Mutex::new(BinaryHeap::new()),
             needs_exit: AtomicBool::new(false),
-            is_blocked: AtomicBool::new(false),
         }));
         RpcLoop { reader: MessageReader::default(), peer: rpc_peer }
     }
@@ -273,10 +271,9 @@ impl<W: Write + Send> RpcLoop<W> {
                     let json = match self.reader.next(&mut stream) {
                         Ok(json) => json,
                         Err(err) => {
-                            if self.peer.0.is_blocked.load(Ordering::Acquire) {
-                                error!("failed to parse response json: {}", err);
-                                self.peer.disconnect();
-                            }
+                            // nothing will be answered any more; the main thread
+                            // may be waiting for a response
+                            self.peer.disconnect();
                             self.peer.put_rx(Err(err));
                             break;
                         }
@@ -430,7 +427,6 @@ impl<W: Write + Send + 'static> Peer for RawPeer<W> {
 
     fn send_rpc_request(&self, method: &str, params: &Value) -> Result<Value, Error> {
         let _trace = trace_block_payload("send req sync", &["rpc"], method.to_owned());
-        self.0.is_blocked.store(true, Ordering::Release);
         let (tx, rx) = mpsc::channel();
         self.send_rpc_request_common(method, params, ResponseHandler::Chan(tx));
         rx.recv().unwrap_or(Err(Error::PeerDisconnect))
@@ -474,6 +470,12 @@ impl<W: Write> RawPeer<W> {
         let id = self.0.id.fetch_add(1, Ordering::Relaxed);
         {
             let mut pending = self.0.pending.lock().unwrap();
+            if self.needs_exit() {
+                // there is nobody to answer
+                drop(pending);
+                rh.invoke(Err(Error::PeerDisconnect));
+                return;
+            }
             pending.insert(id, rh);
         }
         if let Err(e) = self.send(&json!({
-- 
2.43.0


From 6ca2d931a5fbfaa2a85a91bcb6dc386f288d0697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:46 +0000
Subject: [PATCH 017/111] fix: Trace::save saved the samples of the global
 trace

---
 rust/trace/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rust/trace/src/lib.rs b/rust/trace/src/lib.rs
index cea84e6..d9aa68e 100644
--- a/rust/trace/src/lib.rs
+++ b/rust/trace/src/lib.rs
@@ -817,7 +817,8 @@ impl Trace {
         path: P,
         sort: bool,
     ) -> Result<(), chrome_trace_dump::Error> {
-        let traces = if sort { samples_cloned_sorted() } else { samples_cloned_unsorted() };
+        let traces =
+            if sort { self.samples_cloned_sorted() } else { self.samples_cloned_unsorted() };
         let path: &Path = path.as_ref();
 
         if path.exists() {
-- 
2.43.0


From 7f0825ca83e2af14a1fbaf5748fa55b46a7f64f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:53 +0000
Subject: [PATCH 018/111] fix: reading a trace with an unknown event type
 panicked

---
 rust/trace/src/lib.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/rust/trace/src/lib.rs b/rust/trace/src/lib.rs
index d9aa68e..8b3d81b 100644
--- a/rust/trace/src/lib.rs
+++ b/rust/trace/src/lib.rs
@@ -273,8 +273,8 @@ impl SampleEventType {
     }
 
     #[inline]
-    fn from_chrome_id(symbol: char) -> Self {
-        match symbol {
+    fn from_chrome_id(symbol: char) -> Result<Self, String> {
+        Ok(match symbol {
             'B' => SampleEventType::DurationBegin,
             'E' => SampleEventType::DurationEnd,
             'X' => SampleEventType::CompleteDuration,
@@ -289,8 +289,8 @@ impl SampleEventType {
             'O' => SampleEventType::ObjectSnapshot,
             'D' => SampleEventType::ObjectDestroyed,
             'M' => SampleEventType::Metadata,
-            _ => panic!("Unexpected chrome sample type '{}'", symbol),
-        }
+            _ => return Err(format!("Unexpected chrome sample type '{}'", symbol)),
+        })
     }
 }
 
@@ -376,7 +376,8 @@ fn deserialize_event_type<'de, D>(d: D) -> Result<SampleEventType, D::Error>
 where
     D: serde::Deserializer<'de>,
 {
-    serde::Deserialize::deserialize(d).map(SampleEventType::from_chrome_id)
+    let symbol = serde::Deserialize::deserialize(d)?;
+    SampleEventType::from_chrome_id(symbol).map_err(serde::de::Error::custom)
 }
 
 /// Stores the relevant data about a sample for later serialization.
-- 
2.43.0


From dab1d96fb69553237f33b5f0e1d40ae3a1084646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:54 +0000
Subject: [PATCH 019/111] fix: a plugin's malformed trace crashed the core when
 traces were saved

---
 rust/core-lib/src/tabs.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rust/core-lib/src/tabs.rs b/rust/core-lib/src/tabs.rs
index 85bed50..b9930a7 100644
--- a/rust/core-lib/src/tabs.rs
+++ b/rust/core-lib/src/tabs.rs
@@ -894,10 +894,10 @@ impl CoreState {
 
         for plugin in &self.running_plugins {
             match plugin.collect_trace() {
-                Ok(json) => {
-                    let mut trace = chrome_trace_dump::decode(json).unwrap();
-                    all_traces.append(&mut trace);
-                }
+                Ok(json) => match chrome_trace_dump::decode(json) {
+                    Ok(mut trace) => all_traces.append(&mut trace),
+                    Err(e) => error!("trace error {:?}", e),
+                },
                 Err(e) => error!("trace error {:?}", e),
             }
         }
-- 
2.43.0


From 8b42e7cc069d04f0fe46437a56d189d5b420a349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:20 +0000
Subject: [PATCH 020/111] hook: RpcCtx for an arbitrary peer, under cfg(xi_mon)

---
 rust/rpc/src/lib.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/rust/rpc/src/lib.rs b/rust/rpc/src/lib.rs
index f3a70d2..abbe82a 100644
--- a/rust/rpc/src/lib.rs
+++ b/rust/rpc/src/lib.rs
@@ -394,6 +394,15 @@ fn do_idle<H: Handler>(handler: &mut H, ctx: &RpcCtx, token: usize) {
     handler.idle(ctx, token);
 }
 
+#[cfg(xi_mon)]
+impl RpcCtx {
+    /// Monitoring hook: a context for an arbitrary peer, so that a handler can
+    /// be driven without a run loop.
+    pub fn for_peer(peer: RpcPeer) -> RpcCtx {
+        RpcCtx { peer }
+    }
+}
+
 impl RpcCtx {
     pub fn get_peer(&self) -> &RpcPeer {
         &self.peer
-- 
2.43.0


From 0e85a8e371d623598b6f94d7a6e2c313fe146d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:02 +0000
Subject: [PATCH 021/111] fix: an update that removes the cursors of a line
 must say so

---
 rust/core-lib/src/view.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rust/core-lib/src/view.rs b/rust/core-lib/src/view.rs
index 24283d2..9216029 100644
--- a/rust/core-lib/src/view.rs
+++ b/rust/core-lib/src/view.rs
@@ -680,7 +680,9 @@ impl View {
                 style_spans
             ));
         }
-        if !cursors.is_empty() {
+        // a line without text updates an existing line, where a missing property
+        // means "unchanged"; removing the cursors needs an empty list.
+        if text.is_none() || !cursors.is_empty() {
             result["cursor"] = json!(cursors);
         }
         if let Some(line_num) = line.line_num {
-- 
2.43.0


From a648cac8af7e54e4f7f823535d8bdd657368a809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:00 +0000
Subject: [PATCH 022/111] fix: a regex or whole-word search could hang or panic

---
 rust/core-lib/src/find.rs | 47 ++++++++++++++++++++++-----------------
 rust/rope/src/find.rs     |  6 ++++-
 2 files changed, 31 insertions(+), 22 deletions(-)

diff --git a/rust/core-lib/src/find.rs b/rust/core-lib/src/find.rs
index ae9e712..230ace3 100644
--- a/rust/core-lib/src/find.rs
+++ b/rust/core-lib/src/find.rs
@@ -281,21 +281,20 @@ impl Find {
             let end = find_cursor.pos();
 
             if self.whole_words && !self.is_matching_whole_words(text, start, end) {
-                raw_lines = text.lines_raw(find_cursor.pos()..to);
-                continue;
-            }
-
-            let region = SelRegion::new(start, end);
-            let (_, e) = self.occurrences.add_range_distinct(region);
-            // in case of ambiguous search results (e.g. search "aba" in "ababa"),
-            // the search result closer to the beginning of the file wins
-            if e != end {
-                // Skip the search result and keep the occurrence that is closer to
-                // the beginning of the file. Re-align the cursor to the kept
-                // occurrence
-                find_cursor.set(e);
-                raw_lines = text.lines_raw(find_cursor.pos()..to);
-                continue;
+                // not a result, the search continues after it
+            } else {
+                let region = SelRegion::new(start, end);
+                let (_, e) = self.occurrences.add_range_distinct(region);
+                // in case of ambiguous search results (e.g. search "aba" in "ababa"),
+                // the search result closer to the beginning of the file wins
+                if e != end {
+                    // Skip the search result and keep the occurrence that is closer to
+                    // the beginning of the file. Re-align the cursor to the kept
+                    // occurrence
+                    find_cursor.set(e);
+                    raw_lines = text.lines_raw(find_cursor.pos()..to);
+                    continue;
+                }
             }
 
             // in case current cursor matches search result (for example query a* matches)
@@ -305,10 +304,9 @@ impl Find {
             if start == end {
                 // determine whether end of text is reached and stop search or increase
                 // cursor manually
-                if end + 1 >= text.len() {
-                    break;
-                } else {
-                    find_cursor.set(end + 1);
+                match text.next_codepoint_offset(end) {
+                    Some(next) if next < text.len() => find_cursor.set(next),
+                    _ => break,
                 }
             }
 
@@ -389,8 +387,15 @@ impl Find {
 
     /// Checks if the start and end of a match is matching whole words.
     fn is_matching_whole_words(&self, text: &Rope, start: usize, end: usize) -> bool {
-        let mut word_end_cursor = WordCursor::new(text, end - 1);
-        let mut word_start_cursor = WordCursor::new(text, start + 1);
+        // a word has at least one codepoint
+        if start == end {
+            return false;
+        }
+
+        let last = text.prev_codepoint_offset(end).unwrap_or(start);
+        let after_first = text.next_codepoint_offset(start).unwrap_or(end);
+        let mut word_end_cursor = WordCursor::new(text, last);
+        let mut word_start_cursor = WordCursor::new(text, after_first);
 
         if let Some(start_boundary) = word_start_cursor.prev_boundary() {
             if start_boundary != start {
diff --git a/rust/rope/src/find.rs b/rust/rope/src/find.rs
index 318f271..5aa9341 100644
--- a/rust/rope/src/find.rs
+++ b/rust/rope/src/find.rs
@@ -294,7 +294,11 @@ pub fn compare_cursor_regex(
     } else {
         match lines.next() {
             Some(line) => text = line,
-            _ => return None,
+            _ => {
+                // the lines to search are exhausted: there is nothing left to find
+                cursor.set(cursor.total_len());
+                return None;
+            }
         }
     }
 
-- 
2.43.0


From 3067c2c441d592830bdd14800d605a76b7cc7ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:00 +0000
Subject: [PATCH 023/111] fix: a cursor after the final newline was also shown
 on the line before

---
 rust/core-lib/src/view.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/rust/core-lib/src/view.rs b/rust/core-lib/src/view.rs
index 9216029..970a2e5 100644
--- a/rust/core-lib/src/view.rs
+++ b/rust/core-lib/src/view.rs
@@ -622,7 +622,7 @@ impl View {
         line: VisualLine,
         text: Option<&Rope>,
         style_spans: Option<&Spans<Style>>,
-        last_pos: usize,
+        last_line_start: usize,
     ) -> Value {
         let start_pos = line.interval.start;
         let pos = line.interval.end;
@@ -635,7 +635,7 @@ impl View {
             if (c > start_pos && c < pos)
                 || (!region.is_upstream() && c == start_pos)
                 || (region.is_upstream() && c == pos)
-                || (c == pos && c == last_pos)
+                || (c == pos && start_pos == last_line_start)
             {
                 cursors.push(c - start_pos);
             }
@@ -794,6 +794,7 @@ impl View {
         let mut b = line_cache_shadow::Builder::new();
         let mut ops = Vec::new();
         let mut line_num = 0; // tracks old line cache
+        let last_line_start = self.offset_of_line(text, self.line_of_offset(text, text.len()));
 
         for seg in self.lc_shadow.iter_with_plan(plan) {
             match seg.tactic {
@@ -843,7 +844,7 @@ impl View {
                                         l,
                                         /* text = */ None,
                                         /* style_spans = */ None,
-                                        text.len(),
+                                        last_line_start,
                                     )
                                 })
                                 .collect::<Vec<_>>();
@@ -871,7 +872,7 @@ impl View {
                                         l,
                                         Some(text),
                                         Some(style_spans),
-                                        text.len(),
+                                        last_line_start,
                                     )
                                 })
                                 .collect::<Vec<_>>();
-- 
2.43.0


From 455ed4e2a5b74660abd8a7e197e990a6adb50840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:00 +0000
Subject: [PATCH 024/111] fix: a window of no lines crashed the core at the
 next cursor motion

---
 rust/core-lib/src/view.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rust/core-lib/src/view.rs b/rust/core-lib/src/view.rs
index 970a2e5..b4147cf 100644
--- a/rust/core-lib/src/view.rs
+++ b/rust/core-lib/src/view.rs
@@ -330,7 +330,7 @@ impl View {
         let first = max(first, 0) as usize;
         let last = max(last, 0) as usize;
         self.first_line = first;
-        self.height = last - first;
+        self.height = last.saturating_sub(first);
     }
 
     pub fn scroll_height(&self) -> usize {
@@ -343,7 +343,8 @@ impl View {
         if line < self.first_line {
             self.first_line = line;
         } else if self.first_line + self.height <= line {
-            self.first_line = line - (self.height - 1);
+            // a window without lines can not show the cursor either
+            self.first_line = line - self.height.saturating_sub(1);
         }
         // We somewhat arbitrarily choose the last region for setting the old-style
         // selection state, and for scrolling it into view if needed. This choice can
-- 
2.43.0


From a06a19c0fd9f1fb270025cdea518da6247c594bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:16 +0000
Subject: [PATCH 025/111] fix: capitalize panicked on a non-ASCII word or on
 two regions in one word

---
 rust/core-lib/src/edit_ops.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rust/core-lib/src/edit_ops.rs b/rust/core-lib/src/edit_ops.rs
index 075695a..28b8674 100644
--- a/rust/core-lib/src/edit_ops.rs
+++ b/rust/core-lib/src/edit_ops.rs
@@ -381,6 +381,7 @@ pub fn change_number<F: Fn(i128) -> Option<i128>>(
 pub fn capitalize_text(base: &Rope, regions: &[SelRegion]) -> (RopeDelta, Selection) {
     let mut builder = DeltaBuilder::new(base.len());
     let mut final_selection = Selection::new();
+    let mut last = 0;
 
     for &region in regions {
         final_selection.add_region(SelRegion::new(region.max(), region.max()));
@@ -390,14 +391,17 @@ pub fn capitalize_text(base: &Rope, regions: &[SelRegion]) -> (RopeDelta, Select
             // capitalize each word in the current selection
             let (start, end) = word_cursor.select_word();
 
-            if start < end {
+            // a word may be part of several regions
+            if start < end && start >= last {
                 let interval = Interval::new(start, end);
                 let word = base.slice_to_cow(start..end);
 
                 // first letter is uppercase, remaining letters are lowercase
-                let (first_char, rest) = word.split_at(1);
+                let first_len = word.chars().next().map_or(0, char::len_utf8);
+                let (first_char, rest) = word.split_at(first_len);
                 let capitalized_text = [first_char.to_uppercase(), rest.to_lowercase()].concat();
                 builder.replace(interval, Rope::from(capitalized_text));
+                last = end;
             }
 
             if word_cursor.next_boundary().is_none() || end > region.max() {
-- 
2.43.0


From cb7fb9e749d70929ca3688f8c2f047e81c7e2bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:16 +0000
Subject: [PATCH 026/111] fix: changing a number panicked with two carets in
 the number

---
 rust/core-lib/src/edit_ops.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rust/core-lib/src/edit_ops.rs b/rust/core-lib/src/edit_ops.rs
index 28b8674..76b4e34 100644
--- a/rust/core-lib/src/edit_ops.rs
+++ b/rust/core-lib/src/edit_ops.rs
@@ -358,6 +358,7 @@ pub fn change_number<F: Fn(i128) -> Option<i128>>(
     transform_function: F,
 ) -> RopeDelta {
     let mut builder = DeltaBuilder::new(base.len());
+    let mut last = 0;
     for region in regions {
         let mut cursor = WordCursor::new(base, region.end);
         let (mut start, end) = cursor.select_word();
@@ -367,10 +368,16 @@ pub fn change_number<F: Fn(i128) -> Option<i128>>(
             start -= 1;
         }
 
+        // several regions may be at the same number
+        if start < last {
+            continue;
+        }
+
         let word = base.slice_to_cow(start..end);
         if let Some(number) = word.parse::<i128>().ok().and_then(&transform_function) {
             let interval = Interval::new(start, end);
             builder.replace(interval, Rope::from(number.to_string()));
+            last = end;
         }
     }
 
-- 
2.43.0


From 7a361c7e64532ef58814b771974155b605066854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:16 +0000
Subject: [PATCH 027/111] fix: backspace panicked when the deletions of two
 carets overlap

---
 rust/core-lib/src/edit_ops.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rust/core-lib/src/edit_ops.rs b/rust/core-lib/src/edit_ops.rs
index 76b4e34..cb3894f 100644
--- a/rust/core-lib/src/edit_ops.rs
+++ b/rust/core-lib/src/edit_ops.rs
@@ -112,11 +112,13 @@ pub fn delete_backward(base: &Rope, regions: &[SelRegion], config: &BufferItems)
     // TODO: this function is workable but probably overall code complexity
     // could be improved by implementing a "backspace" movement instead.
     let mut builder = DeltaBuilder::new(base.len());
+    let mut last = 0;
     for region in regions {
-        let start = offset_for_delete_backwards(&region, base, &config);
+        let start = offset_for_delete_backwards(&region, base, &config).max(last);
         let iv = Interval::new(start, region.max());
         if !iv.is_empty() {
             builder.delete(iv);
+            last = region.max();
         }
     }
 
-- 
2.43.0


From 1223f8cb311723e403897c8dcde72f6705943664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:16 +0000
Subject: [PATCH 028/111] fix: duplicating the last line added an empty line if
 it ended in a newline

---
 rust/core-lib/src/edit_ops.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/core-lib/src/edit_ops.rs b/rust/core-lib/src/edit_ops.rs
index cb3894f..60464b9 100644
--- a/rust/core-lib/src/edit_ops.rs
+++ b/rust/core-lib/src/edit_ops.rs
@@ -98,8 +98,8 @@ pub fn duplicate_line(base: &Rope, regions: &[SelRegion], config: &BufferItems)
         let iv = Interval::new(start, start);
         builder.replace(iv, base.slice(start..end));
 
-        // last line does not have new line character so it needs to be manually added
-        if end == base.len() {
+        // if the last line does not have a new line character it needs to be manually added
+        if end == base.len() && base.byte_at(end - 1) != b'\n' {
             builder.replace(iv, Rope::from(&config.line_ending))
         }
     }
-- 
2.43.0


From b6881553d17162f002dc31a97734868735593270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:46 +0000
Subject: [PATCH 029/111] fix: transpose panicked at multi-byte characters and
 next to selections

---
 rust/core-lib/src/edit_ops.rs | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/rust/core-lib/src/edit_ops.rs b/rust/core-lib/src/edit_ops.rs
index 60464b9..eb3a8e2 100644
--- a/rust/core-lib/src/edit_ops.rs
+++ b/rust/core-lib/src/edit_ops.rs
@@ -291,7 +291,7 @@ pub fn transpose(base: &Rope, regions: &[SelRegion]) -> RopeDelta {
     let mut optional_previous_selection: Option<(Interval, Rope)> =
         last_selection_region(regions).map(|&region| sel_region_to_interval_and_rope(base, region));
 
-    for &region in regions {
+    for (i, &region) in regions.iter().enumerate() {
         if region.is_caret() {
             let mut middle = region.end;
             let mut start = base.prev_grapheme_offset(middle).unwrap_or(0);
@@ -304,21 +304,29 @@ pub fn transpose(base: &Rope, regions: &[SelRegion]) -> RopeDelta {
                     LogicalLines.offset_of_line(base, LogicalLines.line_of_offset(base, end));
                 // include end != base.len() because if the editor is entirely empty, we dont' want to pull from empty space
                 if (end == middle || end == end_line_offset) && end != base.len() {
+                    end = middle;
                     middle = start;
                     start = base.prev_grapheme_offset(middle).unwrap_or(0);
-                    end = middle.wrapping_add(1);
                 }
 
-                let interval = Interval::new(start, end);
-                let before = base.slice_to_cow(start..middle);
-                let after = base.slice_to_cow(middle..end);
-                let swapped: String = [after, before].concat();
-                builder.replace(interval, Rope::from(swapped));
-                last = end;
+                // leave alone what another region changes
+                let limit = regions
+                    .get(i + 1)
+                    .filter(|next| !next.is_caret())
+                    .map_or(base.len(), |next| next.min());
+                if start >= last && end <= limit {
+                    let interval = Interval::new(start, end);
+                    let before = base.slice_to_cow(start..middle);
+                    let after = base.slice_to_cow(middle..end);
+                    let swapped: String = [after, before].concat();
+                    builder.replace(interval, Rope::from(swapped));
+                    last = end;
+                }
             }
         } else if let Some(previous_selection) = optional_previous_selection {
             let current_interval = sel_region_to_interval_and_rope(base, region);
             builder.replace(current_interval.0, previous_selection.1);
+            last = current_interval.0.end();
             optional_previous_selection = Some(current_interval);
         }
     }
-- 
2.43.0


From 19c4215c4357b7cd39bcf95eca2e0a5b53bdff6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:46 +0000
Subject: [PATCH 030/111] fix: tab panicked or indented twice when two regions
 share a line

---
 rust/core-lib/src/edit_ops.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/rust/core-lib/src/edit_ops.rs b/rust/core-lib/src/edit_ops.rs
index eb3a8e2..0b4ee9f 100644
--- a/rust/core-lib/src/edit_ops.rs
+++ b/rust/core-lib/src/edit_ops.rs
@@ -208,6 +208,8 @@ pub fn insert_newline(base: &Rope, regions: &[SelRegion], config: &BufferItems)
 pub fn insert_tab(base: &Rope, regions: &[SelRegion], config: &BufferItems) -> RopeDelta {
     let mut builder = DeltaBuilder::new(base.len());
     let const_tab_text = get_tab_text(config, None);
+    // sorted, as a line to indent may start before another region on that line
+    let mut replacements = BTreeSet::new();
 
     for region in regions {
         let line_range = LogicalLines.get_line_range(base, region);
@@ -215,8 +217,7 @@ pub fn insert_tab(base: &Rope, regions: &[SelRegion], config: &BufferItems) -> R
         if line_range.len() > 1 {
             for line in line_range {
                 let offset = LogicalLines.line_col_to_offset(base, line, 0);
-                let iv = Interval::new(offset, offset);
-                builder.replace(iv, Rope::from(const_tab_text));
+                replacements.insert((offset, offset, const_tab_text));
             }
         } else {
             let (_, col) = LogicalLines.offset_to_line_col(base, region.start);
@@ -224,11 +225,14 @@ pub fn insert_tab(base: &Rope, regions: &[SelRegion], config: &BufferItems) -> R
             tab_size = tab_size - (col % tab_size);
             let tab_text = get_tab_text(config, Some(tab_size));
 
-            let iv = Interval::new(region.min(), region.max());
-            builder.replace(iv, Rope::from(tab_text));
+            replacements.insert((region.min(), region.max(), tab_text));
         }
     }
 
+    for (start, end, tab_text) in replacements {
+        builder.replace(Interval::new(start, end), Rope::from(tab_text));
+    }
+
     builder.build()
 }
 
-- 
2.43.0


From 2bcfff14a06dc30d6fd15006ae775ab6674faa3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:22 +0000
Subject: [PATCH 031/111] fix: a request for no lines made an empty update op,
 a reversed or negative one a panic

---
 rust/core-lib/src/event_context.rs     | 2 +-
 rust/core-lib/src/line_cache_shadow.rs | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/rust/core-lib/src/event_context.rs b/rust/core-lib/src/event_context.rs
index 55df61a..a8a6465 100644
--- a/rust/core-lib/src/event_context.rs
+++ b/rust/core-lib/src/event_context.rs
@@ -170,7 +170,7 @@ impl<'a> EventContext<'a> {
                 ed.get_layers().debug_print_spans(iv);
             }),
             SpecialEvent::RequestLines(LineRange { first, last }) => {
-                self.do_request_lines(first as usize, last as usize)
+                self.do_request_lines(first.max(0) as usize, last.max(0) as usize)
             }
             SpecialEvent::RequestHover { request_id, position } => {
                 self.do_request_hover(request_id, position)
diff --git a/rust/core-lib/src/line_cache_shadow.rs b/rust/core-lib/src/line_cache_shadow.rs
index 3bbdf4f..8198ac6 100644
--- a/rust/core-lib/src/line_cache_shadow.rs
+++ b/rust/core-lib/src/line_cache_shadow.rs
@@ -280,6 +280,9 @@ impl RenderPlan {
 
     /// Upgrade a range of lines to the "Render" tactic.
     pub fn request_lines(&mut self, start: usize, end: usize) {
+        if start >= end {
+            return;
+        }
         let mut spans: Vec<(usize, RenderTactic)> = Vec::new();
         let mut i = 0;
         let mut line_num = 0;
-- 
2.43.0


From 5630c2dfbcf8624761e534e24cbe49c0885725f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:00 +0000
Subject: [PATCH 032/111] fix: zero-length search results next to others
 panicked

---
 rust/core-lib/src/selection.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rust/core-lib/src/selection.rs b/rust/core-lib/src/selection.rs
index acde566..cb14ebb 100644
--- a/rust/core-lib/src/selection.rs
+++ b/rust/core-lib/src/selection.rs
@@ -152,7 +152,7 @@ impl Selection {
         {
             last += 1;
         }
-        remove_n_at(&mut self.regions, first, last - first);
+        remove_n_at(&mut self.regions, first, last.saturating_sub(first));
     }
 
     /// Add a region to the selection. This method does not merge regions and does not allow
@@ -166,6 +166,10 @@ impl Selection {
         let mut ix = self.search(region.min());
 
         if ix < self.regions.len() && self.regions[ix].max() == region.min() {
+            if self.regions[ix].min() == region.max() {
+                // the very same caret
+                return (region.min(), region.max());
+            }
             ix += 1;
         }
 
-- 
2.43.0


From f71b01b82cbc976340b4a6db8b91c93690bacd42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:27 +0000
Subject: [PATCH 033/111] fix: capitalize looked at the old selection in the
 new text

---
 rust/core-lib/src/editor.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/rust/core-lib/src/editor.rs b/rust/core-lib/src/editor.rs
index 26e4bdb..bbf5e2e 100644
--- a/rust/core-lib/src/editor.rs
+++ b/rust/core-lib/src/editor.rs
@@ -482,15 +482,16 @@ impl Editor {
 
     fn do_capitalize_text(&mut self, view: &mut View) {
         let (delta, final_selection) = edit_ops::capitalize_text(&self.text, view.sel_regions());
-        if !delta.is_identity() {
-            self.this_edit_type = EditType::Other;
-            self.add_delta(delta);
-        }
 
         // at the end of the transformation carets are located at the end of the words that were
-        // transformed last in the selections
+        // transformed last in the selections; these positions are those before the edit
         view.collapse_selections(&self.text);
         view.set_selection(&self.text, final_selection);
+
+        if !delta.is_identity() {
+            self.this_edit_type = EditType::Other;
+            self.add_delta(delta);
+        }
     }
 
     fn do_modify_indent(&mut self, view: &View, config: &BufferItems, direction: IndentDirection) {
-- 
2.43.0


From e10235796f4e8cc28f975b479ab90378f0ee6838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:27 +0000
Subject: [PATCH 034/111] fix: adding a cursor from an empty last line panicked

---
 rust/core-lib/src/movement.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/core-lib/src/movement.rs b/rust/core-lib/src/movement.rs
index 210005b..748d5a7 100644
--- a/rust/core-lib/src/movement.rs
+++ b/rust/core-lib/src/movement.rs
@@ -111,7 +111,7 @@ fn vertical_motion_exact_pos(
     let mut line = if move_up { init_line - 1 } else { init_line.saturating_add(1) };
 
     // If the active columns is longer than the current line, use the current line length.
-    let col = if line_length < col { line_length - 1 } else { col };
+    let col = if line_length < col { line_length.saturating_sub(1) } else { col };
 
     loop {
         line_length = lo.offset_of_line(text, line + 1) - lo.offset_of_line(text, line);
-- 
2.43.0


From 4928aa093c28096dbefed983c174189f5f2c0128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:34 +0000
Subject: [PATCH 035/111] fix: splitting a selection into lines lost characters
 and could split one

---
 rust/core-lib/src/view.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/rust/core-lib/src/view.rs b/rust/core-lib/src/view.rs
index b4147cf..fc6494c 100644
--- a/rust/core-lib/src/view.rs
+++ b/rust/core-lib/src/view.rs
@@ -543,17 +543,22 @@ impl View {
                 selection.add_region(SelRegion::caret(region.max()));
             } else {
                 let mut cursor = Cursor::new(&text, region.min());
+                let mut sel_start = region.min();
 
-                while cursor.pos() < region.max() {
-                    let sel_start = cursor.pos();
-                    let end_of_line = match cursor.next::<LinesMetric>() {
-                        Some(end) if end >= region.max() => max(0, region.max() - 1),
-                        Some(end) => max(0, end - 1),
-                        None if cursor.pos() == text.len() => cursor.pos(),
-                        _ => break,
-                    };
+                while sel_start < region.max() {
+                    let next_line = cursor.next::<LinesMetric>().unwrap_or_else(|| text.len());
+                    let mut sel_end = min(next_line, region.max());
+
+                    // the line break is not part of the line
+                    if sel_end == next_line && text.byte_at(sel_end - 1) == b'\n' {
+                        sel_end -= 1;
+                        if sel_end > sel_start && text.byte_at(sel_end - 1) == b'\r' {
+                            sel_end -= 1;
+                        }
+                    }
 
-                    selection.add_region(SelRegion::new(sel_start, end_of_line));
+                    selection.add_region(SelRegion::new(sel_start, sel_end));
+                    sel_start = next_line;
                 }
             }
         }
-- 
2.43.0


From a61d66b95715a11d8a14637b1d91ae75679cd67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:12 +0000
Subject: [PATCH 036/111] fix: the cursor of a region merged away by an edit
 stayed in the view

---
 rust/core-lib/src/view.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rust/core-lib/src/view.rs b/rust/core-lib/src/view.rs
index fc6494c..e6ff675 100644
--- a/rust/core-lib/src/view.rs
+++ b/rust/core-lib/src/view.rs
@@ -1018,7 +1018,12 @@ impl View {
         // Note: for committing plugin edits, we probably want to know the priority
         // of the delta so we can set the cursor before or after the edit, as needed.
         let new_sel = self.selection.apply_delta(delta, true, drift);
+        let merged = new_sel.len() < self.selection.len();
         self.set_selection_for_edit(text, new_sel);
+        if merged {
+            // a region that is gone may have had its cursor on a line outside of the edit
+            self.invalidate_selection(text);
+        }
     }
 
     fn do_selection_for_find(&mut self, text: &Rope, case_sensitive: bool) {
-- 
2.43.0


From ec3e50fcc9686a40f7c94987c34f996532a7a8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:22 +0000
Subject: [PATCH 037/111] fix: the click command did nothing

---
 rust/core-lib/src/view.rs | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/rust/core-lib/src/view.rs b/rust/core-lib/src/view.rs
index e6ff675..65f50e9 100644
--- a/rust/core-lib/src/view.rs
+++ b/rust/core-lib/src/view.rs
@@ -274,11 +274,35 @@ impl View {
                         GestureType::SelectExtend { granularity: SelectionGranularity::Point },
                     )
                 } else if click_count == Some(2) {
-                    self.do_gesture(text, line, column, GestureType::WordSelect)
+                    self.do_gesture(
+                        text,
+                        line,
+                        column,
+                        GestureType::Select {
+                            granularity: SelectionGranularity::Word,
+                            multi: false,
+                        },
+                    )
                 } else if click_count == Some(3) {
-                    self.do_gesture(text, line, column, GestureType::LineSelect)
+                    self.do_gesture(
+                        text,
+                        line,
+                        column,
+                        GestureType::Select {
+                            granularity: SelectionGranularity::Line,
+                            multi: false,
+                        },
+                    )
                 } else {
-                    self.do_gesture(text, line, column, GestureType::PointSelect)
+                    self.do_gesture(
+                        text,
+                        line,
+                        column,
+                        GestureType::Select {
+                            granularity: SelectionGranularity::Point,
+                            multi: false,
+                        },
+                    )
                 }
             }
             Drag(MouseAction { line, column, .. }) => {
-- 
2.43.0


From 7bb7d8c8cc911b31d3524aee7996502217b50d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:22 +0000
Subject: [PATCH 038/111] fix: a click with too few parameters panicked

---
 rust/core-lib/src/rpc.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rust/core-lib/src/rpc.rs b/rust/core-lib/src/rpc.rs
index 1ffdfeb..c00a111 100644
--- a/rust/core-lib/src/rpc.rs
+++ b/rust/core-lib/src/rpc.rs
@@ -612,6 +612,9 @@ impl<'de> Deserialize<'de> for MouseAction {
         D: Deserializer<'de>,
     {
         let v: Vec<u64> = Vec::deserialize(deserializer)?;
+        if v.len() < 3 {
+            return Err(de::Error::invalid_length(v.len(), &"a line, a column and flags"));
+        }
         let click_count = if v.len() == 4 { Some(v[3]) } else { None };
         Ok(MouseAction { line: v[0], column: v[1], flags: v[2], click_count })
     }
-- 
2.43.0


From 8b3db763d9c804cc5b2880cc60f8e5eb523b765f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:08 +0000
Subject: [PATCH 039/111] fix: killing to the end of the last line did nothing

---
 rust/core-lib/src/movement.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rust/core-lib/src/movement.rs b/rust/core-lib/src/movement.rs
index 748d5a7..be5868b 100644
--- a/rust/core-lib/src/movement.rs
+++ b/rust/core-lib/src/movement.rs
@@ -272,6 +272,9 @@ pub fn region_movement(
                         }
                     }
                 }
+            } else {
+                // on the last line
+                offset = text.len();
             }
             (offset, None)
         }
-- 
2.43.0


From 48a230d050a41e611bd22218b0289521b819f2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:19 +0000
Subject: [PATCH 040/111] fix: duplicating a last line without a newline did
 nothing

---
 rust/core-lib/src/edit_ops.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rust/core-lib/src/edit_ops.rs b/rust/core-lib/src/edit_ops.rs
index 0b4ee9f..aa0132f 100644
--- a/rust/core-lib/src/edit_ops.rs
+++ b/rust/core-lib/src/edit_ops.rs
@@ -88,7 +88,9 @@ pub fn duplicate_line(base: &Rope, regions: &[SelRegion], config: &BufferItems)
             }
         };
 
-        if let Some(line_end) = cursor.next::<LinesMetric>() {
+        // the last line need not end in a newline
+        let line_end = cursor.next::<LinesMetric>().unwrap_or_else(|| base.len());
+        if line_end > line_start {
             to_duplicate.insert((line_start, line_end));
         }
     }
-- 
2.43.0


From 1e9a837d9eb30d5ed586a528d6daaff2670cd479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:40 +0000
Subject: [PATCH 041/111] fix: an update before a view was initialised copied
 lines the frontend never had

---
 rust/core-lib/src/event_context.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rust/core-lib/src/event_context.rs b/rust/core-lib/src/event_context.rs
index a8a6465..4a20c6a 100644
--- a/rust/core-lib/src/event_context.rs
+++ b/rust/core-lib/src/event_context.rs
@@ -389,7 +389,11 @@ impl<'a> EventContext<'a> {
         let wrap_width = self.config.wrap_width;
         let word_wrap = self.config.word_wrap;
 
-        self.with_view(|view, text| view.update_wrap_settings(text, wrap_width, word_wrap));
+        self.with_view(|view, text| {
+            view.update_wrap_settings(text, wrap_width, word_wrap);
+            // the client has no lines yet
+            view.set_dirty(text);
+        });
     }
 
     pub(crate) fn finish_init(&mut self, config: &Table) {
-- 
2.43.0


From 5f5812f25605cb21dd61f8d03c048135cba03c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:40 +0000
Subject: [PATCH 042/111] fix: a command of a recording moved cursors as the
 one before it

---
 rust/core-lib/src/event_context.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rust/core-lib/src/event_context.rs b/rust/core-lib/src/event_context.rs
index 4a20c6a..d03d86e 100644
--- a/rust/core-lib/src/event_context.rs
+++ b/rust/core-lib/src/event_context.rs
@@ -198,6 +198,8 @@ impl<'a> EventContext<'a> {
                         None => return,
                     };
                     self.update_views(&editor, &delta, &last_text, drift);
+                    // as after a single event
+                    editor.update_edit_type();
                 });
                 self.editor.borrow_mut().set_force_undo_group(false);
 
-- 
2.43.0


From dcbac242974ece081fd64b87dd0582877dc6d943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:37 +0000
Subject: [PATCH 043/111] fix: closing a view before it was initialised crashed
 the core

---
 rust/core-lib/src/tabs.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rust/core-lib/src/tabs.rs b/rust/core-lib/src/tabs.rs
index b9930a7..d3700c7 100644
--- a/rust/core-lib/src/tabs.rs
+++ b/rust/core-lib/src/tabs.rs
@@ -582,8 +582,10 @@ impl CoreState {
         to_start.iter().for_each(|(id, config)| {
             let modified = self.detect_whitespace(*id, config);
             let config = modified.as_ref().unwrap_or(config);
-            let mut edit_ctx = self.make_context(*id).unwrap();
-            edit_ctx.finish_init(&config);
+            // the view may be closed already
+            if let Some(mut edit_ctx) = self.make_context(*id) {
+                edit_ctx.finish_init(&config);
+            }
         });
     }
 
-- 
2.43.0


From 4e86dae41dc1d21ee27e0beeab895681c90e4116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:12 +0000
Subject: [PATCH 044/111] fix: the final search status was only sent along with
 changed lines

---
 rust/core-lib/src/view.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/rust/core-lib/src/view.rs b/rust/core-lib/src/view.rs
index 65f50e9..569f10a 100644
--- a/rust/core-lib/src/view.rs
+++ b/rust/core-lib/src/view.rs
@@ -799,14 +799,6 @@ impl View {
             .chain(plugin_annotations)
             .collect::<Vec<_>>();
 
-        if !self.lc_shadow.needs_render(plan) {
-            let total_lines = self.line_of_offset(text, text.len()) + 1;
-            let update =
-                Update { ops: vec![UpdateOp::copy(total_lines, 1)], pristine, annotations };
-            client.update_view(self.view_id, &update);
-            return;
-        }
-
         // send updated find status only if there have been changes
         if self.find_changed != FindStatusChange::None {
             let matches_only = self.find_changed == FindStatusChange::Matches;
@@ -821,6 +813,14 @@ impl View {
             }
         }
 
+        if !self.lc_shadow.needs_render(plan) {
+            let total_lines = self.line_of_offset(text, text.len()) + 1;
+            let update =
+                Update { ops: vec![UpdateOp::copy(total_lines, 1)], pristine, annotations };
+            client.update_view(self.view_id, &update);
+            return;
+        }
+
         let mut b = line_cache_shadow::Builder::new();
         let mut ops = Vec::new();
         let mut line_num = 0; // tracks old line cache
-- 
2.43.0


From a9eef74b9a5562049830693c3d8142483fb6856e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:13 +0000
Subject: [PATCH 045/111] fix: a regex search forgot what precedes on the line
 it continued on

---
 rust/rope/src/find.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/rust/rope/src/find.rs b/rust/rope/src/find.rs
index 5aa9341..8a058c3 100644
--- a/rust/rope/src/find.rs
+++ b/rust/rope/src/find.rs
@@ -19,6 +19,7 @@ use std::cmp::min;
 use memchr::{memchr, memchr2, memchr3};
 
 use crate::rope::BaseMetric;
+use crate::rope::LinesMetric;
 use crate::rope::LinesRaw;
 use crate::rope::RopeInfo;
 use crate::tree::Cursor;
@@ -302,19 +303,28 @@ pub fn compare_cursor_regex(
         }
     }
 
+    // what precedes on the line decides about anchors and word boundaries
+    let line_start = {
+        let mut line_cursor = Cursor::new(cursor.root(), orig_position);
+        line_cursor.at_or_prev::<LinesMetric>().unwrap_or(0)
+    };
+    let context = cursor.root().slice_to_cow(line_start..orig_position);
+    let end_position = orig_position + text.len();
+    let text = if context.is_empty() { text } else { context + text };
+
     // match regex against text
-    match regex.find(&text) {
-        Some(mat) => {
+    match regex.find_at(&text, orig_position - line_start) {
+        // an empty match after the line break would belong to the next line
+        Some(mat) if mat.start() < text.len() || !text.ends_with('\n') => {
             // calculate start position based on where the match starts
-            let start_position = orig_position + mat.start();
+            let start_position = line_start + mat.start();
 
             // update cursor and set to end of match
-            let end_position = orig_position + mat.end();
-            cursor.set(end_position);
+            cursor.set(line_start + mat.end());
             Some(start_position)
         }
-        None => {
-            cursor.set(orig_position + text.len());
+        _ => {
+            cursor.set(end_position);
             None
         }
     }
-- 
2.43.0


From 83d59d083ab4340476494004d676d6135ad8a5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:13 +0000
Subject: [PATCH 046/111] fix: search results on an edited line were not all
 brought up to date

---
 rust/core-lib/src/find.rs | 87 ++++++++++++++++++---------------------
 1 file changed, 40 insertions(+), 47 deletions(-)

diff --git a/rust/core-lib/src/find.rs b/rust/core-lib/src/find.rs
index 230ace3..13381a4 100644
--- a/rust/core-lib/src/find.rs
+++ b/rust/core-lib/src/find.rs
@@ -16,14 +16,14 @@
 
 use std::cmp::{max, min};
 use std::iter;
+use std::mem;
 
 use crate::annotations::{AnnotationRange, AnnotationSlice, AnnotationType, ToAnnotation};
 use crate::line_offset::LineOffset;
-use crate::selection::{InsertDrift, SelRegion, Selection};
+use crate::selection::{SelRegion, Selection};
 use crate::view::View;
 use crate::word_boundaries::WordCursor;
 use regex::{Regex, RegexBuilder};
-use xi_rope::delta::DeltaRegion;
 use xi_rope::find::{find, is_multiline_regex, CaseMatching};
 use xi_rope::{Cursor, Interval, LinesMetric, Metric, Rope, RopeDelta};
 
@@ -138,53 +138,41 @@ impl Find {
     pub fn update_highlights(&mut self, text: &Rope, delta: &RopeDelta) {
         // update search highlights for changed regions
         if self.search_string.is_some() {
-            // invalidate occurrences around deletion positions
-            for DeltaRegion { old_offset, len, .. } in delta.iter_deletions() {
-                self.occurrences.delete_range(old_offset, old_offset + len, false);
-            }
-
-            self.occurrences = self.occurrences.apply_delta(delta, false, InsertDrift::Default);
-
-            // invalidate occurrences around insert positions
-            for DeltaRegion { new_offset, len, .. } in delta.iter_inserts() {
-                // also invalidate previous occurrence since it might expand after insertion
-                // eg. for regex .* every insertion after match will be part of match
-                self.occurrences.delete_range(
-                    new_offset.saturating_sub(1),
-                    new_offset + len,
-                    false,
-                );
-            }
-
-            // update find for the whole delta and everything after
+            // A change affects the results on all of the lines it touches: whole words and
+            // regular expressions depend on what surrounds them.
             let (iv, new_len) = delta.summary();
-
-            // get last valid occurrence that was unaffected by the delta
-            let start = match self.occurrences.regions_in_range(0, iv.start()).last() {
-                Some(reg) => reg.end,
-                None => 0,
-            };
-
-            // invalidate all search results from the point of the last valid search result until ...
-            let is_multiline = LinesMetric::next(self.search_string.as_ref().unwrap(), 0).is_some();
-
-            if is_multiline || self.is_multiline_regex() {
-                // ... the end of the file
-                self.occurrences.delete_range(iv.start(), text.len(), false);
-                self.update_find(text, start, text.len(), false);
+            let mut start = text.offset_of_line(text.line_of_offset(iv.start()));
+            let mut end = text.len();
+
+            let search_string = self.search_string.as_ref().unwrap();
+            if self.is_multiline_regex() {
+                start = 0;
+            } else if LinesMetric::next(search_string, 0).is_some() {
+                // results may begin on an earlier line (twice the length, because case matching
+                // may increase the length of an occurrence), but not within another one
+                let reach = iv.start().saturating_sub(search_string.len() * 2);
+                start = min(start, text.at_or_prev_codepoint_boundary(reach).unwrap_or(0));
+                if let Some(reg) = self.occurrences.regions_in_range(start, start).first() {
+                    start = min(start, reg.min());
+                }
             } else {
-                // ... the end of the line including line break
-                let mut cursor = Cursor::new(&text, iv.end() + new_len);
-
-                let end_of_line = match cursor.next::<LinesMetric>() {
-                    Some(end) => end,
-                    None if cursor.pos() == text.len() => cursor.pos(),
-                    _ => return,
-                };
+                let mut cursor = Cursor::new(&text, iv.start() + new_len);
+                end = cursor.next::<LinesMetric>().unwrap_or_else(|| text.len());
+            }
 
-                self.occurrences.delete_range(iv.start(), end_of_line, false);
-                self.update_find(text, start, end_of_line, false);
+            // keep the results on other lines and search these again
+            let old_end = end + iv.size() - new_len;
+            let is_last = end == text.len();
+            let previous = mem::replace(&mut self.occurrences, Selection::new());
+            for reg in previous.iter() {
+                if reg.min() < start && reg.max() <= start {
+                    self.occurrences.add_range_distinct(*reg);
+                } else if reg.min() >= old_end && !is_last {
+                    let (reg_start, reg_end) = (reg.min() - old_end, reg.max() - old_end);
+                    self.occurrences.add_range_distinct(SelRegion::new(end + reg_start, end + reg_end));
+                }
             }
+            self.update_find(text, start, end, false);
         }
     }
 
@@ -261,8 +249,13 @@ impl Find {
         // expand region to be able to find occurrences around the region's edges
         let expanded_start = max(start, slop) - slop;
         let expanded_end = min(end + slop, text.len());
-        let from = text.at_or_prev_codepoint_boundary(expanded_start).unwrap_or(0);
-        let to = text.at_or_next_codepoint_boundary(expanded_end).unwrap_or(text.len());
+        let mut from = text.at_or_prev_codepoint_boundary(expanded_start).unwrap_or(0);
+        let mut to = text.at_or_next_codepoint_boundary(expanded_end).unwrap_or(text.len());
+        if include_slop && self.regex.is_some() {
+            // regular expressions are matched against whole lines
+            from = text.offset_of_line(text.line_of_offset(from));
+            to = Cursor::new(&text, to).at_or_next::<LinesMetric>().unwrap_or_else(|| text.len());
+        }
         let mut to_cursor = Cursor::new(&text, to);
         let _ = to_cursor.next_leaf();
 
-- 
2.43.0


From 3b13d8e69ca57fe07f2e7e9ac505a20f655ae141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:13 +0000
Subject: [PATCH 047/111] fix: $ in a regex search only matched at the end of
 the last line

---
 rust/core-lib/src/find.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rust/core-lib/src/find.rs b/rust/core-lib/src/find.rs
index 13381a4..9447632 100644
--- a/rust/core-lib/src/find.rs
+++ b/rust/core-lib/src/find.rs
@@ -226,6 +226,7 @@ impl Find {
             false => None,
             true => RegexBuilder::new(search_string)
                 .size_limit(REGEX_SIZE_LIMIT)
+                .multi_line(true)
                 .case_insensitive(case_matching == CaseMatching::CaseInsensitive)
                 .build()
                 .ok(),
-- 
2.43.0


From 8b43c33831101589073f2b56cb5d4f32d3d1e657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:13 +0000
Subject: [PATCH 048/111] fix: a whole-word search skipped results overlapping
 a rejected one

---
 rust/core-lib/src/find.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rust/core-lib/src/find.rs b/rust/core-lib/src/find.rs
index 9447632..be3fb96 100644
--- a/rust/core-lib/src/find.rs
+++ b/rust/core-lib/src/find.rs
@@ -275,7 +275,10 @@ impl Find {
             let end = find_cursor.pos();
 
             if self.whole_words && !self.is_matching_whole_words(text, start, end) {
-                // not a result, the search continues after it
+                // not a result, the search continues after it; a literal may overlap with it
+                if self.regex.is_none() {
+                    find_cursor.set(text.next_codepoint_offset(start).unwrap_or(end));
+                }
             } else {
                 let region = SelRegion::new(start, end);
                 let (_, e) = self.occurrences.add_range_distinct(region);
-- 
2.43.0


From a694b6dc96856e830a93c320b2decd80a4c5fc3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:51 +0000
Subject: [PATCH 049/111] fix: highlights of a search over several lines stayed
 after an edit next to them

---
 rust/core-lib/src/find.rs | 10 +++++++++-
 rust/core-lib/src/view.rs |  7 +++++++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/rust/core-lib/src/find.rs b/rust/core-lib/src/find.rs
index be3fb96..43045f1 100644
--- a/rust/core-lib/src/find.rs
+++ b/rust/core-lib/src/find.rs
@@ -147,7 +147,7 @@ impl Find {
             let search_string = self.search_string.as_ref().unwrap();
             if self.is_multiline_regex() {
                 start = 0;
-            } else if LinesMetric::next(search_string, 0).is_some() {
+            } else if self.is_multiline() {
                 // results may begin on an earlier line (twice the length, because case matching
                 // may increase the length of an occurrence), but not within another one
                 let reach = iv.start().saturating_sub(search_string.len() * 2);
@@ -181,6 +181,14 @@ impl Find {
         self.regex.is_some() && is_multiline_regex(self.search_string.as_ref().unwrap())
     }
 
+    /// Returns `true` if a result may extend over several lines.
+    pub(crate) fn is_multiline(&self) -> bool {
+        match self.search_string {
+            Some(ref s) => self.is_multiline_regex() || LinesMetric::next(s, 0).is_some(),
+            None => false,
+        }
+    }
+
     /// Unsets the search and removes all highlights from the view.
     pub fn unset(&mut self) {
         self.search_string = None;
diff --git a/rust/core-lib/src/view.rs b/rust/core-lib/src/view.rs
index 569f10a..f3920a9 100644
--- a/rust/core-lib/src/view.rs
+++ b/rust/core-lib/src/view.rs
@@ -1038,6 +1038,10 @@ impl View {
             find.update_highlights(text, delta);
             self.find_changed = FindStatusChange::All;
         }
+        if self.highlight_find && self.find.iter().any(|find| find.is_multiline()) {
+            // results over several lines may have changed outside of the edited lines
+            self.invalidate_styles(text, 0, text.len());
+        }
 
         // Note: for committing plugin edits, we probably want to know the priority
         // of the delta so we can set the cursor before or after the edit, as needed.
@@ -1174,6 +1178,9 @@ impl View {
         };
 
         if let Some((search_range_start, search_range_end)) = search_range {
+            if self.highlight_find {
+                self.invalidate_styles(text, search_range_start, search_range_end);
+            }
             for query in &mut self.find {
                 if !query.is_multiline_regex() {
                     query.update_find(text, search_range_start, search_range_end, true);
-- 
2.43.0


From 7ef27a88f129cbfc0774054d73e25d3a015ce872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:36 +0000
Subject: [PATCH 050/111] fix: find_next did not wrap around to a result next
 to the selection

---
 rust/core-lib/src/find.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/rust/core-lib/src/find.rs b/rust/core-lib/src/find.rs
index 43045f1..185ad18 100644
--- a/rust/core-lib/src/find.rs
+++ b/rust/core-lib/src/find.rs
@@ -363,7 +363,7 @@ impl Find {
                     .regions_in_range(0, text.len())
                     .iter()
                     .cloned()
-                    .filter(|o| sel.regions_in_range(o.min(), o.max()).is_empty())
+                    .filter(|o| !is_selected(sel, o))
                     .collect::<Vec<SelRegion>>()
                     .last()
                     .cloned();
@@ -380,7 +380,7 @@ impl Find {
                     .regions_in_range(0, text.len())
                     .iter()
                     .cloned()
-                    .filter(|o| sel.regions_in_range(o.min(), o.max()).is_empty())
+                    .filter(|o| !is_selected(sel, o))
                     .collect::<Vec<SelRegion>>()
                     .first()
                     .cloned();
@@ -418,6 +418,13 @@ impl Find {
     }
 }
 
+/// Whether the occurrence `occ` is part of the selection `sel`; merely touching it does not count.
+fn is_selected(sel: &Selection, occ: &SelRegion) -> bool {
+    sel.regions_in_range(occ.min(), occ.max())
+        .iter()
+        .any(|reg| reg.min() < occ.max() && occ.min() < reg.max() || reg == occ)
+}
+
 /// Implementing the `ToAnnotation` trait allows to convert finds to annotations.
 impl ToAnnotation for Find {
     fn get_annotations(&self, interval: Interval, view: &View, text: &Rope) -> AnnotationSlice {
-- 
2.43.0


From e39079ae3251ab843f450b21d7ebd1fbdaed60c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:19 +0000
Subject: [PATCH 051/111] fix: find_next wrapped around although it was told
 not to

---
 rust/core-lib/src/view.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/rust/core-lib/src/view.rs b/rust/core-lib/src/view.rs
index f3920a9..7ad9652 100644
--- a/rust/core-lib/src/view.rs
+++ b/rust/core-lib/src/view.rs
@@ -1203,10 +1203,8 @@ impl View {
         allow_same: bool,
         modify_selection: &SelectionModifier,
     ) {
-        self.select_next_occurrence(text, reverse, false, allow_same, modify_selection);
-        if self.scroll_to.is_none() && wrap {
-            self.select_next_occurrence(text, reverse, true, allow_same, modify_selection);
-        }
+        // when not wrapping around, only what lies in the direction of the search counts
+        self.select_next_occurrence(text, reverse, !wrap, allow_same, modify_selection);
     }
 
     /// Selects all find matches.
-- 
2.43.0


From 91f51ac339f45020166d5932ec858c8e1f291ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:55 +0000
Subject: [PATCH 052/111] fix: replacing without results collapsed the
 selection

---
 rust/core-lib/src/editor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/core-lib/src/editor.rs b/rust/core-lib/src/editor.rs
index bbf5e2e..6cef290 100644
--- a/rust/core-lib/src/editor.rs
+++ b/rust/core-lib/src/editor.rs
@@ -427,7 +427,7 @@ impl Editor {
 
             match last_selection_region(view.sel_regions()) {
                 Some(_) => self.add_delta(edit_ops::insert(&self.text, view.sel_regions(), chars)),
-                None => return,
+                None => view.set_selection(&self.text, old_selection),
             };
         }
     }
-- 
2.43.0


From c5db5b5a957cb0f46145ffea7ec5461caf9172df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:55 +0000
Subject: [PATCH 053/111] fix: find_previous skipped a result next to the one
 before it

---
 rust/core-lib/src/selection.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rust/core-lib/src/selection.rs b/rust/core-lib/src/selection.rs
index cb14ebb..efe549e 100644
--- a/rust/core-lib/src/selection.rs
+++ b/rust/core-lib/src/selection.rs
@@ -130,7 +130,8 @@ impl Selection {
     pub fn regions_in_range(&self, start: usize, end: usize) -> &[SelRegion] {
         let first = self.search(start);
         let mut last = self.search(end);
-        if last < self.regions.len() && self.regions[last].min() <= end {
+        // two regions may touch the end of the range
+        while last < self.regions.len() && self.regions[last].min() <= end {
             last += 1;
         }
         &self.regions[first..last]
-- 
2.43.0


From eb963986eb065648d80e2cca8af20551e4c1d52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:31 +0000
Subject: [PATCH 054/111] fix: a tab size above 32 no longer panics on
 insert_tab and indent

---
 rust/core-lib/src/edit_ops.rs | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/rust/core-lib/src/edit_ops.rs b/rust/core-lib/src/edit_ops.rs
index aa0132f..23e1a3e 100644
--- a/rust/core-lib/src/edit_ops.rs
+++ b/rust/core-lib/src/edit_ops.rs
@@ -219,7 +219,7 @@ pub fn insert_tab(base: &Rope, regions: &[SelRegion], config: &BufferItems) -> R
         if line_range.len() > 1 {
             for line in line_range {
                 let offset = LogicalLines.line_col_to_offset(base, line, 0);
-                replacements.insert((offset, offset, const_tab_text));
+                replacements.insert((offset, offset, const_tab_text.clone()));
             }
         } else {
             let (_, col) = LogicalLines.offset_to_line_col(base, region.start);
@@ -258,8 +258,8 @@ pub fn modify_indent(
         }
     }
     match direction {
-        IndentDirection::In => indent(base, lines, tab_text),
-        IndentDirection::Out => outdent(base, lines, tab_text),
+        IndentDirection::In => indent(base, lines, &tab_text),
+        IndentDirection::Out => outdent(base, lines, &tab_text),
     }
 }
 
@@ -451,15 +451,11 @@ fn last_selection_region(regions: &[SelRegion]) -> Option<&SelRegion> {
     None
 }
 
-fn get_tab_text(config: &BufferItems, tab_size: Option<usize>) -> &'static str {
+fn get_tab_text(config: &BufferItems, tab_size: Option<usize>) -> String {
     let tab_size = tab_size.unwrap_or(config.tab_size);
-    let tab_text = if config.translate_tabs_to_spaces { n_spaces(tab_size) } else { "\t" };
-
-    tab_text
-}
-
-fn n_spaces(n: usize) -> &'static str {
-    let spaces = "                                ";
-    assert!(n <= spaces.len());
-    &spaces[..n]
+    if config.translate_tabs_to_spaces {
+        " ".repeat(tab_size)
+    } else {
+        "\t".to_owned()
+    }
 }
-- 
2.43.0


From 599e4994db5036323d053dc127d849cc9944b690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:31 +0000
Subject: [PATCH 055/111] fix: an error instead of widths from the frontend no
 longer panics the core

---
 rust/core-lib/src/client.rs   | 2 +-
 rust/core-lib/src/linewrap.rs | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/rust/core-lib/src/client.rs b/rust/core-lib/src/client.rs
index b9fd31d..59f4158 100644
--- a/rust/core-lib/src/client.rs
+++ b/rust/core-lib/src/client.rs
@@ -169,7 +169,7 @@ impl Client {
     pub fn measure_width(&self, reqs: &[WidthReq]) -> Result<WidthResponse, xi_rpc::Error> {
         let req_json = serde_json::to_value(reqs).expect("failed to serialize width req");
         let resp = self.0.send_rpc_request("measure_width", &req_json)?;
-        Ok(serde_json::from_value(resp).expect("failed to deserialize width response"))
+        serde_json::from_value(resp).map_err(|_| xi_rpc::Error::InvalidResponse)
     }
 
     pub fn alert<S: AsRef<str>>(&self, msg: S) {
diff --git a/rust/core-lib/src/linewrap.rs b/rust/core-lib/src/linewrap.rs
index badf218..442722a 100644
--- a/rust/core-lib/src/linewrap.rs
+++ b/rust/core-lib/src/linewrap.rs
@@ -519,7 +519,10 @@ impl<'a> RewrapCtx<'a> {
             pos = next;
             self.pot_breaks.push(PotentialBreak { pos, tok, hard });
         }
-        req.resolve_pending(self.client).unwrap();
+        if let Err(e) = req.resolve_pending(self.client) {
+            // wrap as if these words had no width
+            error!("failed to measure widths: {:?}", e);
+        }
         self.lb_cursor_pos = pos;
     }
 
-- 
2.43.0


From 7dce696acf97be23af40bad6e9620da9de090628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:21 +0000
Subject: [PATCH 056/111] fix: batches of an incremental search no longer end
 within a character

---
 rust/core-lib/src/view.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/rust/core-lib/src/view.rs b/rust/core-lib/src/view.rs
index 7ad9652..38df0d0 100644
--- a/rust/core-lib/src/view.rs
+++ b/rust/core-lib/src/view.rs
@@ -1132,7 +1132,7 @@ impl View {
             FindProgress::Started => {
                 // start incremental find on visible region
                 let start = self.offset_of_line(text, self.first_line);
-                let end = min(text.len(), start + FIND_BATCH_SIZE);
+                let end = find_batch_end(text, start);
                 self.find_changed = FindStatusChange::Matches;
                 self.find_progress = FindProgress::InProgress(Range { start, end });
                 Some((start, end))
@@ -1157,11 +1157,12 @@ impl View {
 
                     if search_preceding_range || searched_range.end >= text.len() {
                         let start = searched_range.start.saturating_sub(FIND_BATCH_SIZE);
+                        let start = text.at_or_prev_codepoint_boundary(start).unwrap_or(0);
                         self.find_progress =
                             FindProgress::InProgress(Range { start, end: searched_range.end });
                         Some((start, searched_range.start))
                     } else if searched_range.end < text.len() {
-                        let end = min(text.len(), searched_range.end + FIND_BATCH_SIZE);
+                        let end = find_batch_end(text, searched_range.end);
                         self.find_progress =
                             FindProgress::InProgress(Range { start: searched_range.start, end });
                         Some((searched_range.end, end))
@@ -1340,6 +1341,12 @@ impl LineOffset for View {
     }
 }
 
+/// The end of the batch of an incremental search that begins at `start`.
+fn find_batch_end(text: &Rope, start: usize) -> usize {
+    let end = min(text.len(), start + FIND_BATCH_SIZE);
+    text.at_or_next_codepoint_boundary(end).unwrap_or_else(|| text.len())
+}
+
 // utility function to clamp a value within the given range
 fn clamp(x: usize, min: usize, max: usize) -> usize {
     if x < min {
-- 
2.43.0


From 05dacf40365acc1371156cc9c6c2042e55a3d1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:21 +0000
Subject: [PATCH 057/111] fix: an edit during an incremental search made it
 miss results

---
 rust/core-lib/src/view.rs | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/rust/core-lib/src/view.rs b/rust/core-lib/src/view.rs
index 38df0d0..e5f0201 100644
--- a/rust/core-lib/src/view.rs
+++ b/rust/core-lib/src/view.rs
@@ -1043,6 +1043,8 @@ impl View {
             self.invalidate_styles(text, 0, text.len());
         }
 
+        self.update_find_progress(delta);
+
         // Note: for committing plugin edits, we probably want to know the priority
         // of the delta so we can set the cursor before or after the edit, as needed.
         let new_sel = self.selection.apply_delta(delta, true, drift);
@@ -1054,6 +1056,29 @@ impl View {
         }
     }
 
+    /// Moves the range an incremental search has covered along with the text. What the
+    /// edit changed is searched already.
+    fn update_find_progress(&mut self, delta: &RopeDelta) {
+        if let FindProgress::InProgress(ref range) = self.find_progress {
+            let (iv, new_len) = delta.summary();
+            let start = match range.start {
+                start if start <= iv.start() => start,
+                start if start >= iv.end() => start - iv.size() + new_len,
+                _ => iv.start() + new_len,
+            };
+            let end = match range.end {
+                end if end >= iv.end() => end - iv.size() + new_len,
+                end => min(end, iv.start()),
+            };
+            self.find_progress = if start <= end {
+                FindProgress::InProgress(Range { start, end })
+            } else {
+                // nothing is left of it
+                FindProgress::Started
+            };
+        }
+    }
+
     fn do_selection_for_find(&mut self, text: &Rope, case_sensitive: bool) {
         // set last selection or word under current cursor as search query
         let search_query = match self.selection.last() {
-- 
2.43.0


From 2af8e516fc7c90804fd3dbfb10749df1cb226b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:01 +0000
Subject: [PATCH 058/111] fix: saving under a name without a known language no
 longer leaves the buffer without a language

---
 rust/core-lib/src/config.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/rust/core-lib/src/config.rs b/rust/core-lib/src/config.rs
index b321541..58d5675 100644
--- a/rust/core-lib/src/config.rs
+++ b/rust/core-lib/src/config.rs
@@ -284,8 +284,7 @@ impl ConfigManager {
     ///
     /// Panics if `id` already exists.
     pub(crate) fn add_buffer(&mut self, id: BufferId, path: Option<&Path>) -> Table {
-        let lang =
-            path.and_then(|p| self.language_for_path(p)).unwrap_or(LanguageId::from("Plain Text"));
+        let lang = self.detect_language(path);
         let lang_tag = LanguageTag::new(lang);
         assert!(self.buffer_tags.insert(id, lang_tag).is_none());
         self.update_buffer_config(id).expect("new buffer must always have config")
@@ -298,7 +297,7 @@ impl ConfigManager {
     /// Panics if `id` does not exist.
     pub(crate) fn update_buffer_path(&mut self, id: BufferId, path: &Path) -> Option<Table> {
         assert!(self.buffer_tags.contains_key(&id));
-        let lang = self.language_for_path(path).unwrap_or_default();
+        let lang = self.detect_language(Some(path));
         let has_changed = self.buffer_tags.get_mut(&id).map(|tag| tag.set_detected(lang)).unwrap();
 
         if has_changed {
@@ -451,6 +450,11 @@ impl ConfigManager {
         }
     }
 
+    /// The language of a buffer with the given path, if the user does not choose one.
+    fn detect_language(&self, path: Option<&Path>) -> LanguageId {
+        path.and_then(|p| self.language_for_path(p)).unwrap_or(LanguageId::from("Plain Text"))
+    }
+
     pub fn language_for_path(&self, path: &Path) -> Option<LanguageId> {
         self.languages.language_for_path(path).map(|lang| lang.name.clone())
     }
-- 
2.43.0


From 356bee47873477b4766a689e70f3a88825b3d6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:16 +0000
Subject: [PATCH 059/111] fix: settings changed before a new view was set up
 did not reach the frontend

---
 rust/core-lib/src/tabs.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/rust/core-lib/src/tabs.rs b/rust/core-lib/src/tabs.rs
index d3700c7..c3bcc0e 100644
--- a/rust/core-lib/src/tabs.rs
+++ b/rust/core-lib/src/tabs.rs
@@ -118,7 +118,7 @@ pub struct CoreState {
     /// it can be passed to plugins.
     self_ref: Option<WeakXiCore>,
     /// Views which need to have setup finished.
-    pending_views: Vec<(ViewId, Table)>,
+    pending_views: Vec<ViewId>,
     peer: Client,
     id_counter: Counter,
     plugins: PluginCatalog,
@@ -377,7 +377,7 @@ impl CoreState {
         self.editors.insert(buffer_id, editor);
         self.views.insert(view_id, view);
 
-        let config = self.config_manager.add_buffer(buffer_id, path.as_deref());
+        self.config_manager.add_buffer(buffer_id, path.as_deref());
 
         // NOTE: because this is a synchronous call, we have to initialize the
         // view and return the view_id before we can send any events to this
@@ -388,7 +388,7 @@ impl CoreState {
         let mut edit_ctx = self.make_context(view_id).unwrap();
         edit_ctx.view_init();
 
-        self.pending_views.push((view_id, config));
+        self.pending_views.push(view_id);
         self.peer.schedule_idle(NEW_VIEW_IDLE_TOKEN);
 
         Ok(json!(view_id))
@@ -579,12 +579,12 @@ impl CoreState {
     fn finalize_new_views(&mut self) {
         let to_start = mem::replace(&mut self.pending_views, Vec::new());
 
-        to_start.iter().for_each(|(id, config)| {
-            let modified = self.detect_whitespace(*id, config);
-            let config = modified.as_ref().unwrap_or(config);
+        to_start.iter().for_each(|id| {
             // the view may be closed already
-            if let Some(mut edit_ctx) = self.make_context(*id) {
-                edit_ctx.finish_init(&config);
+            if let Ok(config) = self.do_get_config(*id) {
+                let modified = self.detect_whitespace(*id, &config);
+                let config = modified.as_ref().unwrap_or(&config);
+                self.make_context(*id).unwrap().finish_init(config);
             }
         });
     }
-- 
2.43.0


From 4a4d7b0689d5be3c431f98408de1bc1eb58a7e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:13 +0000
Subject: [PATCH 060/111] fix: changes of a file after it was replaced by
 another were not noticed

---
 rust/core-lib/src/file.rs | 9 +++++++++
 rust/core-lib/src/tabs.rs | 5 +++++
 2 files changed, 14 insertions(+)

diff --git a/rust/core-lib/src/file.rs b/rust/core-lib/src/file.rs
index 2467780..dc85e55 100644
--- a/rust/core-lib/src/file.rs
+++ b/rust/core-lib/src/file.rs
@@ -105,6 +105,15 @@ impl FileManager {
         false
     }
 
+    /// Renews the watch on an open file which has been replaced by another file.
+    #[cfg(feature = "notify")]
+    pub fn rewatch(&mut self, path: &Path) {
+        if self.open_files.contains_key(path) {
+            self.watcher.unwatch(path, OPEN_FILE_EVENT_TOKEN);
+            self.watcher.watch(path, false, OPEN_FILE_EVENT_TOKEN);
+        }
+    }
+
     pub fn open(&mut self, path: &Path, id: BufferId) -> Result<Rope, FileError> {
         if !path.exists() {
             return Ok(Rope::from(""));
diff --git a/rust/core-lib/src/tabs.rs b/rust/core-lib/src/tabs.rs
index c3bcc0e..85d66a5 100644
--- a/rust/core-lib/src/tabs.rs
+++ b/rust/core-lib/src/tabs.rs
@@ -711,6 +711,11 @@ impl CoreState {
             EventKind::Create(CreateKind::Any)
             | EventKind::Modify(ModifyKind::Metadata(MetadataKind::Any))
             | EventKind::Modify(ModifyKind::Any) => &event.paths[0],
+            // another file took its place: it has to be watched anew
+            EventKind::Remove(RemoveKind::Any) if event.paths[0].exists() => {
+                self.file_manager.rewatch(&event.paths[0]);
+                &event.paths[0]
+            }
             other => {
                 debug!("Ignoring event in open file {:?}", other);
                 return;
-- 
2.43.0


From fd7660045b86396966f04720ee554a5831c15d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:13 +0000
Subject: [PATCH 061/111] fix: saving overwrote a change on disk that had not
 been noticed yet

---
 rust/core-lib/src/file.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/core-lib/src/file.rs b/rust/core-lib/src/file.rs
index dc85e55..d190970 100644
--- a/rust/core-lib/src/file.rs
+++ b/rust/core-lib/src/file.rs
@@ -171,7 +171,7 @@ impl FileManager {
             self.open_files.remove(&prev_path);
             #[cfg(feature = "notify")]
             self.watcher.unwatch(&prev_path, OPEN_FILE_EVENT_TOKEN);
-        } else if self.file_info[&id].has_changed {
+        } else if path.exists() && self.check_file(path, id) {
             return Err(FileError::HasChanged(path.to_owned()));
         } else {
             let encoding = self.file_info[&id].encoding;
-- 
2.43.0


From f1ec9719a97848d7fcb2be70fa698d0ea46980ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:59 +0000
Subject: [PATCH 062/111] fix: lines an edit changed out of sight stayed
 unwrapped

---
 rust/core-lib/src/event_context.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rust/core-lib/src/event_context.rs b/rust/core-lib/src/event_context.rs
index d03d86e..c35b29a 100644
--- a/rust/core-lib/src/event_context.rs
+++ b/rust/core-lib/src/event_context.rs
@@ -281,7 +281,12 @@ impl<'a> EventContext<'a> {
             None => return,
         };
 
+        let was_wrapped = !self.view.borrow().needs_more_wrap();
         self.update_views(&self.editor.borrow(), &delta, &last_text, drift);
+        if was_wrapped && self.view.borrow().needs_more_wrap() {
+            // only part of what the edit changed is wrapped so far
+            self.schedule_rewrap();
+        }
         self.update_plugins(&mut self.editor.borrow_mut(), delta, author);
 
         //if we have no plugins we always render immediately.
-- 
2.43.0


From d6d1c7f7340e5c902d6bcfd5c297b1d78100f3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:49 +0000
Subject: [PATCH 063/111] fix: an edit during rewrapping left stale lines in
 the frontend

---
 rust/core-lib/src/linewrap.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rust/core-lib/src/linewrap.rs b/rust/core-lib/src/linewrap.rs
index 442722a..fae08b3 100644
--- a/rust/core-lib/src/linewrap.rs
+++ b/rust/core-lib/src/linewrap.rs
@@ -310,6 +310,9 @@ impl Lines {
         let inval_soft = self.breaks.count::<BreaksMetric>(old_logical_end_offset)
             - self.breaks.count::<BreaksMetric>(prev_break);
 
+        // if something else is yet to be wrapped, it may be wrapped along with the edited region.
+        let was_converged = self.is_converged();
+
         // update soft breaks, adding empty spans in the edited region
         let mut builder = BreakBuilder::new();
         builder.add_no_break(newlen);
@@ -331,9 +334,9 @@ impl Lines {
         if !self.work.is_empty() {
             let summary = self.do_wrap_task(text, width_cache, client, visible_lines, None);
             let WrapSummary { start_line, new_soft, .. } = summary;
-            // if we haven't converged after this update we can't do minimal invalidation
+            // if we haven't converged before and after this update we can't do minimal invalidation
             // because we don't have complete knowledge of the new breaks state.
-            if self.is_converged() {
+            if was_converged && self.is_converged() {
                 let inval_count = old_hard_count + inval_soft;
                 let new_count = new_hard_count + new_soft;
                 Some(InvalLines { start_line, new_count, inval_count })
-- 
2.43.0


From 1454e455f3fc4012924099a48e5617e15fff52bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:43 +0000
Subject: [PATCH 064/111] hook: connect plugins that a monitor plays

---
 rust/core-lib/src/core.rs        | 15 +++++++++++++++
 rust/core-lib/src/plugins/mod.rs | 15 +++++++++++++++
 2 files changed, 30 insertions(+)

diff --git a/rust/core-lib/src/core.rs b/rust/core-lib/src/core.rs
index 9e659eb..85a61ab 100644
--- a/rust/core-lib/src/core.rs
+++ b/rust/core-lib/src/core.rs
@@ -77,6 +77,21 @@ impl XiCore {
     }
 }
 
+#[cfg(xi_mon)]
+impl XiCore {
+    /// Connects a plugin that the monitor plays; what it sends goes to the returned handler.
+    pub fn mon_plugin_connect(&self, id: usize, name: &str, peer: xi_rpc::RpcPeer) -> WeakXiCore {
+        let core = self.weak_self().expect("core is running");
+        core.plugin_connect(Ok(Plugin::for_peer(id, name, peer)));
+        core
+    }
+
+    /// What happens when the plugin's run loop ends.
+    pub fn mon_plugin_exit(&self, id: usize) {
+        self.weak_self().expect("core is running").plugin_exit(crate::plugins::PluginPid(id), Ok(()));
+    }
+}
+
 /// Handler for messages originating with the frontend.
 impl Handler for XiCore {
     type Notification = CoreNotification;
diff --git a/rust/core-lib/src/plugins/mod.rs b/rust/core-lib/src/plugins/mod.rs
index 07b2af2..4c64942 100644
--- a/rust/core-lib/src/plugins/mod.rs
+++ b/rust/core-lib/src/plugins/mod.rs
@@ -62,8 +62,21 @@ pub struct Plugin {
     peer: RpcPeer,
     pub(crate) id: PluginId,
     pub(crate) name: String,
+    #[cfg(not(xi_mon))]
     #[allow(dead_code)]
     process: Child,
+    /// A monitored plugin may have no process.
+    #[cfg(xi_mon)]
+    #[allow(dead_code)]
+    process: Option<Child>,
+}
+
+#[cfg(xi_mon)]
+impl Plugin {
+    /// A plugin at the other end of `peer`, for a monitor that plays plugins.
+    pub(crate) fn for_peer(id: usize, name: &str, peer: RpcPeer) -> Self {
+        Plugin { peer, process: None, name: name.to_owned(), id: PluginPid(id) }
+    }
 }
 
 impl Plugin {
@@ -183,6 +196,8 @@ pub(crate) fn start_plugin_process(
                     let peer: RpcPeer = Box::new(looper.get_raw_peer());
                     let name = plugin_desc.name.clone();
                     peer.send_rpc_notification("ping", &Value::Array(Vec::new()));
+                    #[cfg(xi_mon)]
+                    let child = Some(child);
                     let plugin = Plugin { peer, process: child, name, id };
 
                     // set tracing immediately
-- 
2.43.0


From efbbcd201640953b4e77ec72c9e44eb3c6d7912f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:43 +0000
Subject: [PATCH 065/111] fix: an edit hung the core when a plugin was gone

---
 rust/core-lib/src/event_context.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/rust/core-lib/src/event_context.rs b/rust/core-lib/src/event_context.rs
index c35b29a..ec06e81 100644
--- a/rust/core-lib/src/event_context.rs
+++ b/rust/core-lib/src/event_context.rs
@@ -18,6 +18,9 @@ use std::cell::RefCell;
 use std::iter;
 use std::ops::Range;
 use std::path::Path;
+use std::sync::atomic::{AtomicBool, Ordering};
+use std::sync::Arc;
+use std::thread;
 use std::time::{Duration, Instant};
 
 use serde_json::{self, Value};
@@ -350,9 +353,23 @@ impl<'a> EventContext<'a> {
             let weak_core = self.weak_core.clone();
             let id = plugin.id;
             let view_id = self.view_id;
+            // If the update cannot be sent the callback runs right away, on this thread,
+            // which holds core already.
+            let sending = Arc::new(AtomicBool::new(true));
+            let failed = Arc::new(AtomicBool::new(false));
+            let sender = thread::current().id();
+            let (is_sending, has_failed) = (sending.clone(), failed.clone());
             plugin.update(&update, move |resp| {
-                weak_core.handle_plugin_update(id, view_id, resp);
+                if is_sending.load(Ordering::SeqCst) && thread::current().id() == sender {
+                    has_failed.store(true, Ordering::SeqCst);
+                } else {
+                    weak_core.handle_plugin_update(id, view_id, resp);
+                }
             });
+            sending.store(false, Ordering::SeqCst);
+            if failed.load(Ordering::SeqCst) {
+                ed.dec_revs_in_flight();
+            }
         });
         ed.dec_revs_in_flight();
         ed.update_edit_type();
-- 
2.43.0


From 5dc16483c4ab8001a130213edc5ea39d5528cd9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:43 +0000
Subject: [PATCH 066/111] fix: the line_count request of a plugin was always
 refused

---
 rust/core-lib/src/event_context.rs | 4 ++--
 rust/core-lib/src/plugins/rpc.rs   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/rust/core-lib/src/event_context.rs b/rust/core-lib/src/event_context.rs
index ec06e81..42217ed 100644
--- a/rust/core-lib/src/event_context.rs
+++ b/rust/core-lib/src/event_context.rs
@@ -265,11 +265,11 @@ impl<'a> EventContext<'a> {
     pub(crate) fn do_plugin_cmd_sync(&mut self, _plugin: PluginId, cmd: PluginRequest) -> Value {
         use self::PluginRequest::*;
         match cmd {
-            LineCount => json!(self.editor.borrow().plugin_n_lines()),
+            LineCount {} => json!(self.editor.borrow().plugin_n_lines()),
             GetData { start, unit, max_size, rev } => {
                 json!(self.editor.borrow().plugin_get_data(start, unit, max_size, rev))
             }
-            GetSelections => json!("not implemented"),
+            GetSelections {} => json!("not implemented"),
         }
     }
 
diff --git a/rust/core-lib/src/plugins/rpc.rs b/rust/core-lib/src/plugins/rpc.rs
index 1cd163e..f8fedd0 100644
--- a/rust/core-lib/src/plugins/rpc.rs
+++ b/rust/core-lib/src/plugins/rpc.rs
@@ -178,8 +178,8 @@ pub enum TextUnit {
 /// RPC requests sent from plugins.
 pub enum PluginRequest {
     GetData { start: usize, unit: TextUnit, max_size: usize, rev: u64 },
-    LineCount,
-    GetSelections,
+    LineCount {},
+    GetSelections {},
 }
 
 #[derive(Serialize, Deserialize, Debug, Clone)]
-- 
2.43.0


From 6fba49835183c433ab73409350fd56b42dc8d783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:34 +0000
Subject: [PATCH 067/111] fix: an empty stack of scopes from a plugin panicked
 the core

---
 rust/core-lib/src/layers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/core-lib/src/layers.rs b/rust/core-lib/src/layers.rs
index eda38e1..d4432d0 100644
--- a/rust/core-lib/src/layers.rs
+++ b/rust/core-lib/src/layers.rs
@@ -240,7 +240,7 @@ impl ScopeLayer {
 
             // walk backwards through stack to see if we have an existing
             // style for any child stacks.
-            for i in 0..stack.len() - 1 {
+            for i in 0..stack.len().saturating_sub(1) {
                 let prev_range = 0..stack.len() - (i + 1);
                 if let Some(s) = self.style_cache.get(&stack[prev_range]) {
                     last_style = Some(*s);
-- 
2.43.0


From e6ee17165616d2a034133e38583bb4d7a7d2f76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:34 +0000
Subject: [PATCH 068/111] fix: after a change of theme text was styled by the
 old one

---
 rust/core-lib/src/layers.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rust/core-lib/src/layers.rs b/rust/core-lib/src/layers.rs
index d4432d0..21fd5e3 100644
--- a/rust/core-lib/src/layers.rs
+++ b/rust/core-lib/src/layers.rs
@@ -191,7 +191,8 @@ impl ScopeLayer {
     }
 
     fn theme_changed(&mut self, style_map: &ThemeStyleMap) {
-        // recompute styles with the new theme
+        // recompute styles with the new theme; those cached are of the old one
+        self.style_cache.clear();
         let cur_stacks = self.stack_lookup.clone();
         self.style_lookup = self.styles_for_stacks(&cur_stacks, style_map);
         let iv_all = Interval::new(0, self.style_spans.len());
-- 
2.43.0


From 983015e091dc6f46df65de1181152d14611e5a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:27 +0000
Subject: [PATCH 069/111] fix: annotations of a part of the text were shown at
 its beginning

---
 rust/core-lib/src/annotations.rs | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/rust/core-lib/src/annotations.rs b/rust/core-lib/src/annotations.rs
index 5143d52..27ab1ab 100644
--- a/rust/core-lib/src/annotations.rs
+++ b/rust/core-lib/src/annotations.rs
@@ -23,7 +23,7 @@ use std::collections::HashMap;
 use crate::line_offset::LineOffset;
 use crate::plugins::PluginId;
 use crate::view::View;
-use crate::xi_rope::spans::Spans;
+use crate::xi_rope::spans::{Spans, SpansBuilder};
 use crate::xi_rope::{Interval, Rope};
 
 #[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
@@ -94,6 +94,11 @@ pub struct Annotations {
 impl Annotations {
     /// Update the annotations in `interval` with the provided `items`.
     pub fn update(&mut self, interval: Interval, items: Spans<Value>) {
+        let len = self.items.len();
+        if len < interval.end() {
+            // there are no annotations that far yet
+            self.items.edit(len..len, SpansBuilder::new(interval.end() - len).build());
+        }
         self.items.edit(interval, items);
     }
 
@@ -161,18 +166,15 @@ impl AnnotationStore {
 
     /// Applies an update from a plugin to a set of annotations
     pub fn update(&mut self, source: PluginId, interval: Interval, item: Annotations) {
-        if !self.store.contains_key(&source) {
-            self.store.insert(source, vec![item]);
-            return;
-        }
-
-        let entry = self.store.get_mut(&source).unwrap();
-        if let Some(annotation) =
-            entry.iter_mut().find(|a| a.annotation_type == item.annotation_type)
-        {
-            annotation.update(interval, item.items);
+        let Annotations { items, annotation_type } = item;
+        let entry = self.store.entry(source).or_insert_with(Vec::new);
+        if let Some(annotation) = entry.iter_mut().find(|a| a.annotation_type == annotation_type) {
+            annotation.update(interval, items);
         } else {
-            entry.push(item);
+            // the items are relative to the start of the interval
+            let mut annotation = Annotations { items: Spans::default(), annotation_type };
+            annotation.update(interval, items);
+            entry.push(annotation);
         }
     }
 
-- 
2.43.0


From 132841755fbfa348f56fd45cfc636744816ee500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:27 +0000
Subject: [PATCH 070/111] fix: annotations after an edit stayed where they were

---
 rust/rope/src/spans.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/rust/rope/src/spans.rs b/rust/rope/src/spans.rs
index be42007..7223052 100644
--- a/rust/rope/src/spans.rs
+++ b/rust/rope/src/spans.rs
@@ -313,13 +313,9 @@ impl<T: Clone> Spans<T> {
         let mut builder = SpansBuilder::new(self.len());
 
         for (iv, data) in self.iter() {
-            // check if spans overlaps with interval
-            if iv.intersect(interval).is_empty() {
-                // keep the ones that are not overlapping
+            // keep the ones that end before the interval
+            if iv.end() <= interval.start() {
                 builder.add_span(iv, data.clone());
-            } else {
-                // all remaining spans are invalid
-                break;
             }
         }
         *self = builder.build();
-- 
2.43.0


From 46bc8c72b1a45c33c0e95c3cb06912c9357ca9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:27 +0000
Subject: [PATCH 071/111] fix: annotations of a plugin stayed after it had
 stopped

---
 rust/core-lib/src/annotations.rs   | 6 +++---
 rust/core-lib/src/event_context.rs | 3 ++-
 rust/core-lib/src/view.rs          | 5 +++++
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/rust/core-lib/src/annotations.rs b/rust/core-lib/src/annotations.rs
index 27ab1ab..03e0a4a 100644
--- a/rust/core-lib/src/annotations.rs
+++ b/rust/core-lib/src/annotations.rs
@@ -217,9 +217,9 @@ impl AnnotationStore {
         })
     }
 
-    /// Removes any annotations provided by this plugin
-    pub fn clear(&mut self, plugin: PluginId) {
-        self.store.remove(&plugin);
+    /// Removes any annotations provided by this plugin. Returns whether there were any.
+    pub fn clear(&mut self, plugin: PluginId) -> bool {
+        self.store.remove(&plugin).is_some()
     }
 }
 
diff --git a/rust/core-lib/src/event_context.rs b/rust/core-lib/src/event_context.rs
index 42217ed..5d5d7cf 100644
--- a/rust/core-lib/src/event_context.rs
+++ b/rust/core-lib/src/event_context.rs
@@ -531,11 +531,12 @@ impl<'a> EventContext<'a> {
     pub(crate) fn plugin_stopped(&mut self, plugin: &Plugin) {
         self.client.plugin_stopped(self.view_id, &plugin.name, 0);
         let needs_render = self.with_editor(|ed, view, _, _| {
+            let had_annotations = view.clear_annotations(plugin.id);
             if ed.get_layers_mut().remove_layer(plugin.id).is_some() {
                 view.set_dirty(ed.get_buffer());
                 true
             } else {
-                false
+                had_annotations
             }
         });
         if needs_render {
diff --git a/rust/core-lib/src/view.rs b/rust/core-lib/src/view.rs
index e5f0201..847bb02 100644
--- a/rust/core-lib/src/view.rs
+++ b/rust/core-lib/src/view.rs
@@ -469,6 +469,11 @@ impl View {
         self.annotations.update(plugin, interval, annotations)
     }
 
+    /// Removes the annotations of a plugin. Returns whether there were any.
+    pub fn clear_annotations(&mut self, plugin: PluginId) -> bool {
+        self.annotations.clear(plugin)
+    }
+
     /// Select entire buffer.
     ///
     /// Note: unlike movement based selection, this does not scroll.
-- 
2.43.0


From 93fb31afc7fabcdf3f7d68a3526f6a6d79b1a165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:27 +0000
Subject: [PATCH 072/111] fix: scopes got no style unless their parents had
 been added before

---
 rust/core-lib/src/layers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/core-lib/src/layers.rs b/rust/core-lib/src/layers.rs
index 21fd5e3..354e53d 100644
--- a/rust/core-lib/src/layers.rs
+++ b/rust/core-lib/src/layers.rs
@@ -237,7 +237,7 @@ impl ScopeLayer {
 
         for stack in stacks {
             let mut last_style: Option<StyleModifier> = None;
-            let mut upper_bound_of_last = stack.len() as usize;
+            let mut upper_bound_of_last = 0;
 
             // walk backwards through stack to see if we have an existing
             // style for any child stacks.
-- 
2.43.0


From 1820b074b31955f16a9d75ff97df16aebab7880b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:27 +0000
Subject: [PATCH 073/111] fix: a deletion split styled spans within characters

---
 rust/core-lib/src/layers.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/core-lib/src/layers.rs b/rust/core-lib/src/layers.rs
index 354e53d..f1e879b 100644
--- a/rust/core-lib/src/layers.rs
+++ b/rust/core-lib/src/layers.rs
@@ -81,8 +81,8 @@ impl Layers {
         for layer in self.layers.values_mut() {
             layer.blank_scopes(delta);
         }
-        let (iv, _len) = delta.summary();
-        self.resolve_styles(iv);
+        let (iv, new_len) = delta.summary();
+        self.resolve_styles(Interval::new(iv.start(), iv.start() + new_len));
     }
 
     /// Updates the scope spans for a given layer.
-- 
2.43.0


From 48c0a9f2cd8755ed0addafd18e8bfa741e58e702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:55 +0000
Subject: [PATCH 074/111] fix: spans for an old revision displaced those after
 text inserted behind them

---
 rust/core-lib/src/editor.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/rust/core-lib/src/editor.rs b/rust/core-lib/src/editor.rs
index 6cef290..e8f9574 100644
--- a/rust/core-lib/src/editor.rs
+++ b/rust/core-lib/src/editor.rs
@@ -616,11 +616,14 @@ impl Editor {
             if let Ok(delta) = self.engine.try_delta_rev_head(rev) {
                 let mut transformer = Transformer::new(&delta);
                 let new_start = transformer.transform(start, false);
-                if !transformer.interval_untouched(Interval::new(start, end_offset)) {
+                if transformer.interval_untouched(Interval::new(start, end_offset)) {
+                    // text inserted right after the interval is not part of it
+                    end_offset = new_start + len;
+                } else {
                     spans = spans.transform(start, end_offset, &mut transformer);
+                    end_offset = transformer.transform(end_offset, true);
                 }
                 start = new_start;
-                end_offset = transformer.transform(end_offset, true);
             } else {
                 error!("Revision {} not found", rev);
             }
@@ -653,11 +656,14 @@ impl Editor {
             if let Ok(delta) = self.engine.try_delta_rev_head(rev) {
                 let mut transformer = Transformer::new(&delta);
                 let new_start = transformer.transform(start, false);
-                if !transformer.interval_untouched(Interval::new(start, end_offset)) {
+                if transformer.interval_untouched(Interval::new(start, end_offset)) {
+                    // text inserted right after the interval is not part of it
+                    end_offset = new_start + len;
+                } else {
                     spans = spans.transform(start, end_offset, &mut transformer);
+                    end_offset = transformer.transform(end_offset, true);
                 }
                 start = new_start;
-                end_offset = transformer.transform(end_offset, true);
             } else {
                 error!("Revision {} not found", rev);
             }
-- 
2.43.0


From 74e3356d676fabb0376a2be1e5dbba975158ba4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:30 +0000
Subject: [PATCH 075/111] fix: a status item of a plugin that was stopped
 panicked the core

---
 rust/core-lib/src/tabs.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/rust/core-lib/src/tabs.rs b/rust/core-lib/src/tabs.rs
index 85d66a5..253df03 100644
--- a/rust/core-lib/src/tabs.rs
+++ b/rust/core-lib/src/tabs.rs
@@ -949,6 +949,11 @@ impl CoreState {
         }
     }
 
+    /// What a plugin sent before it was stopped may still arrive.
+    fn is_running(&self, id: PluginId) -> bool {
+        self.running_plugins.iter().any(|p| p.id == id)
+    }
+
     /// Handles the response to a sync update sent to a plugin.
     pub(crate) fn plugin_update(
         &mut self,
@@ -968,6 +973,10 @@ impl CoreState {
         plugin_id: PluginId,
         cmd: PluginNotification,
     ) {
+        if !self.is_running(plugin_id) {
+            warn!("ignoring a notification of {}, which is not running", plugin_id);
+            return;
+        }
         if let Some(mut edit_ctx) = self.make_context(view_id) {
             edit_ctx.do_plugin_cmd(plugin_id, cmd)
         }
@@ -980,6 +989,9 @@ impl CoreState {
         plugin_id: PluginId,
         cmd: PluginRequest,
     ) -> Result<Value, RemoteError> {
+        if !self.is_running(plugin_id) {
+            return Err(RemoteError::custom(404, "plugin is not running", None));
+        }
         if let Some(mut edit_ctx) = self.make_context(view_id) {
             Ok(edit_ctx.do_plugin_cmd_sync(plugin_id, cmd))
         } else {
-- 
2.43.0


From a9f9a41ecdeb84d84ca460da96e45aeb191f2b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:32 +0000
Subject: [PATCH 076/111] fix: invalid spans from a plugin panicked the core or
 were shown somewhere

---
 rust/core-lib/src/editor.rs | 106 ++++++++++++++++++++----------------
 1 file changed, 60 insertions(+), 46 deletions(-)

diff --git a/rust/core-lib/src/editor.rs b/rust/core-lib/src/editor.rs
index e8f9574..1334f08 100644
--- a/rust/core-lib/src/editor.rs
+++ b/rust/core-lib/src/editor.rs
@@ -21,7 +21,7 @@ use serde_json::Value;
 use xi_rope::diff::{Diff, LineHashDiff};
 use xi_rope::engine::{Engine, RevId, RevToken};
 use xi_rope::rope::count_newlines;
-use xi_rope::spans::SpansBuilder;
+use xi_rope::spans::{Spans, SpansBuilder};
 use xi_rope::{DeltaBuilder, Interval, LinesMetric, Rope, RopeDelta, Transformer};
 use xi_trace::{trace_block, trace_payload};
 
@@ -604,33 +604,13 @@ impl Editor {
         rev: RevToken,
     ) {
         let _t = trace_block("Editor::update_spans", &["core"]);
-        // TODO: more protection against invalid input
-        let mut start = start;
-        let mut end_offset = start + len;
-        let mut sb = SpansBuilder::new(len);
-        for span in spans {
-            sb.add_span(Interval::new(span.start, span.end), span.scope_id);
-        }
-        let mut spans = sb.build();
-        if rev != self.engine.get_head_rev_id().token() {
-            if let Ok(delta) = self.engine.try_delta_rev_head(rev) {
-                let mut transformer = Transformer::new(&delta);
-                let new_start = transformer.transform(start, false);
-                if transformer.interval_untouched(Interval::new(start, end_offset)) {
-                    // text inserted right after the interval is not part of it
-                    end_offset = new_start + len;
-                } else {
-                    spans = spans.transform(start, end_offset, &mut transformer);
-                    end_offset = transformer.transform(end_offset, true);
-                }
-                start = new_start;
-            } else {
-                error!("Revision {} not found", rev);
-            }
-        }
-        let iv = Interval::new(start, end_offset);
+        let spans = spans.into_iter().map(|s| (s.start, s.end, s.scope_id)).collect();
+        let (iv, spans) = match self.spans_at_head(start, len, spans, rev) {
+            Some(at_head) => at_head,
+            None => return error!("invalid spans from {}", plugin),
+        };
         self.layers.update_layer(plugin, iv, spans);
-        view.invalidate_styles(&self.text, start, end_offset);
+        view.invalidate_styles(&self.text, iv.start(), iv.end());
     }
 
     pub fn update_annotations(
@@ -645,31 +625,65 @@ impl Editor {
     ) {
         let _t = trace_block("Editor::update_annotations", &["core"]);
 
-        let mut start = start;
-        let mut end_offset = start + len;
+        let spans = annotation_spans.into_iter().map(|s| (s.start, s.end, s.data)).collect();
+        let (iv, spans) = match self.spans_at_head(start, len, spans, rev) {
+            Some(at_head) => at_head,
+            None => return error!("invalid annotations from {}", plugin),
+        };
+        view.update_annotations(plugin, iv, Annotations { items: spans, annotation_type });
+    }
+
+    /// Moves the spans that a plugin gave for the `len` bytes from `start` of revision `rev`
+    /// to where that text is now. Returns `None` if they are not valid.
+    fn spans_at_head<T: Clone>(
+        &self,
+        start: usize,
+        len: usize,
+        items: Vec<(usize, usize, T)>,
+        rev: RevToken,
+    ) -> Option<(Interval, Spans<T>)> {
+        let delta = if rev == self.engine.get_head_rev_id().token() {
+            None
+        } else {
+            Some(self.engine.try_delta_rev_head(rev).ok()?)
+        };
+        let rev_len = delta.as_ref().map_or(self.text.len(), |d| d.base_len);
+        let end = start.checked_add(len).filter(|end| *end <= rev_len)?;
+
         let mut sb = SpansBuilder::new(len);
-        for span in annotation_spans {
-            sb.add_span(Interval::new(span.start, span.end), span.data);
+        let mut prev_start = 0;
+        for (s, e, data) in items {
+            if s < prev_start || e < s || e > len {
+                return None;
+            }
+            prev_start = s;
+            sb.add_span(Interval::new(s, e), data);
         }
         let mut spans = sb.build();
-        if rev != self.engine.get_head_rev_id().token() {
-            if let Ok(delta) = self.engine.try_delta_rev_head(rev) {
-                let mut transformer = Transformer::new(&delta);
-                let new_start = transformer.transform(start, false);
-                if transformer.interval_untouched(Interval::new(start, end_offset)) {
-                    // text inserted right after the interval is not part of it
-                    end_offset = new_start + len;
-                } else {
-                    spans = spans.transform(start, end_offset, &mut transformer);
-                    end_offset = transformer.transform(end_offset, true);
-                }
-                start = new_start;
+        let mut iv = Interval::new(start, end);
+        if let Some(delta) = delta {
+            let mut transformer = Transformer::new(&delta);
+            let new_start = transformer.transform(start, false);
+            if transformer.interval_untouched(iv) {
+                // text inserted right after the interval is not part of it
+                iv = Interval::new(new_start, new_start + len);
             } else {
-                error!("Revision {} not found", rev);
+                spans = spans.transform(start, end, &mut transformer);
+                iv = Interval::new(new_start, transformer.transform(end, true));
             }
         }
-        let iv = Interval::new(start, end_offset);
-        view.update_annotations(plugin, iv, Annotations { items: spans, annotation_type });
+
+        let is_boundary = |offset| self.text.is_codepoint_boundary(offset);
+        let valid = is_boundary(iv.start())
+            && is_boundary(iv.end())
+            && spans.iter().all(|(span, _)| {
+                is_boundary(iv.start() + span.start()) && is_boundary(iv.start() + span.end())
+            });
+        if valid {
+            Some((iv, spans))
+        } else {
+            None
+        }
     }
 
     pub(crate) fn get_rev(&self, rev: RevToken) -> Option<Cow<Rope>> {
-- 
2.43.0


From cfbf453a8d507cb90c10cbe96dac14885fc4bbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:32 +0000
Subject: [PATCH 077/111] fix: an unknown scope in spans of a plugin panicked
 the core

---
 rust/core-lib/src/layers.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rust/core-lib/src/layers.rs b/rust/core-lib/src/layers.rs
index f1e879b..e799627 100644
--- a/rust/core-lib/src/layers.rs
+++ b/rust/core-lib/src/layers.rs
@@ -90,7 +90,12 @@ impl Layers {
         if self.create_if_missing(layer).is_err() {
             return;
         }
-        self.layers.get_mut(&layer).unwrap().update_scopes(iv, &spans);
+        let scope_layer = self.layers.get_mut(&layer).unwrap();
+        if spans.iter().any(|(_, id)| *id as usize >= scope_layer.style_lookup.len()) {
+            error!("spans of {} refer to scopes it has not added", layer);
+            return;
+        }
+        scope_layer.update_scopes(iv, &spans);
         self.resolve_styles(iv);
     }
 
-- 
2.43.0


From 29e32da8833117014d963622f334ab40a3cc492a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:09 +0000
Subject: [PATCH 078/111] fix: an invalid edit of a plugin panicked the core or
 broke the text

---
 rust/core-lib/src/editor.rs | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/rust/core-lib/src/editor.rs b/rust/core-lib/src/editor.rs
index 1334f08..e02f30d 100644
--- a/rust/core-lib/src/editor.rs
+++ b/rust/core-lib/src/editor.rs
@@ -22,7 +22,7 @@ use xi_rope::diff::{Diff, LineHashDiff};
 use xi_rope::engine::{Engine, RevId, RevToken};
 use xi_rope::rope::count_newlines;
 use xi_rope::spans::{Spans, SpansBuilder};
-use xi_rope::{DeltaBuilder, Interval, LinesMetric, Rope, RopeDelta, Transformer};
+use xi_rope::{DeltaBuilder, DeltaElement, Interval, LinesMetric, Rope, RopeDelta, Transformer};
 use xi_trace::{trace_block, trace_payload};
 
 use crate::annotations::{AnnotationType, Annotations};
@@ -234,6 +234,9 @@ impl Editor {
         let _t = trace_block("Editor::apply_plugin_edit", &["core"]);
         //TODO: get priority working, so that plugin edits don't necessarily move cursor
         let PluginEdit { rev, delta, priority, undo_group, .. } = edit;
+        if !self.is_valid_delta(rev, &delta) {
+            return error!("invalid delta for revision {} from {}", rev, edit.author);
+        }
         let priority = priority as usize;
         let undo_group = undo_group.unwrap_or_else(|| self.calculate_undo_group());
         match self.engine.try_edit_rev(priority, undo_group, rev, delta) {
@@ -242,6 +245,28 @@ impl Editor {
         };
     }
 
+    /// Whether `delta` can be applied to revision `rev`.
+    fn is_valid_delta(&self, rev: RevToken, delta: &RopeDelta) -> bool {
+        let text = match self.get_rev(rev) {
+            Some(text) => text,
+            None => return false,
+        };
+        let mut copied = 0;
+        delta.base_len == text.len()
+            && delta.els.iter().all(|el| match *el {
+                DeltaElement::Copy(start, end) => {
+                    let valid = copied <= start
+                        && start < end
+                        && end <= text.len()
+                        && text.is_codepoint_boundary(start)
+                        && text.is_codepoint_boundary(end);
+                    copied = end;
+                    valid
+                }
+                DeltaElement::Insert(ref text) => !text.is_empty(),
+            })
+    }
+
     /// Commits the current delta. If the buffer has changed, returns
     /// a 3-tuple containing the delta representing the changes, the previous
     /// buffer, and an `InsertDrift` enum describing the correct selection update
-- 
2.43.0


From 55b0d62554a6a944fe5155201e5654932d313ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:11 +0000
Subject: [PATCH 079/111] fix: an empty span from a plugin was shown as a style
 of length 0

---
 rust/core-lib/src/editor.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rust/core-lib/src/editor.rs b/rust/core-lib/src/editor.rs
index e02f30d..7d15e9e 100644
--- a/rust/core-lib/src/editor.rs
+++ b/rust/core-lib/src/editor.rs
@@ -629,7 +629,11 @@ impl Editor {
         rev: RevToken,
     ) {
         let _t = trace_block("Editor::update_spans", &["core"]);
-        let spans = spans.into_iter().map(|s| (s.start, s.end, s.scope_id)).collect();
+        let spans = spans
+            .into_iter()
+            .filter(|s| s.start != s.end)
+            .map(|s| (s.start, s.end, s.scope_id))
+            .collect();
         let (iv, spans) = match self.spans_at_head(start, len, spans, rev) {
             Some(at_head) => at_head,
             None => return error!("invalid spans from {}", plugin),
-- 
2.43.0


From 2a63c3eb77530af78b11575216d42a49cb39733a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:46 +0000
Subject: [PATCH 080/111] fix: empty spans got lost and unbalanced the tree of
 spans

---
 rust/rope/src/spans.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rust/rope/src/spans.rs b/rust/rope/src/spans.rs
index 7223052..c8d199b 100644
--- a/rust/rope/src/spans.rs
+++ b/rust/rope/src/spans.rs
@@ -70,8 +70,12 @@ impl<T: Clone> Leaf for SpansLeaf<T> {
         let iv_start = iv.start();
         for span in &other.spans {
             let span_iv = span.iv.intersect(iv).translate_neg(iv_start).translate(self.len);
+            // an empty span belongs to what follows it
+            let is_empty_inside = span.iv.is_empty()
+                && iv_start <= span.iv.start()
+                && (span.iv.start() < iv.end() || iv.end() == other.len);
 
-            if !span_iv.is_empty() {
+            if !span_iv.is_empty() || is_empty_inside {
                 self.spans.push(Span { iv: span_iv, data: span.data.clone() });
             }
         }
-- 
2.43.0


From d5b5470a3336dbb0fac94f94ddb5cc6826315235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:54 +0000
Subject: [PATCH 081/111] fix: asking a plugin's cache for text beyond the end
 never returned

---
 rust/plugin-lib/src/base_cache.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rust/plugin-lib/src/base_cache.rs b/rust/plugin-lib/src/base_cache.rs
index ba42125..19022df 100644
--- a/rust/plugin-lib/src/base_cache.rs
+++ b/rust/plugin-lib/src/base_cache.rs
@@ -120,6 +120,9 @@ impl Cache for ChunkCache {
         I: IntervalBounds,
     {
         let Interval { start, end } = interval.into_interval(self.buf_size);
+        if start > end || end > self.buf_size {
+            return Err(Error::BadRequest);
+        }
         if self.contents.is_empty()
             || start < self.offset
             || start >= self.offset + self.contents.len()
-- 
2.43.0


From fa717a93258095cd256a6ad2691bca3a2b58bb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:54 +0000
Subject: [PATCH 082/111] fix: lines still to be analysed were forgotten after
 edits at other places

---
 rust/plugin-lib/src/state_cache.rs | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/rust/plugin-lib/src/state_cache.rs b/rust/plugin-lib/src/state_cache.rs
index dbb1bf7..99c79bf 100644
--- a/rust/plugin-lib/src/state_cache.rs
+++ b/rust/plugin-lib/src/state_cache.rs
@@ -299,29 +299,26 @@ impl<S: Clone + Default> StateCache<S> {
         }
     }
 
+    /// Updates the frontier after a simple edit; `cache_idx` is the index of the
+    /// first entry after the edit, which has already been adjusted. Work needs to
+    /// be done from the entry before the edit; that includes any that was needed
+    /// from there up to the entry after it, where it may stop. Work needed from
+    /// further on stays needed.
     fn patchup_frontier(&mut self, cache_idx: usize, nl_count_delta: isize) {
         let line_num = match cache_idx {
             0 => 0,
             ix => self.state_cache[ix - 1].line_num,
         };
-        let mut new_frontier = Vec::new();
-        let mut need_push = true;
+        let next_line_num = self.state_cache.get(cache_idx).map(|entry| entry.line_num);
+        let mut new_frontier: Vec<usize> =
+            self.frontier.iter().cloned().take_while(|old_ln| *old_ln < line_num).collect();
+        new_frontier.push(line_num);
         for old_ln in &self.frontier {
-            if *old_ln < line_num {
-                new_frontier.push(*old_ln);
-            } else if need_push {
-                new_frontier.push(line_num);
-                need_push = false;
-                if let Some(ref entry) = self.state_cache.get(cache_idx) {
-                    if *old_ln >= entry.line_num {
-                        new_frontier.push(old_ln.wrapping_add(nl_count_delta as usize));
-                    }
-                }
+            let new_ln = *old_ln as isize + nl_count_delta;
+            if next_line_num.map(|next| new_ln >= next as isize).unwrap_or(false) {
+                new_frontier.push(new_ln as usize);
             }
         }
-        if need_push {
-            new_frontier.push(line_num);
-        }
         self.frontier = new_frontier;
     }
 
-- 
2.43.0


From 7078bba92ab4aae8fc8f900266eab99b1c6b8f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:32 +0000
Subject: [PATCH 083/111] fix: a plugin panicked when a line it gave a state
 could not be looked up

---
 rust/plugin-lib/src/state_cache.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/rust/plugin-lib/src/state_cache.rs b/rust/plugin-lib/src/state_cache.rs
index 99c79bf..5e1dc69 100644
--- a/rust/plugin-lib/src/state_cache.rs
+++ b/rust/plugin-lib/src/state_cache.rs
@@ -158,7 +158,8 @@ impl<S: Clone + Default> StateCache<S> {
 
     /// Get the cache entry at the given line number, creating it if necessary.
     /// Returns None if line_num > number of newlines in doc (ie if it references
-    /// the end of the partial line at EOF).
+    /// the end of the partial line at EOF), or if `source` has no answer (the view
+    /// may have been closed).
     fn get_entry<DS>(&mut self, source: &DS, line_num: usize) -> Option<&mut CacheEntry<S>>
     where
         DS: DataSource,
@@ -169,10 +170,7 @@ impl<S: Clone + Default> StateCache<S> {
                 if line_num == self.buf_cache.num_lines {
                     None
                 } else {
-                    let offset = self
-                        .buf_cache
-                        .offset_of_line(source, line_num)
-                        .expect("get_entry should validate inputs");
+                    let offset = self.buf_cache.offset_of_line(source, line_num).ok()?;
                     let new_ix = self.insert_entry(line_num, offset, None);
                     Some(&mut self.state_cache[new_ix])
                 }
-- 
2.43.0


From ce3ac3cf408fd3ecfb985fa57c2a3836b5e33e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:17 +0000
Subject: [PATCH 084/111] fix: highlighting of a file just opened was put at
 wrong places

The merged layers of styles began with no length instead of that of the text.
---
 rust/core-lib/src/editor.rs | 3 ++-
 rust/core-lib/src/layers.rs | 5 +++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/rust/core-lib/src/editor.rs b/rust/core-lib/src/editor.rs
index 7d15e9e..f7ea01a 100644
--- a/rust/core-lib/src/editor.rs
+++ b/rust/core-lib/src/editor.rs
@@ -96,6 +96,7 @@ impl Editor {
         let engine = Engine::new(text.into());
         let buffer = engine.get_head().clone();
         let last_rev_id = engine.get_head_rev_id();
+        let layers = Layers::new(buffer.len());
 
         Editor {
             text: buffer,
@@ -113,7 +114,7 @@ impl Editor {
             force_undo_group: false,
             last_edit_type: EditType::Other,
             this_edit_type: EditType::Other,
-            layers: Layers::default(),
+            layers,
             revs_in_flight: 0,
             sync_store: None,
             last_synced_rev: last_rev_id,
diff --git a/rust/core-lib/src/layers.rs b/rust/core-lib/src/layers.rs
index e799627..af6250e 100644
--- a/rust/core-lib/src/layers.rs
+++ b/rust/core-lib/src/layers.rs
@@ -52,6 +52,11 @@ pub struct ScopeLayer {
 }
 
 impl Layers {
+    /// Layers for a document of `len` bytes.
+    pub fn new(len: usize) -> Self {
+        Layers { merged: SpansBuilder::new(len).build(), ..Default::default() }
+    }
+
     pub fn get_merged(&self) -> &Spans<Style> {
         &self.merged
     }
-- 
2.43.0


From 157534899220229dde7d4476932211e51fcc72af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:23 +0000
Subject: [PATCH 085/111] fix: invalid defaults for a language in a plugin's
 folder panicked the core

---
 rust/core-lib/src/config.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rust/core-lib/src/config.rs b/rust/core-lib/src/config.rs
index 58d5675..af98877 100644
--- a/rust/core-lib/src/config.rs
+++ b/rust/core-lib/src/config.rs
@@ -414,7 +414,13 @@ impl ConfigManager {
         for language in languages.iter() {
             let lang_id = language.name.clone();
             let domain: ConfigDomain = lang_id.into();
-            let default_config = language.default_config.clone();
+            let default_config = language.default_config.clone().filter(|table| {
+                let checked = self.check_table(table);
+                if let Err(e) = checked.as_ref() {
+                    error!("ignoring invalid defaults of {:?}: {}", language.name, e);
+                }
+                checked.is_ok()
+            });
             self.configs
                 .entry(domain.clone())
                 .and_modify(|c| *c = c.new_with_base(default_config.clone()))
-- 
2.43.0


From 0e9c95549d98985d248a25c7e7834e2cc58f0bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:05 +0000
Subject: [PATCH 086/111] fix: a deletion removed other text from the language
 server's document

---
 rust/lsp-lib/src/utils.rs | 31 +++----------------------------
 1 file changed, 3 insertions(+), 28 deletions(-)

diff --git a/rust/lsp-lib/src/utils.rs b/rust/lsp-lib/src/utils.rs
index 8537d21..b6952b2 100644
--- a/rust/lsp-lib/src/utils.rs
+++ b/rust/lsp-lib/src/utils.rs
@@ -37,9 +37,8 @@ pub fn get_document_content_changes<C: Cache>(
 ) -> Result<Vec<TextDocumentContentChangeEvent>, PluginLibError> {
     if let Some(delta) = delta {
         let (interval, _) = delta.summary();
-        let (start, end) = interval.start_end();
 
-        // TODO: Handle more trivial cases like typing when there's a selection or transpose
+        // TODO: Handle more trivial cases like deleting, typing when there's a selection or transpose
         if let Some(node) = delta.as_simple_insert() {
             let text = String::from(node);
 
@@ -55,32 +54,8 @@ pub fn get_document_content_changes<C: Cache>(
 
             return Ok(vec![text_document_content_change_event]);
         }
-        // Or a simple delete
-        else if delta.is_simple_delete() {
-            let mut end_position = get_position_of_offset(view, end)?;
-
-            // Hack around sending VSCode Style Positions to Language Server.
-            // See this issue to understand: https://github.com/Microsoft/vscode/issues/23173
-            if end_position.character == 0 {
-                // There is an assumption here that the line separator character is exactly
-                // 1 byte wide which is true for "\n" but it will be an issue if they are not
-                // for example for u+2028
-                let mut ep = get_position_of_offset(view, end - 1)?;
-                ep.character += 1;
-                end_position = ep;
-            }
-
-            let text_document_content_change_event = TextDocumentContentChangeEvent {
-                range: Some(Range {
-                    start: get_position_of_offset(view, start)?,
-                    end: end_position,
-                }),
-                range_length: Some((end - start) as u64),
-                text: String::new(),
-            };
-
-            return Ok(vec![text_document_content_change_event]);
-        }
+        // The range of a deletion would have to be given in positions of the old document,
+        // which is gone.
     }
 
     let text_document_content_change_event = TextDocumentContentChangeEvent {
-- 
2.43.0


From 702cd438011dd735e2976cdde10300115c8cc187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:05 +0000
Subject: [PATCH 087/111] fix: events before a language server was initialized
 panicked the plugin or were lost

---
 rust/lsp-lib/src/language_server_client.rs | 48 ++++++++++++++++++++--
 rust/lsp-lib/src/lsp_plugin.rs             | 26 ++++++++----
 2 files changed, 64 insertions(+), 10 deletions(-)

diff --git a/rust/lsp-lib/src/language_server_client.rs b/rust/lsp-lib/src/language_server_client.rs
index c0db1ef..4c8549d 100644
--- a/rust/lsp-lib/src/language_server_client.rs
+++ b/rust/lsp-lib/src/language_server_client.rs
@@ -39,6 +39,9 @@ pub struct LanguageServerClient {
     pub core: CoreProxy,
     pub is_initialized: bool,
     pub opened_documents: HashMap<ViewId, Url>,
+    /// Documents with their current text, to be opened when the server is initialized.
+    waiting_documents: HashMap<ViewId, (Url, String)>,
+    initialize_sent: bool,
     pub server_capabilities: Option<ServerCapabilities>,
     pub file_extensions: Vec<String>,
 }
@@ -78,6 +81,8 @@ impl LanguageServerClient {
             language_id,
             server_capabilities: None,
             opened_documents: HashMap::new(),
+            waiting_documents: HashMap::new(),
+            initialize_sent: false,
             file_extensions,
         }
     }
@@ -188,6 +193,7 @@ impl LanguageServerClient {
     where
         CB: 'static + Send + FnOnce(&mut LanguageServerClient, Result<Value, Error>),
     {
+        self.initialize_sent = true;
         let client_capabilities = ClientCapabilities::default();
 
         let init_params = InitializeParams {
@@ -204,6 +210,40 @@ impl LanguageServerClient {
         self.send_request("initialize", params, Box::new(on_init));
     }
 
+    /// Whether the initialize request has been sent.
+    pub fn is_initialize_sent(&self) -> bool {
+        self.initialize_sent
+    }
+
+    /// Whether the server has been told of the document of this view.
+    pub fn is_open(&self, view_id: ViewId) -> bool {
+        self.opened_documents.contains_key(&view_id)
+    }
+
+    /// Opens the document, at once or as soon as the server is initialized.
+    pub fn open_document(&mut self, view_id: ViewId, document_uri: Url, document_text: String) {
+        if self.is_initialized {
+            self.send_did_open(view_id, document_uri, document_text);
+        } else {
+            self.waiting_documents.insert(view_id, (document_uri, document_text));
+        }
+    }
+
+    /// Takes in the result of the initialize request: opens the documents that waited for it.
+    pub fn set_initialized(&mut self, capabilities: ServerCapabilities) {
+        self.server_capabilities = Some(capabilities);
+        self.is_initialized = true;
+        let waiting: Vec<_> = self.waiting_documents.drain().collect();
+        for (view_id, (document_uri, document_text)) in waiting {
+            self.send_did_open(view_id, document_uri, document_text);
+        }
+    }
+
+    /// The text of a document that waits to be opened.
+    pub fn waiting_text(&mut self, view_id: ViewId) -> Option<&mut String> {
+        self.waiting_documents.get_mut(&view_id).map(|d| &mut d.1)
+    }
+
     /// Send textDocument/didOpen Notification to the Language Server
     pub fn send_did_open(&mut self, view_id: ViewId, document_uri: Url, document_text: String) {
         self.opened_documents.insert(view_id, document_uri.clone());
@@ -223,14 +263,16 @@ impl LanguageServerClient {
 
     /// Send textDocument/didClose Notification to the Language Server
     pub fn send_did_close(&mut self, view_id: ViewId) {
-        let uri = self.opened_documents[&view_id].clone();
+        self.waiting_documents.remove(&view_id);
+        let uri = match self.opened_documents.remove(&view_id) {
+            Some(uri) => uri,
+            None => return,
+        };
         let text_document_did_close_params =
             DidCloseTextDocumentParams { text_document: TextDocumentIdentifier { uri } };
 
         let params = Params::from(serde_json::to_value(text_document_did_close_params).unwrap());
         self.send_notification("textDocument/didClose", params);
-
-        self.opened_documents.remove(&view_id);
     }
 
     /// Send textDocument/didChange Notification to the Language Server
diff --git a/rust/lsp-lib/src/lsp_plugin.rs b/rust/lsp-lib/src/lsp_plugin.rs
index d05122c..8c0d647 100644
--- a/rust/lsp-lib/src/lsp_plugin.rs
+++ b/rust/lsp-lib/src/lsp_plugin.rs
@@ -79,6 +79,12 @@ impl Plugin for LspPlugin {
 
             let sync_kind = ls_client.get_sync_kind();
             view_info.version += 1;
+            if !ls_client.is_open(view.get_id()) {
+                if let Some(text) = ls_client.waiting_text(view.get_id()) {
+                    *text = view.get_document().unwrap();
+                }
+                return;
+            }
             if let Some(changes) = get_change_for_sync_kind(sync_kind, view, delta) {
                 ls_client.send_did_change(view.get_id(), changes, view_info.version);
             }
@@ -90,7 +96,9 @@ impl Plugin for LspPlugin {
 
         let document_text = view.get_document().unwrap();
         self.with_language_server_for_view(view, |ls_client| {
-            ls_client.send_did_save(view.get_id(), &document_text);
+            if ls_client.is_open(view.get_id()) {
+                ls_client.send_did_save(view.get_id(), &document_text);
+            }
         });
     }
 
@@ -133,7 +141,8 @@ impl Plugin for LspPlugin {
 
                 let document_uri = Url::from_file_path(path).unwrap();
 
-                if !ls_client.is_initialized {
+                ls_client.open_document(view_id, document_uri, document_text);
+                if !ls_client.is_initialize_sent() {
                     ls_client.send_initialize(workspace_root_uri, move |ls_client, result| {
                         if let Ok(result) = result {
                             let init_result: InitializeResult =
@@ -141,13 +150,9 @@ impl Plugin for LspPlugin {
 
                             debug!("Init Result: {:?}", init_result);
 
-                            ls_client.server_capabilities = Some(init_result.capabilities);
-                            ls_client.is_initialized = true;
-                            ls_client.send_did_open(view_id, document_uri, document_text);
+                            ls_client.set_initialized(init_result.capabilities);
                         }
                     });
-                } else {
-                    ls_client.send_did_open(view_id, document_uri, document_text);
                 }
             }
         }
@@ -160,6 +165,13 @@ impl Plugin for LspPlugin {
         let position_ls = get_position_of_offset(view, position);
 
         self.with_language_server_for_view(view, |ls_client| match position_ls {
+            Ok(_) if !ls_client.is_open(view_id) => {
+                let err = LanguageResponseError::LanguageServerError(
+                    "the server does not have the document".to_owned(),
+                );
+                ls_client.result_queue.push_result(request_id, LspResponse::Hover(Err(err)));
+                ls_client.core.schedule_idle(view_id);
+            }
             Ok(position) => ls_client.request_hover(view_id, position, move |ls_client, result| {
                 let res = result
                     .map_err(|e| LanguageResponseError::LanguageServerError(format!("{:?}", e)))
-- 
2.43.0


From 9b94177bc3d884acef19523eeeec785638733ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:05 +0000
Subject: [PATCH 088/111] fix: unexpected messages of a language server
 panicked the plugin

---
 rust/lsp-lib/src/language_server_client.rs | 41 +++++++++++++---------
 rust/lsp-lib/src/lsp_plugin.rs             | 23 +++++++-----
 2 files changed, 39 insertions(+), 25 deletions(-)

diff --git a/rust/lsp-lib/src/language_server_client.rs b/rust/lsp-lib/src/language_server_client.rs
index 4c8549d..cf432ed 100644
--- a/rust/lsp-lib/src/language_server_client.rs
+++ b/rust/lsp-lib/src/language_server_client.rs
@@ -54,11 +54,11 @@ fn prepare_lsp_json(msg: &Value) -> Result<String, serde_json::error::Error> {
 }
 
 /// Get numeric id from the request id.
-fn number_from_id(id: &Id) -> u64 {
+fn number_from_id(id: &Id) -> Option<u64> {
     match *id {
-        Id::Num(n) => n as u64,
-        Id::Str(ref s) => u64::from_str_radix(s, 10).expect("failed to convert string id to u64"),
-        _ => panic!("unexpected value for id: None"),
+        Id::Num(n) if n >= 0 => Some(n as u64),
+        Id::Str(ref s) => u64::from_str_radix(s, 10).ok(),
+        _ => None,
     }
 }
 
@@ -97,28 +97,32 @@ impl LanguageServerClient {
         match JsonRpc::parse(message) {
             Ok(JsonRpc::Request(obj)) => trace!("client received unexpected request: {:?}", obj),
             Ok(value @ JsonRpc::Notification(_)) => {
-                self.handle_notification(value.get_method().unwrap(), value.get_params().unwrap())
+                let params = value.get_params().unwrap_or_else(|| Params::None(()));
+                self.handle_notification(value.get_method().unwrap(), params)
             }
             Ok(value @ JsonRpc::Success(_)) => {
-                let id = number_from_id(&value.get_id().unwrap());
                 let result = value.get_result().unwrap();
-                self.handle_response(id, Ok(result.clone()));
+                match value.get_id().as_ref().and_then(number_from_id) {
+                    Some(id) => self.handle_response(id, Ok(result.clone())),
+                    None => warn!("response with an unexpected id: {:?}", value),
+                }
             }
             Ok(value @ JsonRpc::Error(_)) => {
-                let id = number_from_id(&value.get_id().unwrap());
                 let error = value.get_error().unwrap();
-                self.handle_response(id, Err(error.clone()));
+                match value.get_id().as_ref().and_then(number_from_id) {
+                    Some(id) => self.handle_response(id, Err(error.clone())),
+                    None => warn!("error with an unexpected id: {:?}", value),
+                }
             }
             Err(err) => error!("Error in parsing incoming string: {}", err),
         }
     }
 
     pub fn handle_response(&mut self, id: u64, result: Result<Value, Error>) {
-        let callback = self
-            .pending
-            .remove(&id)
-            .unwrap_or_else(|| panic!("id {} missing from request table", id));
-        callback.call(self, result);
+        match self.pending.remove(&id) {
+            Some(callback) => callback.call(self, result),
+            None => warn!("id {} missing from request table", id),
+        }
     }
 
     pub fn handle_notification(&mut self, method: &str, params: Params) {
@@ -341,8 +345,13 @@ impl LanguageServerClient {
                     Params::Map(m) => {
                         let done = m.get("done").unwrap_or(&Value::Bool(false));
                         if let Value::Bool(done) = done {
-                            let id: String =
-                                serde_json::from_value(m.get("id").unwrap().clone()).unwrap();
+                            let id = match m.get("id") {
+                                Some(Value::String(id)) => id.clone(),
+                                _ => {
+                                    warn!("Progress without an id");
+                                    return;
+                                }
+                            };
                             if *done {
                                 self.remove_status_item(&id);
                             } else {
diff --git a/rust/lsp-lib/src/lsp_plugin.rs b/rust/lsp-lib/src/lsp_plugin.rs
index 8c0d647..4b4a53d 100644
--- a/rust/lsp-lib/src/lsp_plugin.rs
+++ b/rust/lsp-lib/src/lsp_plugin.rs
@@ -144,14 +144,17 @@ impl Plugin for LspPlugin {
                 ls_client.open_document(view_id, document_uri, document_text);
                 if !ls_client.is_initialize_sent() {
                     ls_client.send_initialize(workspace_root_uri, move |ls_client, result| {
-                        if let Ok(result) = result {
-                            let init_result: InitializeResult =
-                                serde_json::from_value(result).unwrap();
-
-                            debug!("Init Result: {:?}", init_result);
-
-                            ls_client.set_initialized(init_result.capabilities);
-                        }
+                        let init_result = match result.map(serde_json::from_value) {
+                            Ok(Ok(init_result)) => init_result,
+                            err => {
+                                let err: Result<Result<InitializeResult, _>, _> = err;
+                                error!("Server was not initialized: {:?}", err);
+                                return;
+                            }
+                        };
+                        debug!("Init Result: {:?}", init_result);
+
+                        ls_client.set_initialized(init_result.capabilities);
                     });
                 }
             }
@@ -176,7 +179,9 @@ impl Plugin for LspPlugin {
                 let res = result
                     .map_err(|e| LanguageResponseError::LanguageServerError(format!("{:?}", e)))
                     .and_then(|h| {
-                        let hover: Option<Hover> = serde_json::from_value(h).unwrap();
+                        let hover: Option<Hover> = serde_json::from_value(h).map_err(|e| {
+                            LanguageResponseError::LanguageServerError(format!("{:?}", e))
+                        })?;
                         hover.ok_or(LanguageResponseError::NullResponse)
                     });
 
-- 
2.43.0


From 2da043ec99fae732ff82ea3e9f3cfe1299fe28b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:55 +0000
Subject: [PATCH 089/111] fix: a language server that ended or could not be
 started panicked the plugin

---
 rust/lsp-lib/src/language_server_client.rs | 22 +++++++++++++++++++---
 rust/lsp-lib/src/parse_helper.rs           |  6 ++++--
 rust/lsp-lib/src/utils.rs                  | 11 ++++++++---
 3 files changed, 31 insertions(+), 8 deletions(-)

diff --git a/rust/lsp-lib/src/language_server_client.rs b/rust/lsp-lib/src/language_server_client.rs
index cf432ed..9f287f9 100644
--- a/rust/lsp-lib/src/language_server_client.rs
+++ b/rust/lsp-lib/src/language_server_client.rs
@@ -42,6 +42,8 @@ pub struct LanguageServerClient {
     /// Documents with their current text, to be opened when the server is initialized.
     waiting_documents: HashMap<ViewId, (Url, String)>,
     initialize_sent: bool,
+    /// The server has ended: nothing more is heard from it.
+    is_ended: bool,
     pub server_capabilities: Option<ServerCapabilities>,
     pub file_extensions: Vec<String>,
 }
@@ -83,14 +85,28 @@ impl LanguageServerClient {
             opened_documents: HashMap::new(),
             waiting_documents: HashMap::new(),
             initialize_sent: false,
+            is_ended: false,
             file_extensions,
         }
     }
 
     pub fn write(&mut self, msg: &str) {
-        self.writer.write_all(msg.as_bytes()).expect("error writing to stdin");
+        let result = self.writer.write_all(msg.as_bytes()).and_then(|_| self.writer.flush());
+        if let Err(err) = result {
+            error!("error writing to the language server: {}", err);
+        }
+    }
 
-        self.writer.flush().expect("error flushing child stdin");
+    /// Takes in that the server has ended: what it was asked will not be answered.
+    pub fn handle_server_end(&mut self) {
+        self.is_ended = true;
+        self.is_initialized = false;
+        self.opened_documents.clear();
+        self.waiting_documents.clear();
+        let pending: Vec<_> = self.pending.drain().collect();
+        for (_, callback) in pending {
+            callback.call(self, Err(Error::internal_error()));
+        }
     }
 
     pub fn handle_message(&mut self, message: &str) {
@@ -228,7 +244,7 @@ impl LanguageServerClient {
     pub fn open_document(&mut self, view_id: ViewId, document_uri: Url, document_text: String) {
         if self.is_initialized {
             self.send_did_open(view_id, document_uri, document_text);
-        } else {
+        } else if !self.is_ended {
             self.waiting_documents.insert(view_id, (document_uri, document_text));
         }
     }
diff --git a/rust/lsp-lib/src/parse_helper.rs b/rust/lsp-lib/src/parse_helper.rs
index 7560b77..26ecc3d 100644
--- a/rust/lsp-lib/src/parse_helper.rs
+++ b/rust/lsp-lib/src/parse_helper.rs
@@ -15,7 +15,7 @@
 //! Utility methods to parse the input from the Language Server
 
 use crate::types::{LspHeader, ParseError};
-use std::io::BufRead;
+use std::io::{BufRead, ErrorKind};
 
 const HEADER_CONTENT_LENGTH: &str = "content-length";
 const HEADER_CONTENT_TYPE: &str = "content-type";
@@ -42,7 +42,9 @@ pub fn read_message<T: BufRead>(reader: &mut T) -> Result<String, ParseError> {
 
     loop {
         buffer.clear();
-        let _result = reader.read_line(&mut buffer);
+        if reader.read_line(&mut buffer)? == 0 {
+            return Err(ParseError::Io(ErrorKind::UnexpectedEof.into()));
+        }
 
         match &buffer {
             s if s.trim().is_empty() => break,
diff --git a/rust/lsp-lib/src/utils.rs b/rust/lsp-lib/src/utils.rs
index b6952b2..1536a86 100644
--- a/rust/lsp-lib/src/utils.rs
+++ b/rust/lsp-lib/src/utils.rs
@@ -13,7 +13,7 @@
 // limitations under the License.
 
 use std::ffi::OsStr;
-use std::io::{BufReader, BufWriter};
+use std::io::{BufReader, BufWriter, ErrorKind};
 use std::path::Path;
 use std::process::{Command, Stdio};
 use std::sync::{Arc, Mutex};
@@ -27,7 +27,7 @@ use crate::language_server_client::LanguageServerClient;
 use crate::lsp_types::*;
 use crate::parse_helper;
 use crate::result_queue::ResultQueue;
-use crate::types::Error;
+use crate::types::{Error, ParseError};
 
 /// Get contents changes of a document modeled according to Language Server Protocol
 /// given the RopeDelta
@@ -142,7 +142,7 @@ pub fn start_new_server(
         .stdin(Stdio::piped())
         .stdout(Stdio::piped())
         .spawn()
-        .expect("Error Occurred");
+        .map_err(|err| format!("{:?}", err))?;
 
     let writer = Box::new(BufWriter::new(process.stdin.take().unwrap()));
 
@@ -169,6 +169,11 @@ pub fn start_new_server(
                             let mut server_locked = ls_client.lock().unwrap();
                             server_locked.handle_message(message_str.as_ref());
                         }
+                        Err(ParseError::Io(ref err)) if err.kind() != ErrorKind::InvalidData => {
+                            warn!("Language server ended: {:?}", err);
+                            ls_client.lock().unwrap().handle_server_end();
+                            break;
+                        }
                         Err(err) => error!("Error occurred {:?}", err),
                     };
                 }
-- 
2.43.0


From 3088ca30b2ec87012b218d54dda4f7aee7a7d5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:55 +0000
Subject: [PATCH 090/111] fix: a huge content length from a language server
 aborted the plugin

---
 rust/lsp-lib/src/parse_helper.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/rust/lsp-lib/src/parse_helper.rs b/rust/lsp-lib/src/parse_helper.rs
index 26ecc3d..b4fb2e3 100644
--- a/rust/lsp-lib/src/parse_helper.rs
+++ b/rust/lsp-lib/src/parse_helper.rs
@@ -15,7 +15,7 @@
 //! Utility methods to parse the input from the Language Server
 
 use crate::types::{LspHeader, ParseError};
-use std::io::{BufRead, ErrorKind};
+use std::io::{BufRead, ErrorKind, Read};
 
 const HEADER_CONTENT_LENGTH: &str = "content-length";
 const HEADER_CONTENT_TYPE: &str = "content-type";
@@ -60,8 +60,12 @@ pub fn read_message<T: BufRead>(reader: &mut T) -> Result<String, ParseError> {
     let content_length =
         content_length.ok_or_else(|| format!("missing content-length header: {}", buffer))?;
 
-    let mut body_buffer = vec![0; content_length];
-    reader.read_exact(&mut body_buffer)?;
+    // The length is not trusted: only what arrives is allocated.
+    let mut body_buffer = Vec::new();
+    reader.take(content_length as u64).read_to_end(&mut body_buffer)?;
+    if body_buffer.len() < content_length {
+        return Err(ParseError::Io(ErrorKind::UnexpectedEof.into()));
+    }
 
     let body = String::from_utf8(body_buffer)?;
     Ok(body)
-- 
2.43.0


From e98fbaf9afe9e87f2f4edd2217a0ac8d89802502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:55 +0000
Subject: [PATCH 091/111] fix: a relative path panicked the language server
 plugin

---
 rust/lsp-lib/src/lsp_plugin.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/rust/lsp-lib/src/lsp_plugin.rs b/rust/lsp-lib/src/lsp_plugin.rs
index 4b4a53d..d467a85 100644
--- a/rust/lsp-lib/src/lsp_plugin.rs
+++ b/rust/lsp-lib/src/lsp_plugin.rs
@@ -120,7 +120,13 @@ impl Plugin for LspPlugin {
         // TODO: Use Language Idenitifier assigned by core when the
         // implementation is settled
         if let Some(language_id) = self.get_language_for_view(view) {
-            let path = path.unwrap();
+            let document_uri = match path.and_then(|p| Url::from_file_path(p).ok()) {
+                Some(document_uri) => document_uri,
+                None => {
+                    warn!("no uri for the path of view {}", view_id);
+                    return;
+                }
+            };
 
             let workspace_root_uri = {
                 let config = &self.config.language_config.get_mut(&language_id).unwrap();
@@ -139,8 +145,6 @@ impl Plugin for LspPlugin {
                     .insert(view.get_id(), ViewInfo { version: 0, ls_identifier: identifier });
                 let mut ls_client = ls_client.lock().unwrap();
 
-                let document_uri = Url::from_file_path(path).unwrap();
-
                 ls_client.open_document(view_id, document_uri, document_text);
                 if !ls_client.is_initialize_sent() {
                     ls_client.send_initialize(workspace_root_uri, move |ls_client, result| {
-- 
2.43.0


From e8475d4c658f0aef9f96e70da5d1071fb45d64c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:55 +0000
Subject: [PATCH 092/111] fix: documents were told to the language server of
 another language

---
 rust/lsp-lib/src/lsp_plugin.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rust/lsp-lib/src/lsp_plugin.rs b/rust/lsp-lib/src/lsp_plugin.rs
index d467a85..f6eef50 100644
--- a/rust/lsp-lib/src/lsp_plugin.rs
+++ b/rust/lsp-lib/src/lsp_plugin.rs
@@ -239,7 +239,9 @@ impl LspPlugin {
                     None
                 }
             })
-            .and_then(|language_server_identifier| {
+            .and_then(|root| {
+                // Languages can share a workspace, but not a server.
+                let language_server_identifier = format!("{}:{}", language_id, root);
                 let contains =
                     self.language_server_clients.contains_key(&language_server_identifier);
 
-- 
2.43.0


From 58e77e91cce4340d201b9760ac972f66fbfa85f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:55 +0000
Subject: [PATCH 093/111] fix: a position beyond the end of a line was taken to
 be on the next line

---
 rust/lsp-lib/src/conversion_utils.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rust/lsp-lib/src/conversion_utils.rs b/rust/lsp-lib/src/conversion_utils.rs
index a9855a7..0a3feaa 100644
--- a/rust/lsp-lib/src/conversion_utils.rs
+++ b/rust/lsp-lib/src/conversion_utils.rs
@@ -80,7 +80,10 @@ pub(crate) fn offset_of_position<C: Cache>(
     let mut cur_len_utf16 = 0;
     let mut cur_len_utf8 = 0;
 
-    for u in view.get_line(position.line as usize)?.chars() {
+    // A position beyond the end of the line is the end of the line.
+    let line = view.get_line(position.line as usize)?;
+    let line = line.trim_end_matches('\n').trim_end_matches('\r');
+    for u in line.chars() {
         if cur_len_utf16 >= (position.character as usize) {
             break;
         }
-- 
2.43.0


From 936010e35662303fefc97559a218cacce0d61f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:55 +0000
Subject: [PATCH 094/111] fix: the answer to a hover was shown in another view

---
 rust/lsp-lib/src/lsp_plugin.rs   | 17 ++++++++++++-----
 rust/lsp-lib/src/result_queue.rs | 13 ++++++++-----
 2 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/rust/lsp-lib/src/lsp_plugin.rs b/rust/lsp-lib/src/lsp_plugin.rs
index f6eef50..b8e49ba 100644
--- a/rust/lsp-lib/src/lsp_plugin.rs
+++ b/rust/lsp-lib/src/lsp_plugin.rs
@@ -176,7 +176,11 @@ impl Plugin for LspPlugin {
                 let err = LanguageResponseError::LanguageServerError(
                     "the server does not have the document".to_owned(),
                 );
-                ls_client.result_queue.push_result(request_id, LspResponse::Hover(Err(err)));
+                ls_client.result_queue.push_result(
+                    view_id,
+                    request_id,
+                    LspResponse::Hover(Err(err)),
+                );
                 ls_client.core.schedule_idle(view_id);
             }
             Ok(position) => ls_client.request_hover(view_id, position, move |ls_client, result| {
@@ -189,19 +193,22 @@ impl Plugin for LspPlugin {
                         hover.ok_or(LanguageResponseError::NullResponse)
                     });
 
-                ls_client.result_queue.push_result(request_id, LspResponse::Hover(res));
+                ls_client.result_queue.push_result(view_id, request_id, LspResponse::Hover(res));
                 ls_client.core.schedule_idle(view_id);
             }),
             Err(err) => {
-                ls_client.result_queue.push_result(request_id, LspResponse::Hover(Err(err.into())));
+                ls_client.result_queue.push_result(
+                    view_id,
+                    request_id,
+                    LspResponse::Hover(Err(err.into())),
+                );
                 ls_client.core.schedule_idle(view_id);
             }
         });
     }
 
     fn idle(&mut self, view: &mut View<Self::Cache>) {
-        let result = self.result_queue.pop_result();
-        if let Some((request_id, reponse)) = result {
+        while let Some((request_id, reponse)) = self.result_queue.pop_result(view.get_id()) {
             match reponse {
                 LspResponse::Hover(res) => {
                     let res =
diff --git a/rust/lsp-lib/src/result_queue.rs b/rust/lsp-lib/src/result_queue.rs
index 45bca72..0165f5a 100644
--- a/rust/lsp-lib/src/result_queue.rs
+++ b/rust/lsp-lib/src/result_queue.rs
@@ -13,24 +13,27 @@
 // limitations under the License.
 
 use crate::types::LspResponse;
+use crate::xi_core::ViewId;
 use std::collections::VecDeque;
 use std::sync::{Arc, Mutex};
 
 #[derive(Clone, Debug, Default)]
-pub struct ResultQueue(Arc<Mutex<VecDeque<(usize, LspResponse)>>>);
+pub struct ResultQueue(Arc<Mutex<VecDeque<(ViewId, usize, LspResponse)>>>);
 
 impl ResultQueue {
     pub fn new() -> Self {
         ResultQueue(Arc::new(Mutex::new(VecDeque::new())))
     }
 
-    pub fn push_result(&mut self, request_id: usize, response: LspResponse) {
+    pub fn push_result(&mut self, view_id: ViewId, request_id: usize, response: LspResponse) {
         let mut queue = self.0.lock().unwrap();
-        queue.push_back((request_id, response));
+        queue.push_back((view_id, request_id, response));
     }
 
-    pub fn pop_result(&mut self) -> Option<(usize, LspResponse)> {
+    /// The first result for this view, if there is one.
+    pub fn pop_result(&mut self, view_id: ViewId) -> Option<(usize, LspResponse)> {
         let mut queue = self.0.lock().unwrap();
-        queue.pop_front()
+        let pos = queue.iter().position(|r| r.0 == view_id)?;
+        queue.remove(pos).map(|(_, request_id, response)| (request_id, response))
     }
 }
-- 
2.43.0


From bee0bbf9a197418a67939f1c8fd767f9b35b0723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:36 +0000
Subject: [PATCH 095/111] fix: a document closed early panicked the language
 server plugin

---
 rust/lsp-lib/src/lsp_plugin.rs | 21 +++++++++++--
 rust/lsp-lib/src/utils.rs      | 56 +++++++++++++++++-----------------
 2 files changed, 46 insertions(+), 31 deletions(-)

diff --git a/rust/lsp-lib/src/lsp_plugin.rs b/rust/lsp-lib/src/lsp_plugin.rs
index b8e49ba..f71cab3 100644
--- a/rust/lsp-lib/src/lsp_plugin.rs
+++ b/rust/lsp-lib/src/lsp_plugin.rs
@@ -81,7 +81,10 @@ impl Plugin for LspPlugin {
             view_info.version += 1;
             if !ls_client.is_open(view.get_id()) {
                 if let Some(text) = ls_client.waiting_text(view.get_id()) {
-                    *text = view.get_document().unwrap();
+                    match view.get_document() {
+                        Ok(document_text) => *text = document_text,
+                        Err(err) => warn!("no text for view {}: {:?}", view.get_id(), err),
+                    }
                 }
                 return;
             }
@@ -94,7 +97,13 @@ impl Plugin for LspPlugin {
     fn did_save(&mut self, view: &mut View<Self::Cache>, _old: Option<&Path>) {
         trace!("saved view {}", view.get_id());
 
-        let document_text = view.get_document().unwrap();
+        let document_text = match view.get_document() {
+            Ok(document_text) => document_text,
+            Err(err) => {
+                warn!("no text for view {}: {:?}", view.get_id(), err);
+                return;
+            }
+        };
         self.with_language_server_for_view(view, |ls_client| {
             if ls_client.is_open(view.get_id()) {
                 ls_client.send_did_save(view.get_id(), &document_text);
@@ -113,7 +122,13 @@ impl Plugin for LspPlugin {
     fn new_view(&mut self, view: &mut View<Self::Cache>) {
         trace!("new view {}", view.get_id());
 
-        let document_text = view.get_document().unwrap();
+        let document_text = match view.get_document() {
+            Ok(document_text) => document_text,
+            Err(err) => {
+                warn!("no text for view {}: {:?}", view.get_id(), err);
+                return;
+            }
+        };
         let path = view.get_path();
         let view_id = view.get_id();
 
diff --git a/rust/lsp-lib/src/utils.rs b/rust/lsp-lib/src/utils.rs
index 1536a86..8993d51 100644
--- a/rust/lsp-lib/src/utils.rs
+++ b/rust/lsp-lib/src/utils.rs
@@ -58,13 +58,7 @@ pub fn get_document_content_changes<C: Cache>(
         // which is gone.
     }
 
-    let text_document_content_change_event = TextDocumentContentChangeEvent {
-        range: None,
-        range_length: None,
-        text: view.get_document()?,
-    };
-
-    Ok(vec![text_document_content_change_event])
+    get_full_change(view)
 }
 
 /// Get changes to be sent to server depending upon the type of Sync supported
@@ -74,31 +68,37 @@ pub fn get_change_for_sync_kind(
     view: &mut View<ChunkCache>,
     delta: Option<&RopeDelta>,
 ) -> Option<Vec<TextDocumentContentChangeEvent>> {
-    match sync_kind {
-        TextDocumentSyncKind::None => None,
-        TextDocumentSyncKind::Full => {
-            let text_document_content_change_event = TextDocumentContentChangeEvent {
-                range: None,
-                range_length: None,
-                text: view.get_document().unwrap(),
-            };
-            Some(vec![text_document_content_change_event])
-        }
-        TextDocumentSyncKind::Incremental => match get_document_content_changes(delta, view) {
-            Ok(result) => Some(result),
-            Err(err) => {
+    let result = match sync_kind {
+        TextDocumentSyncKind::None => return None,
+        TextDocumentSyncKind::Full => get_full_change(view),
+        TextDocumentSyncKind::Incremental => {
+            get_document_content_changes(delta, view).or_else(|err| {
                 warn!("Error: {:?} Occured. Sending Whole Doc", err);
-                let text_document_content_change_event = TextDocumentContentChangeEvent {
-                    range: None,
-                    range_length: None,
-                    text: view.get_document().unwrap(),
-                };
-                Some(vec![text_document_content_change_event])
-            }
-        },
+                get_full_change(view)
+            })
+        }
+    };
+    match result {
+        Ok(changes) => Some(changes),
+        Err(err) => {
+            // This happens when the document was closed in the meantime.
+            warn!("no text for view {}: {:?}", view.get_id(), err);
+            None
+        }
     }
 }
 
+/// The change that replaces the whole document.
+fn get_full_change<C: Cache>(
+    view: &mut View<C>,
+) -> Result<Vec<TextDocumentContentChangeEvent>, PluginLibError> {
+    Ok(vec![TextDocumentContentChangeEvent {
+        range: None,
+        range_length: None,
+        text: view.get_document()?,
+    }])
+}
+
 /// Get workspace root using the Workspace Identifier and the opened document path
 /// For example: Cargo.toml can be used to identify a Rust Workspace
 /// This method traverses up to file tree to return the path to the Workspace root folder
-- 
2.43.0


From d4ec629cb6c55ab8a06567240b51459c25472a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:36 +0000
Subject: [PATCH 096/111] fix: plugin and language server could block each
 other

---
 rust/lsp-lib/src/language_server_client.rs | 29 ++++++++++++++++++----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/rust/lsp-lib/src/language_server_client.rs b/rust/lsp-lib/src/language_server_client.rs
index 9f287f9..251a48b 100644
--- a/rust/lsp-lib/src/language_server_client.rs
+++ b/rust/lsp-lib/src/language_server_client.rs
@@ -17,6 +17,8 @@
 use std::collections::{HashMap, HashSet};
 use std::io::Write;
 use std::process;
+use std::sync::mpsc::{channel, Sender};
+use std::thread;
 
 use jsonrpc_lite::{Error, Id, JsonRpc, Params};
 use serde_json::{to_value, Value};
@@ -30,7 +32,7 @@ use crate::xi_core::ViewId;
 
 /// A type to abstract communication with the language server
 pub struct LanguageServerClient {
-    writer: Box<dyn Write + Send>,
+    writer: Sender<String>,
     pending: HashMap<u64, Callback>,
     next_id: u64,
     language_id: String,
@@ -64,6 +66,24 @@ fn number_from_id(id: &Id) -> Option<u64> {
     }
 }
 
+/// Starts a thread that writes to the language server, so that the plugin does not wait for
+/// a server that itself waits for the plugin to read.
+fn start_writer(mut writer: Box<dyn Write + Send>, language_id: &str) -> Sender<String> {
+    let (sender, receiver) = channel::<String>();
+    thread::Builder::new()
+        .name(format!("{}-lsp-stdin-Looper", language_id))
+        .spawn(move || {
+            for msg in receiver {
+                if let Err(err) = writer.write_all(msg.as_bytes()).and_then(|_| writer.flush()) {
+                    error!("error writing to the language server: {}", err);
+                    break;
+                }
+            }
+        })
+        .unwrap();
+    sender
+}
+
 impl LanguageServerClient {
     pub fn new(
         writer: Box<dyn Write + Send>,
@@ -73,7 +93,7 @@ impl LanguageServerClient {
         file_extensions: Vec<String>,
     ) -> Self {
         LanguageServerClient {
-            writer,
+            writer: start_writer(writer, &language_id),
             pending: HashMap::new(),
             next_id: 1,
             is_initialized: false,
@@ -91,9 +111,8 @@ impl LanguageServerClient {
     }
 
     pub fn write(&mut self, msg: &str) {
-        let result = self.writer.write_all(msg.as_bytes()).and_then(|_| self.writer.flush());
-        if let Err(err) = result {
-            error!("error writing to the language server: {}", err);
+        if self.writer.send(msg.to_owned()).is_err() {
+            error!("the language server does not read any more");
         }
     }
 
-- 
2.43.0


From cd5d3f672c033d34c6177392acfbf8f6630ba2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:01 +0000
Subject: [PATCH 097/111] fix: settings files of languages with a dot in their
 name were not found

---
 rust/core-lib/src/config.rs          | 6 ++----
 rust/core-lib/src/plugins/catalog.rs | 3 +--
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/rust/core-lib/src/config.rs b/rust/core-lib/src/config.rs
index af98877..65774ed 100644
--- a/rust/core-lib/src/config.rs
+++ b/rust/core-lib/src/config.rs
@@ -438,10 +438,8 @@ impl ConfigManager {
     }
 
     fn load_user_config_file(&self, domain: &ConfigDomain) -> Option<Table> {
-        let path = self
-            .config_dir
-            .as_ref()
-            .map(|p| p.join(domain.file_stem()).with_extension("xiconfig"))?;
+        let path =
+            self.config_dir.as_ref().map(|p| p.join(format!("{}.xiconfig", domain.file_stem())))?;
 
         if !path.exists() {
             return None;
diff --git a/rust/core-lib/src/plugins/catalog.rs b/rust/core-lib/src/plugins/catalog.rs
index 8b7b30f..434db63 100644
--- a/rust/core-lib/src/plugins/catalog.rs
+++ b/rust/core-lib/src/plugins/catalog.rs
@@ -134,8 +134,7 @@ fn load_manifest(path: &Path) -> Result<PluginDescription, PluginLoadError> {
     }
 
     for lang in &mut manifest.languages {
-        let lang_config_path =
-            path.parent().unwrap().join(&lang.name.as_ref()).with_extension("toml");
+        let lang_config_path = path.parent().unwrap().join(format!("{}.toml", lang.name.as_ref()));
         if !lang_config_path.exists() {
             continue;
         }
-- 
2.43.0


From 21170e89045608320401d6436d078342559bebf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:39 +0000
Subject: [PATCH 098/111] fix: files that are no theme files were listed as
 themes or removed one

---
 rust/core-lib/src/styles.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/rust/core-lib/src/styles.rs b/rust/core-lib/src/styles.rs
index 7fdb997..7eede42 100644
--- a/rust/core-lib/src/styles.rs
+++ b/rust/core-lib/src/styles.rs
@@ -417,9 +417,13 @@ impl ThemeStyleMap {
     }
 }
 
-/// Used to remove files with extension other than `tmTheme`.
-fn validate_theme_file(path: &Path) -> Result<bool, LoadingError> {
-    path.extension().map(|e| e != "tmTheme").ok_or(LoadingError::BadPath)
+/// Used to refuse files with extension other than `tmTheme`.
+fn validate_theme_file(path: &Path) -> Result<(), LoadingError> {
+    if path.extension().map_or(false, |e| e == "tmTheme") {
+        Ok(())
+    } else {
+        Err(LoadingError::BadPath)
+    }
 }
 
 impl fmt::Debug for Style {
-- 
2.43.0


From 63fc6c6fe413e554169ba71923a53dbd7fa9df36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:39 +0000
Subject: [PATCH 099/111] fix: themes with the same name up to a dot were taken
 for each other

---
 rust/core-lib/src/styles.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/core-lib/src/styles.rs b/rust/core-lib/src/styles.rs
index 7eede42..40dfcf7 100644
--- a/rust/core-lib/src/styles.rs
+++ b/rust/core-lib/src/styles.rs
@@ -377,7 +377,7 @@ impl ThemeStyleMap {
 
     /// Returns dump's path corresponding to the given theme name.
     fn get_dump_path(&self, theme_name: &str) -> Option<PathBuf> {
-        self.cache_dir.as_ref().map(|p| p.join(theme_name).with_extension("tmdump"))
+        self.cache_dir.as_ref().map(|p| p.join(format!("{}.tmdump", theme_name)))
     }
 
     /// Compare the stored file paths in `self.state`
-- 
2.43.0


From 973b3d7f2f35c18e3898fb56f49211414987b573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:37 +0000
Subject: [PATCH 100/111] fix: a touched theme file made the themes of other
 folders disappear

---
 rust/core-lib/src/styles.rs | 14 ++++++++------
 rust/core-lib/src/tabs.rs   |  2 +-
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/rust/core-lib/src/styles.rs b/rust/core-lib/src/styles.rs
index 40dfcf7..1ae9e52 100644
--- a/rust/core-lib/src/styles.rs
+++ b/rust/core-lib/src/styles.rs
@@ -172,6 +172,8 @@ pub struct ThemeStyleMap {
 
 impl ThemeStyleMap {
     pub fn new(themes_dir: Option<PathBuf>) -> ThemeStyleMap {
+        // events of files name them by their canonical paths
+        let themes_dir = themes_dir.map(|p| p.canonicalize().unwrap_or(p));
         let themes = ThemeSet::load_defaults();
         let theme_name = DEFAULT_THEME.to_owned();
         let theme = themes.themes.get(&theme_name).expect("missing theme").to_owned();
@@ -382,21 +384,21 @@ impl ThemeStyleMap {
 
     /// Compare the stored file paths in `self.state`
     /// to the present ones.
-    pub(crate) fn sync_dir(&mut self, dir: Option<&Path>) {
-        if let Some(themes_dir) = dir {
+    pub(crate) fn sync_dir(&mut self) {
+        if let Some(themes_dir) = self.themes_dir.clone() {
             if let Ok(paths) = ThemeSet::discover_theme_paths(themes_dir) {
                 let current_state: HashSet<PathBuf> = HashSet::from_iter(paths.into_iter());
                 let maintained_state: HashSet<PathBuf> =
                     HashSet::from_iter(self.path_map.values().cloned());
 
-                let to_insert = current_state.difference(&maintained_state);
-                for path in to_insert {
-                    let _ = self.load_theme_info_from_path(path);
-                }
                 let to_remove = maintained_state.difference(&current_state);
                 for path in to_remove {
                     self.remove_theme(path);
                 }
+                let to_insert = current_state.difference(&maintained_state);
+                for path in to_insert {
+                    let _ = self.load_theme_info_from_path(path);
+                }
             }
         }
     }
diff --git a/rust/core-lib/src/tabs.rs b/rust/core-lib/src/tabs.rs
index 253df03..985e4b8 100644
--- a/rust/core-lib/src/tabs.rs
+++ b/rust/core-lib/src/tabs.rs
@@ -848,7 +848,7 @@ impl CoreState {
             }
             EventKind::Modify(ModifyKind::Metadata(MetadataKind::Any))
             | EventKind::Remove(RemoveKind::Any) => {
-                self.style_map.borrow_mut().sync_dir(event.paths[0].parent())
+                self.style_map.borrow_mut().sync_dir()
             }
             _ => (),
         }
-- 
2.43.0


From e2abd92f553de0b85018124331f2803aa4ad8805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:37 +0000
Subject: [PATCH 101/111] fix: a theme changed while another was in effect kept
 its old contents

---
 rust/core-lib/src/styles.rs | 16 ++++++++++++++++
 rust/core-lib/src/tabs.rs   |  6 ++----
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/rust/core-lib/src/styles.rs b/rust/core-lib/src/styles.rs
index 1ae9e52..b6ef914 100644
--- a/rust/core-lib/src/styles.rs
+++ b/rust/core-lib/src/styles.rs
@@ -340,6 +340,22 @@ impl ThemeStyleMap {
         Ok(theme_name.to_owned())
     }
 
+    /// Like `load_theme_info_from_path`, for a file that has changed: what was
+    /// read from it before is forgotten.
+    pub(crate) fn reload_theme_info_from_path(
+        &mut self,
+        theme_p: &Path,
+    ) -> Result<String, LoadingError> {
+        let theme_name = self.load_theme_info_from_path(theme_p)?;
+        if !self.default_themes.contains(&theme_name) {
+            self.themes.themes.remove(&theme_name);
+        }
+        if let Some(dump_p) = self.get_dump_path(&theme_name) {
+            let _ = fs::remove_file(dump_p);
+        }
+        Ok(theme_name)
+    }
+
     /// Loads theme using syntect's `get_theme` fn to our `theme` path map.
     /// Stores binary dump in a file with `tmdump` extension, only if
     /// caching is enabled.
diff --git a/rust/core-lib/src/tabs.rs b/rust/core-lib/src/tabs.rs
index 985e4b8..c8ee6de 100644
--- a/rust/core-lib/src/tabs.rs
+++ b/rust/core-lib/src/tabs.rs
@@ -847,9 +847,7 @@ impl CoreState {
                 self.load_theme_file(new);
             }
             EventKind::Modify(ModifyKind::Metadata(MetadataKind::Any))
-            | EventKind::Remove(RemoveKind::Any) => {
-                self.style_map.borrow_mut().sync_dir()
-            }
+            | EventKind::Remove(RemoveKind::Any) => self.style_map.borrow_mut().sync_dir(),
             _ => (),
         }
         let theme_names = self.style_map.borrow().get_theme_names();
@@ -860,7 +858,7 @@ impl CoreState {
     fn load_theme_file(&mut self, path: &Path) {
         let _t = trace_block("CoreState::load_theme_file", &["core"]);
 
-        let result = self.style_map.borrow_mut().load_theme_info_from_path(path);
+        let result = self.style_map.borrow_mut().reload_theme_info_from_path(path);
         match result {
             Ok(theme_name) => {
                 if theme_name == self.style_map.borrow().get_theme_name() {
-- 
2.43.0


From f5aa3499e1cc2c9955216d491cac2a7f0fe63bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:21 +0000
Subject: [PATCH 102/111] fix: removing a theme file named like a default theme
 removed the default theme

---
 rust/core-lib/src/styles.rs | 12 ++++++++++--
 rust/core-lib/src/tabs.rs   |  4 +++-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/rust/core-lib/src/styles.rs b/rust/core-lib/src/styles.rs
index b6ef914..c326b01 100644
--- a/rust/core-lib/src/styles.rs
+++ b/rust/core-lib/src/styles.rs
@@ -214,7 +214,9 @@ impl ThemeStyleMap {
     }
 
     pub fn get_theme_names(&self) -> Vec<String> {
-        self.path_map.keys().chain(self.default_themes.iter()).cloned().collect()
+        // a theme file may have the name of a default theme
+        let defaults = self.default_themes.iter().filter(|t| !self.path_map.contains_key(*t));
+        self.path_map.keys().chain(defaults).cloned().collect()
     }
 
     pub fn contains_theme(&self, k: &str) -> bool {
@@ -264,6 +266,10 @@ impl ThemeStyleMap {
         let theme_name = path.file_stem().and_then(OsStr::to_str)?;
         self.themes.themes.remove(theme_name);
         self.path_map.remove(theme_name);
+        // the default theme of this name is there again
+        if let Some(theme) = ThemeSet::load_defaults().themes.remove(theme_name) {
+            self.insert_to_map(theme_name.to_owned(), theme);
+        }
 
         let dump_p = self.get_dump_path(theme_name)?;
         if dump_p.exists() {
@@ -362,7 +368,9 @@ impl ThemeStyleMap {
     fn load_theme(&mut self, theme_name: &str) -> Result<(), LoadingError> {
         // If it is the current theme (the user has edited it), we load it again.
         // Otherwise, if it's a default theme or the theme has already been loaded, we can move on.
-        if self.contains_theme(theme_name) && self.get_theme_name() != theme_name {
+        if self.contains_theme(theme_name)
+            && (self.get_theme_name() != theme_name || !self.path_map.contains_key(theme_name))
+        {
             return Ok(());
         }
         // If we haven't loaded the theme before, we try to load it from the dump if a dump
diff --git a/rust/core-lib/src/tabs.rs b/rust/core-lib/src/tabs.rs
index c8ee6de..6a43d34 100644
--- a/rust/core-lib/src/tabs.rs
+++ b/rust/core-lib/src/tabs.rs
@@ -878,7 +878,9 @@ impl CoreState {
         // current one.
         if let Some(theme_name) = result {
             if theme_name == self.style_map.borrow().get_theme_name() {
-                self.do_set_theme(DEFAULT_THEME);
+                if self.style_map.borrow_mut().set_theme(DEFAULT_THEME).is_ok() {
+                    self.notify_client_and_update_views();
+                }
             }
         }
     }
-- 
2.43.0


From 0438827872c74bb89da113b8d3fd5658bec8934a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:51 +0000
Subject: [PATCH 103/111] fix: a change of one plugin's folder stopped a plugin
 with a longer name

---
 rust/core-lib/src/plugins/catalog.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/rust/core-lib/src/plugins/catalog.rs b/rust/core-lib/src/plugins/catalog.rs
index 434db63..2448459 100644
--- a/rust/core-lib/src/plugins/catalog.rs
+++ b/rust/core-lib/src/plugins/catalog.rs
@@ -84,10 +84,7 @@ impl<'a> PluginCatalog {
 
     /// Returns the plugin located at the provided file path.
     pub fn get_from_path(&self, path: &PathBuf) -> Option<Arc<PluginDescription>> {
-        self.items
-            .values()
-            .find(|&v| v.exec_path.to_str().unwrap().contains(path.to_str().unwrap()))
-            .cloned()
+        self.items.values().find(|&v| v.exec_path.starts_with(path)).cloned()
     }
 
     /// Returns a reference to the named plugin if it exists in the catalog.
-- 
2.43.0


From 37665d7cb0f84795a47aa7e7dd40f586332e4810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:19 +0000
Subject: [PATCH 104/111] fix: a plugin started twice at once ran twice

---
 rust/core-lib/src/core.rs        | 11 ++++---
 rust/core-lib/src/plugins/mod.rs |  4 +--
 rust/core-lib/src/tabs.rs        | 56 +++++++++++++++++++++++---------
 3 files changed, 50 insertions(+), 21 deletions(-)

diff --git a/rust/core-lib/src/core.rs b/rust/core-lib/src/core.rs
index 85a61ab..7abb823 100644
--- a/rust/core-lib/src/core.rs
+++ b/rust/core-lib/src/core.rs
@@ -82,13 +82,16 @@ impl XiCore {
     /// Connects a plugin that the monitor plays; what it sends goes to the returned handler.
     pub fn mon_plugin_connect(&self, id: usize, name: &str, peer: xi_rpc::RpcPeer) -> WeakXiCore {
         let core = self.weak_self().expect("core is running");
-        core.plugin_connect(Ok(Plugin::for_peer(id, name, peer)));
+        let plugin = Plugin::for_peer(id, name, peer);
+        core.plugin_connect(plugin.id, Ok(plugin));
         core
     }
 
     /// What happens when the plugin's run loop ends.
     pub fn mon_plugin_exit(&self, id: usize) {
-        self.weak_self().expect("core is running").plugin_exit(crate::plugins::PluginPid(id), Ok(()));
+        self.weak_self()
+            .expect("core is running")
+            .plugin_exit(crate::plugins::PluginPid(id), Ok(()));
     }
 }
 
@@ -144,9 +147,9 @@ impl WeakXiCore {
 
     /// Called immediately after attempting to start a plugin,
     /// from the plugin's thread.
-    pub fn plugin_connect(&self, plugin: Result<Plugin, io::Error>) {
+    pub fn plugin_connect(&self, id: PluginId, plugin: Result<Plugin, io::Error>) {
         if let Some(core) = self.upgrade() {
-            core.inner().plugin_connect(plugin)
+            core.inner().plugin_connect(id, plugin)
         }
     }
 
diff --git a/rust/core-lib/src/plugins/mod.rs b/rust/core-lib/src/plugins/mod.rs
index 4c64942..1d732aa 100644
--- a/rust/core-lib/src/plugins/mod.rs
+++ b/rust/core-lib/src/plugins/mod.rs
@@ -205,12 +205,12 @@ pub(crate) fn start_plugin_process(
                         plugin.toggle_tracing(true);
                     }
 
-                    core.plugin_connect(Ok(plugin));
+                    core.plugin_connect(id, Ok(plugin));
                     let mut core = core;
                     let err = looper.mainloop(|| BufReader::new(child_stdout), &mut core);
                     core.plugin_exit(id, err);
                 }
-                Err(err) => core.plugin_connect(Err(err)),
+                Err(err) => core.plugin_connect(id, Err(err)),
             }
         });
 
diff --git a/rust/core-lib/src/tabs.rs b/rust/core-lib/src/tabs.rs
index 6a43d34..8009c0c 100644
--- a/rust/core-lib/src/tabs.rs
+++ b/rust/core-lib/src/tabs.rs
@@ -26,6 +26,7 @@ use std::fs::File;
 use std::io;
 use std::mem;
 use std::path::{Path, PathBuf};
+use std::sync::Arc;
 
 use serde::de::{self, Deserialize, Deserializer, Unexpected};
 use serde::ser::{Serialize, Serializer};
@@ -43,7 +44,9 @@ use crate::file::FileManager;
 use crate::line_ending::LineEnding;
 use crate::plugin_rpc::{PluginNotification, PluginRequest};
 use crate::plugins::rpc::ClientPluginInfo;
-use crate::plugins::{start_plugin_process, Plugin, PluginCatalog, PluginPid};
+use crate::plugins::{
+    start_plugin_process, Plugin, PluginCatalog, PluginDescription, PluginName, PluginPid,
+};
 use crate::recorder::Recorder;
 use crate::rpc::{
     CoreNotification, CoreRequest, EditNotification, EditRequest,
@@ -124,6 +127,16 @@ pub struct CoreState {
     plugins: PluginCatalog,
     // for the time being we auto-start all plugins we find on launch.
     running_plugins: Vec<Plugin>,
+    /// Plugins that have been launched and are not yet connected.
+    starting_plugins: Vec<StartingPlugin>,
+}
+
+/// A plugin that has been launched and is not yet connected.
+struct StartingPlugin {
+    id: PluginId,
+    name: PluginName,
+    /// It was stopped in the meantime.
+    stopped: bool,
 }
 
 /// Initial setup and bookkeeping
@@ -184,6 +197,7 @@ impl CoreState {
             id_counter: Counter::default(),
             plugins: PluginCatalog::default(),
             running_plugins: Vec::new(),
+            starting_plugins: Vec::new(),
         }
     }
 
@@ -221,12 +235,8 @@ impl CoreState {
         self.peer.available_themes(theme_names);
 
         // FIXME: temporary: we just launch every plugin we find at startup
-        for manifest in self.plugins.iter() {
-            start_plugin_process(
-                manifest.clone(),
-                self.next_plugin_id(),
-                self.self_ref.as_ref().unwrap().clone(),
-            );
+        for manifest in self.plugins.iter().collect::<Vec<_>>() {
+            self.start_plugin(manifest);
         }
     }
 
@@ -519,19 +529,25 @@ impl CoreState {
             return;
         }
 
+        if self.starting_plugins.iter().any(|p| p.name == plugin && !p.stopped) {
+            info!("plugin {} already starting", plugin);
+            return;
+        }
+
         if let Some(manifest) = self.plugins.get_named(plugin) {
-            //TODO: lots of races possible here, we need to keep track of
-            //pending launches.
-            start_plugin_process(
-                manifest,
-                self.next_plugin_id(),
-                self.self_ref.as_ref().unwrap().clone(),
-            );
+            self.start_plugin(manifest);
         } else {
             warn!("no plugin found with name '{}'", plugin);
         }
     }
 
+    fn start_plugin(&mut self, manifest: Arc<PluginDescription>) {
+        let id = self.next_plugin_id();
+        let name = manifest.name.clone();
+        self.starting_plugins.push(StartingPlugin { id, name, stopped: false });
+        start_plugin_process(manifest, id, self.self_ref.as_ref().unwrap().clone());
+    }
+
     fn do_stop_plugin(&mut self, _view_id: ViewId, plugin: &str) {
         if let Some(p) = self
             .running_plugins
@@ -543,6 +559,10 @@ impl CoreState {
             p.shutdown();
             self.after_stop_plugin(&p);
         }
+        self.starting_plugins
+            .iter_mut()
+            .filter(|p| p.name == plugin)
+            .for_each(|p| p.stopped = true);
     }
 
     fn do_plugin_rpc(&self, view_id: ViewId, receiver: &str, method: &str, params: &Value) {
@@ -928,8 +948,14 @@ impl CoreState {
 /// plugin event handling
 impl CoreState {
     /// Called from a plugin's thread after trying to start the plugin.
-    pub(crate) fn plugin_connect(&mut self, plugin: Result<Plugin, io::Error>) {
+    pub(crate) fn plugin_connect(&mut self, id: PluginId, plugin: Result<Plugin, io::Error>) {
+        let starting = self
+            .starting_plugins
+            .iter()
+            .position(|p| p.id == id)
+            .map(|ix| self.starting_plugins.remove(ix));
         match plugin {
+            Ok(ref plugin) if starting.map_or(false, |p| p.stopped) => plugin.shutdown(),
             Ok(plugin) => {
                 let init_info =
                     self.iter_groups().map(|mut ctx| ctx.plugin_info()).collect::<Vec<_>>();
-- 
2.43.0


From 16c48c810477d0666f58f41161f07f6c7588bc00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:37 +0000
Subject: [PATCH 105/111] fix: steps undone while recording were played

---
 rust/core-lib/src/recorder.rs | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/rust/core-lib/src/recorder.rs b/rust/core-lib/src/recorder.rs
index 3afffd4..bc4a082 100644
--- a/rust/core-lib/src/recorder.rs
+++ b/rust/core-lib/src/recorder.rs
@@ -137,10 +137,11 @@ impl Recorder {
     /// A recording should not store any undos or redos--
     /// call this once a recording is 'finalized.'
     fn save_recording_buffer(&mut self, recording_name: String) {
-        let mut saw_undo = false;
-        let mut saw_redo = false;
+        let mut undos = 0;
+        let mut redos = 0;
 
         // Walk the recording backwards and remove any undo / redo events
+        // and the events that were left undone
         let filtered: Vec<EventDomain> = self
             .recording_buffer
             .clone()
@@ -149,21 +150,27 @@ impl Recorder {
             .filter(|event| {
                 if let EventDomain::Buffer(event) = event {
                     return match event {
+                        BufferEvent::Undo if redos > 0 => {
+                            redos -= 1;
+                            false
+                        }
                         BufferEvent::Undo => {
-                            saw_undo = !saw_redo;
-                            saw_redo = false;
+                            undos += 1;
                             false
                         }
                         BufferEvent::Redo => {
-                            saw_redo = !saw_undo;
-                            saw_undo = false;
+                            redos += 1;
                             false
                         }
                         _ => {
-                            let ret = !saw_undo;
-                            saw_undo = false;
-                            saw_redo = false;
-                            ret
+                            // a redo has no effect after another event
+                            redos = 0;
+                            if undos > 0 {
+                                undos -= 1;
+                                false
+                            } else {
+                                true
+                            }
                         }
                     };
                 }
-- 
2.43.0


From 145d57c976653270fb85cd53760e7ba3fbec8eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:38 +0000
Subject: [PATCH 106/111] fix: views that were open were not told of a plugin
 that starts

---
 rust/core-lib/src/tabs.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rust/core-lib/src/tabs.rs b/rust/core-lib/src/tabs.rs
index 8009c0c..91eb9c7 100644
--- a/rust/core-lib/src/tabs.rs
+++ b/rust/core-lib/src/tabs.rs
@@ -960,6 +960,10 @@ impl CoreState {
                 let init_info =
                     self.iter_groups().map(|mut ctx| ctx.plugin_info()).collect::<Vec<_>>();
                 plugin.initialize(init_info);
+                // views that are not set up yet are told when they are
+                self.iter_groups()
+                    .filter(|ctx| !self.pending_views.contains(&ctx.view_id))
+                    .for_each(|ctx| ctx.plugin_started(&plugin));
                 self.running_plugins.push(plugin);
             }
             Err(e) => error!("failed to start plugin {:?}", e),
-- 
2.43.0


From f0923845f2664cfc4aebfa6ea6f7ebe1ed9b0906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:38 +0000
Subject: [PATCH 107/111] fix: a plugin that ended by itself was told as
 stopped by the user

---
 rust/core-lib/src/event_context.rs | 4 ++--
 rust/core-lib/src/tabs.rs          | 9 +++++----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/rust/core-lib/src/event_context.rs b/rust/core-lib/src/event_context.rs
index 5d5d7cf..be8b4c1 100644
--- a/rust/core-lib/src/event_context.rs
+++ b/rust/core-lib/src/event_context.rs
@@ -528,8 +528,8 @@ impl<'a> EventContext<'a> {
         self.client.plugin_started(self.view_id, &plugin.name)
     }
 
-    pub(crate) fn plugin_stopped(&mut self, plugin: &Plugin) {
-        self.client.plugin_stopped(self.view_id, &plugin.name, 0);
+    pub(crate) fn plugin_stopped(&mut self, plugin: &Plugin, code: i32) {
+        self.client.plugin_stopped(self.view_id, &plugin.name, code);
         let needs_render = self.with_editor(|ed, view, _, _| {
             let had_annotations = view.clear_annotations(plugin.id);
             if ed.get_layers_mut().remove_layer(plugin.id).is_some() {
diff --git a/rust/core-lib/src/tabs.rs b/rust/core-lib/src/tabs.rs
index 91eb9c7..dacfa81 100644
--- a/rust/core-lib/src/tabs.rs
+++ b/rust/core-lib/src/tabs.rs
@@ -557,7 +557,7 @@ impl CoreState {
         {
             //TODO: verify shutdown; kill if necessary
             p.shutdown();
-            self.after_stop_plugin(&p);
+            self.after_stop_plugin(&p, 0);
         }
         self.starting_plugins
             .iter_mut()
@@ -572,8 +572,8 @@ impl CoreState {
             .for_each(|p| p.dispatch_command(view_id, method, params))
     }
 
-    fn after_stop_plugin(&mut self, plugin: &Plugin) {
-        self.iter_groups().for_each(|mut cx| cx.plugin_stopped(plugin));
+    fn after_stop_plugin(&mut self, plugin: &Plugin, code: i32) {
+        self.iter_groups().for_each(|mut cx| cx.plugin_stopped(plugin, code));
     }
 }
 
@@ -975,7 +975,8 @@ impl CoreState {
         let running_idx = self.running_plugins.iter().position(|p| p.id == id);
         if let Some(idx) = running_idx {
             let plugin = self.running_plugins.remove(idx);
-            self.after_stop_plugin(&plugin);
+            // it was not asked to
+            self.after_stop_plugin(&plugin, 1);
         }
     }
 
-- 
2.43.0


From 00715e2a5611b6e9f7d6dc1cbb22b7ae3909fbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:36 +0000
Subject: [PATCH 108/111] fix: a tab over a selection made backwards was sized
 for its end

---
 rust/core-lib/src/edit_ops.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/core-lib/src/edit_ops.rs b/rust/core-lib/src/edit_ops.rs
index 23e1a3e..ee55144 100644
--- a/rust/core-lib/src/edit_ops.rs
+++ b/rust/core-lib/src/edit_ops.rs
@@ -222,7 +222,7 @@ pub fn insert_tab(base: &Rope, regions: &[SelRegion], config: &BufferItems) -> R
                 replacements.insert((offset, offset, const_tab_text.clone()));
             }
         } else {
-            let (_, col) = LogicalLines.offset_to_line_col(base, region.start);
+            let (_, col) = LogicalLines.offset_to_line_col(base, region.min());
             let mut tab_size = config.tab_size;
             tab_size = tab_size - (col % tab_size);
             let tab_text = get_tab_text(config, Some(tab_size));
-- 
2.43.0


From bd8ba5b936a0f0956507b441d2f90d3f209bb7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:07 +0000
Subject: [PATCH 109/111] fix: a file open twice, or reached by way of a link,
 was not reloaded

---
 rust/core-lib/src/file.rs    | 62 +++++++++++++++++++++++-------------
 rust/core-lib/src/tabs.rs    | 18 ++++++++---
 rust/core-lib/src/watcher.rs | 16 ++++++++++
 3 files changed, 69 insertions(+), 27 deletions(-)

diff --git a/rust/core-lib/src/file.rs b/rust/core-lib/src/file.rs
index d190970..a115353 100644
--- a/rust/core-lib/src/file.rs
+++ b/rust/core-lib/src/file.rs
@@ -39,7 +39,6 @@ const UTF8_BOM: &str = "\u{feff}";
 
 /// Tracks all state related to open files.
 pub struct FileManager {
-    open_files: HashMap<PathBuf, BufferId>,
     file_info: HashMap<BufferId, FileInfo>,
     /// A monitor of filesystem events, for things like reloading changed files.
     #[cfg(feature = "notify")]
@@ -50,6 +49,9 @@ pub struct FileManager {
 pub struct FileInfo {
     pub encoding: CharacterEncoding,
     pub path: PathBuf,
+    /// The file `path` leads to, without links on the way. This is the name
+    /// under which the file is watched.
+    canonical: PathBuf,
     pub mod_time: Option<SystemTime>,
     pub has_changed: bool,
     #[cfg(target_family = "unix")]
@@ -71,12 +73,12 @@ pub enum CharacterEncoding {
 impl FileManager {
     #[cfg(feature = "notify")]
     pub fn new(watcher: FileWatcher) -> Self {
-        FileManager { open_files: HashMap::new(), file_info: HashMap::new(), watcher }
+        FileManager { file_info: HashMap::new(), watcher }
     }
 
     #[cfg(not(feature = "notify"))]
     pub fn new() -> Self {
-        FileManager { open_files: HashMap::new(), file_info: HashMap::new() }
+        FileManager { file_info: HashMap::new() }
     }
 
     #[cfg(feature = "notify")]
@@ -88,8 +90,14 @@ impl FileManager {
         self.file_info.get(&id)
     }
 
-    pub fn get_editor(&self, path: &Path) -> Option<BufferId> {
-        self.open_files.get(path).cloned()
+    /// All the buffers in which the file at this path is open, under whatever
+    /// name they know it.
+    pub fn get_editors(&self, path: &Path) -> Vec<BufferId> {
+        self.file_info
+            .iter()
+            .filter(|(_, info)| info.canonical == path || info.path == path)
+            .map(|(id, _)| *id)
+            .collect()
     }
 
     /// Returns `true` if this file is open and has changed on disk.
@@ -108,10 +116,7 @@ impl FileManager {
     /// Renews the watch on an open file which has been replaced by another file.
     #[cfg(feature = "notify")]
     pub fn rewatch(&mut self, path: &Path) {
-        if self.open_files.contains_key(path) {
-            self.watcher.unwatch(path, OPEN_FILE_EVENT_TOKEN);
-            self.watcher.watch(path, false, OPEN_FILE_EVENT_TOKEN);
-        }
+        self.watcher.rewatch(path);
     }
 
     pub fn open(&mut self, path: &Path, id: BufferId) -> Result<Rope, FileError> {
@@ -121,22 +126,32 @@ impl FileManager {
 
         let (rope, info) = try_load_file(path)?;
 
-        self.open_files.insert(path.to_owned(), id);
-        if self.file_info.insert(id, info).is_none() {
-            #[cfg(feature = "notify")]
-            self.watcher.watch(path, false, OPEN_FILE_EVENT_TOKEN);
-        }
+        self.set_info(id, info);
         Ok(rope)
     }
 
     pub fn close(&mut self, id: BufferId) {
         if let Some(info) = self.file_info.remove(&id) {
-            self.open_files.remove(&info.path);
             #[cfg(feature = "notify")]
-            self.watcher.unwatch(&info.path, OPEN_FILE_EVENT_TOKEN);
+            self.watcher.unwatch(&info.canonical, OPEN_FILE_EVENT_TOKEN);
         }
     }
 
+    /// Associates a buffer with a file, and watches that file.
+    fn set_info(&mut self, id: BufferId, info: FileInfo) {
+        #[cfg(feature = "notify")]
+        self.watcher.watch(&info.canonical, false, OPEN_FILE_EVENT_TOKEN);
+        let previous = self.file_info.insert(id, info);
+        #[cfg(feature = "notify")]
+        {
+            if let Some(previous) = previous {
+                self.watcher.unwatch(&previous.canonical, OPEN_FILE_EVENT_TOKEN);
+            }
+        }
+        #[cfg(not(feature = "notify"))]
+        drop(previous);
+    }
+
     pub fn save(&mut self, path: &Path, text: &Rope, id: BufferId) -> Result<(), FileError> {
         let is_existing = self.file_info.contains_key(&id);
         if is_existing {
@@ -152,15 +167,13 @@ impl FileManager {
         let info = FileInfo {
             encoding: CharacterEncoding::Utf8,
             path: path.to_owned(),
+            canonical: canonical_path(path),
             mod_time: get_mod_time(path),
             has_changed: false,
             #[cfg(target_family = "unix")]
             permissions: get_permissions(path),
         };
-        self.open_files.insert(path.to_owned(), id);
-        self.file_info.insert(id, info);
-        #[cfg(feature = "notify")]
-        self.watcher.watch(path, false, OPEN_FILE_EVENT_TOKEN);
+        self.set_info(id, info);
         Ok(())
     }
 
@@ -168,9 +181,6 @@ impl FileManager {
         let prev_path = self.file_info[&id].path.clone();
         if prev_path != path {
             self.save_new(path, text, id)?;
-            self.open_files.remove(&prev_path);
-            #[cfg(feature = "notify")]
-            self.watcher.unwatch(&prev_path, OPEN_FILE_EVENT_TOKEN);
         } else if path.exists() && self.check_file(path, id) {
             return Err(FileError::HasChanged(path.to_owned()));
         } else {
@@ -202,6 +212,7 @@ where
         #[cfg(target_family = "unix")]
         permissions: get_permissions(&path),
         path: path.as_ref().to_owned(),
+        canonical: canonical_path(path.as_ref()),
         has_changed: false,
     };
     Ok((rope, info))
@@ -278,6 +289,11 @@ fn get_mod_time<P: AsRef<Path>>(path: P) -> Option<SystemTime> {
     File::open(path).and_then(|f| f.metadata()).and_then(|meta| meta.modified()).ok()
 }
 
+/// Returns the path of the file which this path leads to.
+fn canonical_path(path: &Path) -> PathBuf {
+    path.canonicalize().unwrap_or_else(|_| path.to_owned())
+}
+
 /// Returns the file permissions for the file at a given path on UNIXy systems,
 /// if present.
 #[cfg(target_family = "unix")]
diff --git a/rust/core-lib/src/tabs.rs b/rust/core-lib/src/tabs.rs
index dacfa81..a330122 100644
--- a/rust/core-lib/src/tabs.rs
+++ b/rust/core-lib/src/tabs.rs
@@ -742,19 +742,29 @@ impl CoreState {
             }
         };
 
-        let buffer_id = match self.file_manager.get_editor(path) {
-            Some(id) => id,
+        for buffer_id in self.file_manager.get_editors(path) {
+            self.reload_if_changed(buffer_id);
+        }
+    }
+
+    /// Reloads a buffer if its file was changed by others, and it has no
+    /// changes of its own.
+    #[cfg(feature = "notify")]
+    fn reload_if_changed(&mut self, buffer_id: BufferId) {
+        // the path under which the buffer knows the file
+        let path = match self.file_manager.get_info(buffer_id) {
+            Some(info) => info.path.clone(),
             None => return,
         };
 
-        let has_changes = self.file_manager.check_file(path, buffer_id);
+        let has_changes = self.file_manager.check_file(&path, buffer_id);
         let is_pristine = self.editors.get(&buffer_id).map(|ed| ed.borrow().is_pristine()).unwrap();
         //TODO: currently we only use the file's modification time when
         // determining if a file has been changed by another process.
         // A more robust solution would also hash the file's contents.
 
         if has_changes && is_pristine {
-            if let Ok(text) = self.file_manager.open(path, buffer_id) {
+            if let Ok(text) = self.file_manager.open(&path, buffer_id) {
                 // this is ugly; we don't map buffer_id -> view_id anywhere
                 // but we know we must have a view.
                 let view_id = self
diff --git a/rust/core-lib/src/watcher.rs b/rust/core-lib/src/watcher.rs
index d138a59..18bfa2a 100644
--- a/rust/core-lib/src/watcher.rs
+++ b/rust/core-lib/src/watcher.rs
@@ -213,6 +213,22 @@ impl FileWatcher {
         }
     }
 
+    /// Renews the watch on a path at which there is another file now. Has no
+    /// effect if the path is not being watched.
+    pub fn rewatch(&mut self, path: &Path) {
+        let state = self.state.lock().unwrap();
+        let mode = match state.watchees.iter().find(|w| w.path == path) {
+            Some(w) => mode_from_bool(w.recursive),
+            None => return,
+        };
+        if let Err(e) = self.inner.unwatch(path) {
+            warn!("unwatching error {:?}", e);
+        }
+        if let Err(e) = self.inner.watch(path, mode) {
+            warn!("watching error {:?}", e);
+        }
+    }
+
     /// Takes ownership of this `Watcher`'s current event queue.
     pub fn take_events(&mut self) -> VecDeque<(WatchToken, Event)> {
         let mut state = self.state.lock().unwrap();
-- 
2.43.0


From af843ae29d8b3f7e5214b735832cf5fe8207d4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:42 +0000
Subject: [PATCH 110/111] fix: saving through a symbolic link replaced the link

---
 rust/core-lib/src/file.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rust/core-lib/src/file.rs b/rust/core-lib/src/file.rs
index a115353..d325d84 100644
--- a/rust/core-lib/src/file.rs
+++ b/rust/core-lib/src/file.rs
@@ -225,6 +225,8 @@ fn try_save(
     encoding: CharacterEncoding,
     file_info: Option<&FileInfo>,
 ) -> io::Result<()> {
+    // a file reached through a link is replaced, not the link
+    let path = &canonical_path(path);
     let tmp_extension = path.extension().map_or_else(
         || OsString::from("swp"),
         |ext| {
-- 
2.43.0


From b1f773892036934207e358a87f76c2103a3c65bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:57 +0000
Subject: [PATCH 111/111] fix: a file removed by others was not watched again
 when it came back

---
 rust/core-lib/src/file.rs | 52 ++++++++++++++++++++++++++++++++++++---
 rust/core-lib/src/tabs.rs | 18 +++++++++++---
 2 files changed, 63 insertions(+), 7 deletions(-)

diff --git a/rust/core-lib/src/file.rs b/rust/core-lib/src/file.rs
index d325d84..e181d9f 100644
--- a/rust/core-lib/src/file.rs
+++ b/rust/core-lib/src/file.rs
@@ -15,6 +15,8 @@
 //! Interactions with the file system.
 
 use std::collections::HashMap;
+#[cfg(feature = "notify")]
+use std::collections::HashSet;
 use std::ffi::OsString;
 use std::fmt;
 use std::fs::{self, File};
@@ -40,6 +42,10 @@ const UTF8_BOM: &str = "\u{feff}";
 /// Tracks all state related to open files.
 pub struct FileManager {
     file_info: HashMap<BufferId, FileInfo>,
+    /// Open files which others have removed. The directory of each of them is
+    /// watched, for the file to return.
+    #[cfg(feature = "notify")]
+    missing: HashSet<PathBuf>,
     /// A monitor of filesystem events, for things like reloading changed files.
     #[cfg(feature = "notify")]
     watcher: FileWatcher,
@@ -73,7 +79,7 @@ pub enum CharacterEncoding {
 impl FileManager {
     #[cfg(feature = "notify")]
     pub fn new(watcher: FileWatcher) -> Self {
-        FileManager { file_info: HashMap::new(), watcher }
+        FileManager { file_info: HashMap::new(), missing: HashSet::new(), watcher }
     }
 
     #[cfg(not(feature = "notify"))]
@@ -117,6 +123,41 @@ impl FileManager {
     #[cfg(feature = "notify")]
     pub fn rewatch(&mut self, path: &Path) {
         self.watcher.rewatch(path);
+        if self.missing.remove(path) {
+            self.unwatch_parent(path);
+        }
+    }
+
+    /// Waits for an open file which has been removed to return.
+    #[cfg(feature = "notify")]
+    pub fn await_file(&mut self, path: &Path) {
+        if self.get_editors(path).is_empty() || !self.missing.insert(path.to_owned()) {
+            return;
+        }
+        if let Some(parent) = path.parent() {
+            self.watcher.watch(parent, false, OPEN_FILE_EVENT_TOKEN);
+        }
+    }
+
+    #[cfg(feature = "notify")]
+    pub fn is_awaited(&self, path: &Path) -> bool {
+        self.missing.contains(path)
+    }
+
+    #[cfg(feature = "notify")]
+    fn unwatch_parent(&mut self, path: &Path) {
+        if let Some(parent) = path.parent() {
+            self.watcher.unwatch(parent, OPEN_FILE_EVENT_TOKEN);
+        }
+    }
+
+    /// Stops to watch a file on behalf of one buffer.
+    #[cfg(feature = "notify")]
+    fn unwatch(&mut self, path: &Path) {
+        self.watcher.unwatch(path, OPEN_FILE_EVENT_TOKEN);
+        if self.get_editors(path).is_empty() && self.missing.remove(path) {
+            self.unwatch_parent(path);
+        }
     }
 
     pub fn open(&mut self, path: &Path, id: BufferId) -> Result<Rope, FileError> {
@@ -133,7 +174,7 @@ impl FileManager {
     pub fn close(&mut self, id: BufferId) {
         if let Some(info) = self.file_info.remove(&id) {
             #[cfg(feature = "notify")]
-            self.watcher.unwatch(&info.canonical, OPEN_FILE_EVENT_TOKEN);
+            self.unwatch(&info.canonical);
         }
     }
 
@@ -145,7 +186,7 @@ impl FileManager {
         #[cfg(feature = "notify")]
         {
             if let Some(previous) = previous {
-                self.watcher.unwatch(&previous.canonical, OPEN_FILE_EVENT_TOKEN);
+                self.unwatch(&previous.canonical);
             }
         }
         #[cfg(not(feature = "notify"))]
@@ -187,7 +228,10 @@ impl FileManager {
             let encoding = self.file_info[&id].encoding;
             try_save(path, text, encoding, self.get_info(id))
                 .map_err(|e| FileError::Io(e, path.to_owned()))?;
-            self.file_info.get_mut(&id).unwrap().mod_time = get_mod_time(path);
+            let info = self.file_info.get_mut(&id).unwrap();
+            info.mod_time = get_mod_time(path);
+            // what had changed on disk is gone, if we got here
+            info.has_changed = false;
         }
         Ok(())
     }
diff --git a/rust/core-lib/src/tabs.rs b/rust/core-lib/src/tabs.rs
index a330122..258195d 100644
--- a/rust/core-lib/src/tabs.rs
+++ b/rust/core-lib/src/tabs.rs
@@ -731,17 +731,25 @@ impl CoreState {
             EventKind::Create(CreateKind::Any)
             | EventKind::Modify(ModifyKind::Metadata(MetadataKind::Any))
             | EventKind::Modify(ModifyKind::Any) => &event.paths[0],
-            // another file took its place: it has to be watched anew
-            EventKind::Remove(RemoveKind::Any) if event.paths[0].exists() => {
-                self.file_manager.rewatch(&event.paths[0]);
+            EventKind::Remove(RemoveKind::Any) => {
+                self.file_manager.await_file(&event.paths[0]);
                 &event.paths[0]
             }
+            EventKind::Modify(ModifyKind::Name(RenameMode::Both)) => {
+                self.file_manager.await_file(&event.paths[0]);
+                &event.paths[1]
+            }
             other => {
                 debug!("Ignoring event in open file {:?}", other);
                 return;
             }
         };
 
+        // another file took its place: it has to be watched anew
+        if self.file_manager.is_awaited(path) && path.exists() {
+            self.file_manager.rewatch(path);
+        }
+
         for buffer_id in self.file_manager.get_editors(path) {
             self.reload_if_changed(buffer_id);
         }
@@ -756,6 +764,10 @@ impl CoreState {
             Some(info) => info.path.clone(),
             None => return,
         };
+        // without its file, the buffer is all that is left of the text
+        if !path.exists() {
+            return;
+        }
 
         let has_changes = self.file_manager.check_file(&path, buffer_id);
         let is_pristine = self.editors.get(&buffer_id).map(|ed| ed.borrow().is_pristine()).unwrap();
-- 
2.43.0

