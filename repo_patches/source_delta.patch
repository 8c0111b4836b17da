From e6f2edc9b46a1f0c0948652c3e756f7154bf9e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:40 +0000
Subject: [PATCH 01/21] fix: a negated class no longer inherits the minimum
 width of the class it negates

---
 src/neu/op_not.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/neu/op_not.rs b/src/neu/op_not.rs
index 4d67f0d..c86ff71 100644
--- a/src/neu/op_not.rs
+++ b/src/neu/op_not.rs
@@ -107,10 +107,6 @@ where
 
         crate::trace_retval!("Not", other, ret)
     }
-
-    fn min_length(&self) -> usize {
-        self.unit.min_length()
-    }
 }
 
 ///
-- 
2.43.0


From 2cff53027f7c1b5fa96d9d38a22c29264b79f093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:40 +0000
Subject: [PATCH 02/21] fix: longest-match lists end at the alternative they
 report

---
 src/ctor.rs  | 6 ++++--
 src/regex.rs | 8 +++++---
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/ctor.rs b/src/ctor.rs
index 79fa4b4..f1d1076 100644
--- a/src/ctor.rs
+++ b/src/ctor.rs
@@ -953,7 +953,7 @@ where
 {
     move |slice: &[T], ctx: &mut C, h: &mut H| {
         let beg = ctx.offset();
-        let mut ret = None;
+        let mut ret: Option<(O, &T)> = None;
         let mut end = beg;
 
         for item in slice.iter() {
@@ -962,12 +962,14 @@ where
 
             // construct value
             if let Ok(val) = t2p(item).construct(ctx, h)
-                && ctx.offset() > end
+                && (ret.is_none() || ctx.offset() > end)
             {
                 end = ctx.offset();
                 ret = Some((val, item));
             }
         }
+        // leave at the end of the longest one, or where we started
+        ctx.set_offset(end);
         ret.map(|v| r2r(v.0, v.1)).ok_or(err)
     }
 }
diff --git a/src/regex.rs b/src/regex.rs
index 14bad7a..4c1085b 100644
--- a/src/regex.rs
+++ b/src/regex.rs
@@ -816,12 +816,14 @@ where
 
             // match regex
             if let Ok(span) = ctx.try_mat(t2p(item))
-                && longest.map(|v: Span| v.len() < span.len()).unwrap_or(true)
+                && longest.map(|(_, end)| end < ctx.offset()).unwrap_or(true)
             {
-                longest = Some(span);
+                longest = Some((span, ctx.offset()));
             }
         }
-        longest.ok_or(err)
+        // leave at the end of the longest one, or where we started
+        ctx.set_offset(longest.map(|(_, end)| end).unwrap_or(beg));
+        longest.map(|(span, _)| span).ok_or(err)
     }
 }
 
-- 
2.43.0


From 36dab521bf2e556fefb8006880f58d25cb742341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:40 +0000
Subject: [PATCH 03/21] fix: a failing pattern-building closure puts the
 position back

---
 src/ctor/dthen.rs    | 4 +++-
 src/regex/builder.rs | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ctor/dthen.rs b/src/ctor/dthen.rs
index e426248..b91dee5 100644
--- a/src/ctor/dthen.rs
+++ b/src/ctor/dthen.rs
@@ -227,11 +227,13 @@ where
             )
         };
         let l = ctx.process_ret(l)?;
+        let pat = (self.func)(ctx.ctx(), &l);
+        let pat = ctx.process_ret(pat)?;
         let r = {
             debug_ctor_stage!(
                 "DynamicCtorThenBuilder",
                 "right",
-                (self.func)(ctx.ctx(), &l)?.construct(ctx.ctx(), func)
+                pat.construct(ctx.ctx(), func)
             )
         };
         let r = ctx.process_ret(r)?;
diff --git a/src/regex/builder.rs b/src/regex/builder.rs
index f57ee5a..84e068f 100644
--- a/src/regex/builder.rs
+++ b/src/regex/builder.rs
@@ -50,7 +50,8 @@ where
         let span = ctx.try_mat(&pat)?;
         // build new regex base on result, let the user control ctx
         // continue match from end of previous span
-        let new_pat = (func)(ctx.ctx(), &span)?;
+        let new_pat = (func)(ctx.ctx(), &span);
+        let new_pat = ctx.process_ret(new_pat)?;
         // match again
         let ret = ctx.try_mat(&new_pat);
 
-- 
2.43.0


From 622edfa7b6831bdce02e36b19b93d95d02139742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:40 +0000
Subject: [PATCH 04/21] fix: repeat2 and sep2 stop at their maximum

---
 src/ctor/repeat2.rs | 4 ++--
 src/ctor/sep.rs     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ctor/repeat2.rs b/src/ctor/repeat2.rs
index 4a6c75f..30915cb 100644
--- a/src/ctor/repeat2.rs
+++ b/src/ctor/repeat2.rs
@@ -165,7 +165,7 @@ where
         let range = M..=N;
 
         crate::debug_ctor_beg!("Repeat2", &range, offset);
-        while cnt <= N {
+        while cnt < N {
             if let Ok(val) = self.pat.construct(ctx, handler) {
                 vals[cnt] = Some(val);
                 cnt += 1;
@@ -200,7 +200,7 @@ where
         let range = M..=N;
 
         crate::debug_regex_beg!("Repeat2", &range, offset);
-        while cnt <= N {
+        while cnt < N {
             if let Ok(p_span) = ctx.try_mat(&self.pat) {
                 total.add_assign(p_span);
                 cnt += 1;
diff --git a/src/ctor/sep.rs b/src/ctor/sep.rs
index 09cf563..8a469e5 100644
--- a/src/ctor/sep.rs
+++ b/src/ctor/sep.rs
@@ -789,7 +789,7 @@ where
         let range = M..=N;
 
         debug_ctor_beg!("Separate2", &range, offset);
-        while cnt <= N {
+        while cnt < N {
             if let Ok(val) = self.pat.construct(ctx, func) {
                 let s_span = ctx.try_mat(&self.sep);
 
@@ -832,7 +832,7 @@ where
         let range = M..=N;
 
         debug_regex_beg!("Separate2", &range, offset);
-        while cnt <= N {
+        while cnt < N {
             if let Ok(p_span) = ctx.try_mat(&self.pat) {
                 let s_span = ctx.try_mat(&self.sep);
 
-- 
2.43.0


From 7d8fcbd6484d8b0ac75d89e8b461b630b2f61dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:40 +0000
Subject: [PATCH 05/21] fix: a failed match restores the position from before
 the skipped or preceding text

---
 src/ctx/policy.rs | 24 ++++++++++++++++++------
 src/ctx/regex.rs  | 14 ++++++++++----
 2 files changed, 28 insertions(+), 10 deletions(-)

diff --git a/src/ctx/policy.rs b/src/ctx/policy.rs
index 46e18d6..8bfadf6 100644
--- a/src/ctx/policy.rs
+++ b/src/ctx/policy.rs
@@ -3,6 +3,7 @@ use super::PolicyMatch;
 use super::Regex;
 use super::Span;
 
+use crate::ctx::CtxGuard;
 use crate::ctx::Match;
 use crate::err::Error;
 use crate::iter::IndexBySpan;
@@ -155,8 +156,14 @@ where
     where
         Pat: Regex<PolicyCtx<I, R>> + ?Sized,
     {
-        self.regex.try_parse(&mut self.inner)?;
-        pat.try_parse(self)
+        let mut guard = CtxGuard::new(self);
+        let ctx = guard.ctx();
+        let ret = ctx
+            .regex
+            .try_parse(&mut ctx.inner)
+            .and_then(|_| pat.try_parse(ctx));
+
+        guard.process_ret(ret)
     }
 }
 
@@ -176,11 +183,16 @@ where
         B: Regex<PolicyCtx<I, R>> + ?Sized,
         A: Regex<PolicyCtx<I, R>> + ?Sized,
     {
-        before.try_parse(self)?;
-        let ret = pat.try_parse(self)?;
+        let mut guard = CtxGuard::new(self);
+        let ctx = guard.ctx();
+        let ret = before.try_parse(ctx).and_then(|_| {
+            let ret = pat.try_parse(ctx)?;
+
+            after.try_parse(ctx)?;
+            Ok(ret)
+        });
 
-        after.try_parse(self)?;
-        Ok(ret)
+        guard.process_ret(ret)
     }
 }
 
diff --git a/src/ctx/regex.rs b/src/ctx/regex.rs
index 1340a71..60e683e 100644
--- a/src/ctx/regex.rs
+++ b/src/ctx/regex.rs
@@ -6,6 +6,7 @@ use super::PolicyMatch;
 use super::Regex;
 use super::Span;
 
+use crate::ctx::CtxGuard;
 use crate::ctx::Match;
 use crate::err::Error;
 use crate::iter::BytesIndices;
@@ -459,11 +460,16 @@ where
         B: Regex<RegexCtx<'a, T>> + ?Sized,
         A: Regex<RegexCtx<'a, T>> + ?Sized,
     {
-        before.try_parse(self)?;
-        let ret = pat.try_parse(self)?;
+        let mut guard = CtxGuard::new(self);
+        let ctx = guard.ctx();
+        let ret = before.try_parse(ctx).and_then(|_| {
+            let ret = pat.try_parse(ctx)?;
 
-        after.try_parse(self)?;
-        Ok(ret)
+            after.try_parse(ctx)?;
+            Ok(ret)
+        });
+
+        guard.process_ret(ret)
     }
 }
 
-- 
2.43.0


From e54934c27c4f6cfdb049b5a63318771a5d69d9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:40 +0000
Subject: [PATCH 06/21] fix: longest match of two patterns ends where the
 longer one ends when text is skipped

---
 src/ctor/longest.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/ctor/longest.rs b/src/ctor/longest.rs
index 406d815..1a80819 100644
--- a/src/ctor/longest.rs
+++ b/src/ctor/longest.rs
@@ -242,21 +242,30 @@ where
         debug_regex_beg!("LongestTokenMatch", offset);
 
         let l = debug_regex_stage!("LongestTokenMatch", "l", ctx.try_mat(&self.left));
+        let off_l = ctx.offset();
 
         // reset offset
         ctx.set_offset(offset);
 
         let r = debug_regex_stage!("LongestTokenMatch", "r", ctx.try_mat(&self.right));
+        let off_r = ctx.offset();
 
         // pick longer one
         let ret = match (l, r) {
-            (Ok(l), Ok(r)) => Ok(if l.len() >= r.len() { l } else { r }),
-            (Ok(l), Err(_)) => Ok(l),
-            (Err(_), Ok(r)) => Ok(r),
+            (Ok(l), Ok(r)) => Ok(if off_l >= off_r {
+                (off_l, l)
+            } else {
+                (off_r, r)
+            }),
+            (Ok(l), Err(_)) => Ok((off_l, l)),
+            (Err(_), Ok(r)) => Ok((off_r, r)),
             (Err(_), Err(r)) => Err(r),
         };
 
-        ctx.set_offset(offset + ret.map(|v| v.len()).unwrap_or_default());
+        ctx.set_offset(ret.map(|v| v.0).unwrap_or(offset));
+
+        let ret = ret.map(|v| v.1);
+
         debug_regex_reval!("LongestTokenMatch", ret)
     }
 }
-- 
2.43.0


From 2deeee9f58e94eda8b201fb8850ab540a0827137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:40 +0000
Subject: [PATCH 07/21] fix: a repetition gives back the text of an element it
 could not build

---
 src/ctor/collect.rs | 14 +++++++++++---
 src/ctor/repeat.rs  |  3 +++
 src/ctor/repeat2.rs |  3 +++
 3 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/ctor/collect.rs b/src/ctor/collect.rs
index 38cf065..08491e7 100644
--- a/src/ctor/collect.rs
+++ b/src/ctor/collect.rs
@@ -169,9 +169,17 @@ where
         let val = {
             crate::debug_ctor_beg!("Collect", offset);
             V::from_iter(core::iter::from_fn(|| {
-                self.pat.construct(ctx, func).ok().inspect(|_| {
-                    cnt += 1;
-                })
+                let end = ctx.offset();
+
+                self.pat
+                    .construct(ctx, func)
+                    .inspect(|_| {
+                        cnt += 1;
+                    })
+                    .inspect_err(|_| {
+                        ctx.set_offset(end);
+                    })
+                    .ok()
             }))
         };
         let ret = if cnt >= self.min {
diff --git a/src/ctor/repeat.rs b/src/ctor/repeat.rs
index 66f6021..450ba10 100644
--- a/src/ctor/repeat.rs
+++ b/src/ctor/repeat.rs
@@ -218,10 +218,13 @@ where
 
         crate::debug_ctor_beg!("Repeat", self.range, offset);
         while self.is_contain(cnt) {
+            let end = ctx.offset();
+
             if let Ok(val) = self.pat.construct(ctx, handler) {
                 vals.push(val);
                 cnt += 1;
             } else {
+                ctx.set_offset(end);
                 break;
             }
         }
diff --git a/src/ctor/repeat2.rs b/src/ctor/repeat2.rs
index 30915cb..ba0ce3d 100644
--- a/src/ctor/repeat2.rs
+++ b/src/ctor/repeat2.rs
@@ -166,10 +166,13 @@ where
 
         crate::debug_ctor_beg!("Repeat2", &range, offset);
         while cnt < N {
+            let end = ctx.offset();
+
             if let Ok(val) = self.pat.construct(ctx, handler) {
                 vals[cnt] = Some(val);
                 cnt += 1;
             } else {
+                ctx.set_offset(end);
                 break;
             }
         }
-- 
2.43.0


From ba211ea2983ced9be3835b6954be2d2e2013ae8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:54 +0000
Subject: [PATCH 08/21] fix: a separated list consumes only the elements and
 separators it lists

---
 src/ctor/sep.rs | 69 +++++++++++++++++++++++++++++++++++--------------
 1 file changed, 49 insertions(+), 20 deletions(-)

diff --git a/src/ctor/sep.rs b/src/ctor/sep.rs
index 8a469e5..33c5930 100644
--- a/src/ctor/sep.rs
+++ b/src/ctor/sep.rs
@@ -508,13 +508,22 @@ mod alloc_sep {
             let range: CRange<usize> = (self.min..).into();
 
             debug_ctor_beg!("Separate", range, offset);
-            while let Ok(val) = self.pat.construct(ctx, func) {
-                let s_span = ctx.try_mat(&self.sep);
+            loop {
+                let end = ctx.offset();
 
-                if s_span.is_ok() || self.skip {
-                    vals.push(val);
-                }
-                if s_span.is_err() {
+                if let Ok(val) = self.pat.construct(ctx, func) {
+                    let s_span = ctx.try_mat(&self.sep);
+
+                    if s_span.is_ok() || self.skip {
+                        vals.push(val);
+                    } else {
+                        ctx.set_offset(end);
+                    }
+                    if s_span.is_err() {
+                        break;
+                    }
+                } else {
+                    ctx.set_offset(end);
                     break;
                 }
             }
@@ -546,6 +555,8 @@ mod alloc_sep {
             let range: CRange<usize> = (self.min..).into();
 
             debug_regex_beg!("Separate", range, offset);
+            let mut end = offset;
+
             while let Ok(p_span) = ctx.try_mat(&self.pat) {
                 let s_span = ctx.try_mat(&self.sep);
 
@@ -555,11 +566,13 @@ mod alloc_sep {
                     if let Ok(sep_ret) = s_span {
                         total.add_assign(sep_ret);
                     }
+                    end = ctx.offset();
                 }
                 if s_span.is_err() {
                     break;
                 }
             }
+            ctx.set_offset(end);
             let ret = if cnt >= self.min {
                 Ok(total)
             } else {
@@ -790,17 +803,22 @@ where
 
         debug_ctor_beg!("Separate2", &range, offset);
         while cnt < N {
+            let end = ctx.offset();
+
             if let Ok(val) = self.pat.construct(ctx, func) {
                 let s_span = ctx.try_mat(&self.sep);
 
                 if s_span.is_ok() || self.skip {
                     vals[cnt] = Some(val);
                     cnt += 1;
+                } else {
+                    ctx.set_offset(end);
                 }
                 if s_span.is_err() {
                     break;
                 }
             } else {
+                ctx.set_offset(end);
                 break;
             }
         }
@@ -832,6 +850,8 @@ where
         let range = M..=N;
 
         debug_regex_beg!("Separate2", &range, offset);
+        let mut end = offset;
+
         while cnt < N {
             if let Ok(p_span) = ctx.try_mat(&self.pat) {
                 let s_span = ctx.try_mat(&self.sep);
@@ -842,6 +862,7 @@ where
                     if let Ok(sep_ret) = s_span {
                         total.add_assign(sep_ret);
                     }
+                    end = ctx.offset();
                 }
                 if s_span.is_err() {
                     break;
@@ -850,6 +871,7 @@ where
                 break;
             }
         }
+        ctx.set_offset(end);
         let ret = if cnt >= M {
             Ok(total)
         } else {
@@ -1099,23 +1121,26 @@ where
         let ret = {
             debug_ctor_beg!("SepCollect", range, offset);
             V::from_iter(core::iter::from_fn(|| {
-                self.pat.construct(ctx, func).ok().and_then(|ret| {
+                // the last element had no separator
+                if end {
+                    return None;
+                }
+                let beg = ctx.offset();
+
+                if let Ok(ret) = self.pat.construct(ctx, func) {
                     let s_span = ctx.try_mat(&self.sep);
 
-                    if !end {
-                        if s_span.is_err() {
-                            end = true;
-                        }
-                        // The current value is captured only
-                        // when the current delimiter matches successfully
-                        // or the skip flag is true.
-                        if s_span.is_ok() || self.skip {
-                            cnt += 1;
-                            return Some(ret);
-                        }
+                    end = s_span.is_err();
+                    // The current value is captured only
+                    // when the current delimiter matches successfully
+                    // or the skip flag is true.
+                    if s_span.is_ok() || self.skip {
+                        cnt += 1;
+                        return Some(ret);
                     }
-                    None
-                })
+                }
+                ctx.set_offset(beg);
+                None
             }))
         };
         let ret = if cnt >= self.min {
@@ -1146,6 +1171,8 @@ where
         let range: CRange<usize> = (self.min..).into();
 
         debug_regex_beg!("SepCollect", range, offset);
+        let mut end = offset;
+
         while let Ok(p_span) = ctx.try_mat(&self.pat) {
             let s_span = ctx.try_mat(&self.sep);
 
@@ -1155,11 +1182,13 @@ where
                 if let Ok(sep_ret) = s_span {
                     total.add_assign(sep_ret);
                 }
+                end = ctx.offset();
             }
             if s_span.is_err() {
                 break;
             }
         }
+        ctx.set_offset(end);
         let ret = if cnt >= self.min {
             Ok(total)
         } else {
-- 
2.43.0


From 6d519e1457c79630e6870cd3cca825d5f505966b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:54 +0000
Subject: [PATCH 09/21] fix: reading outside the input reports OutOfBound
 instead of overflowing

---
 src/ctx.rs       |  4 +++-
 src/ctx/regex.rs | 12 ++++++------
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/ctx.rs b/src/ctx.rs
index cf7c4ed..b3c07d6 100644
--- a/src/ctx.rs
+++ b/src/ctx.rs
@@ -72,7 +72,9 @@ pub trait Context<'a> {
 
     /// Returns a slice of the original data starting from a specific offset.
     fn orig_at(&self, offset: usize) -> Result<Self::Orig<'a>, Error> {
-        self.orig_sub(offset, self.len() - offset)
+        let len = self.len().checked_sub(offset).ok_or(Error::OutOfBound)?;
+
+        self.orig_sub(offset, len)
     }
 
     /// Returns a subslice of the original data with specified offset and length.
diff --git a/src/ctx/regex.rs b/src/ctx/regex.rs
index 60e683e..79a6f7b 100644
--- a/src/ctx/regex.rs
+++ b/src/ctx/regex.rs
@@ -374,9 +374,9 @@ impl<'a> Context<'a> for RegexCtx<'a, [u8]> {
     }
 
     fn orig_sub(&self, offset: usize, len: usize) -> Result<Self::Orig<'a>, Error> {
-        self.dat
-            .get(offset..(offset + len))
-            .ok_or(Error::OutOfBound)
+        let end = offset.checked_add(len).ok_or(Error::OutOfBound)?;
+
+        self.dat.get(offset..end).ok_or(Error::OutOfBound)
     }
 
     fn clone_at(&self, offset: usize) -> Result<Self, Error> {
@@ -426,9 +426,9 @@ impl<'a> Context<'a> for RegexCtx<'a, str> {
     }
 
     fn orig_sub(&self, offset: usize, len: usize) -> Result<Self::Orig<'a>, Error> {
-        self.dat
-            .get(offset..(offset + len))
-            .ok_or(Error::OutOfBound)
+        let end = offset.checked_add(len).ok_or(Error::OutOfBound)?;
+
+        self.dat.get(offset..end).ok_or(Error::OutOfBound)
     }
 
     fn clone_at(&self, offset: usize) -> Result<Self, Error> {
-- 
2.43.0


From 7eabb45825b096dcd10adfa1c95f852dd6ff22f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:54 +0000
Subject: [PATCH 10/21] fix: a value outside its bounds is reported as
 Error::Bounded

---
 src/map.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/map.rs b/src/map.rs
index d6ce9d9..511a9be 100644
--- a/src/map.rs
+++ b/src/map.rs
@@ -670,7 +670,7 @@ where
         if self.min <= val && val < self.max {
             Ok(val)
         } else {
-            Err(Error::SelectEq)
+            Err(Error::Bounded)
         }
     }
 }
-- 
2.43.0


From 06542c3e2eb30523e34f0ff942603d2ecd1b79a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:54 +0000
Subject: [PATCH 11/21] fix: the length hint of an exhausted span iterator is
 zero

---
 src/iter/span.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iter/span.rs b/src/iter/span.rs
index 8e85228..48003c3 100644
--- a/src/iter/span.rs
+++ b/src/iter/span.rs
@@ -43,7 +43,7 @@ where
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let size = self.spans.len() - self.cur;
+        let size = self.spans.len().saturating_sub(self.cur);
 
         (size, Some(size))
     }
@@ -115,7 +115,7 @@ where
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let size = self.spans.len() - self.cur;
+        let size = self.spans.len().saturating_sub(self.cur);
 
         (size, Some(size))
     }
-- 
2.43.0


From 2f0b976770ca3d3ab7f4ef7c17ee1ac50f5834fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:20 +0000
Subject: [PATCH 12/21] fix: matching from a position beyond the input fails
 instead of underflowing

---
 src/neu/once.rs      | 4 ++--
 src/neu/opt.rs       | 4 ++--
 src/neu/then.rs      | 2 +-
 src/neu/times.rs     | 4 ++--
 src/regex/consume.rs | 2 +-
 src/regex/literal.rs | 2 +-
 6 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/neu/once.rs b/src/neu/once.rs
index a537be5..94f6c92 100644
--- a/src/neu/once.rs
+++ b/src/neu/once.rs
@@ -185,7 +185,7 @@ where
     fn try_parse(&self, ctx: &mut C) -> Result<Span, crate::err::Error> {
         let mut ret = Err(Error::Once);
         let mut iter = ctx.peek()?;
-        let remaining_len = ctx.len() - ctx.offset();
+        let remaining_len = ctx.len().saturating_sub(ctx.offset());
 
         crate::debug_regex_beg!("Once", ctx.offset());
         if let Some((offset, item)) = iter.next()
@@ -381,7 +381,7 @@ where
         let mut end = None;
         let mut ret = Err(Error::Many1);
         let mut iter = ctx.peek()?;
-        let remaining_len = ctx.len() - ctx.offset();
+        let remaining_len = ctx.len().saturating_sub(ctx.offset());
 
         crate::debug_regex_beg!("Many1", ctx.offset());
         for pair in iter.by_ref() {
diff --git a/src/neu/opt.rs b/src/neu/opt.rs
index b314d48..b584f19 100644
--- a/src/neu/opt.rs
+++ b/src/neu/opt.rs
@@ -195,7 +195,7 @@ where
     #[inline(always)]
     fn try_parse(&self, ctx: &mut C) -> Result<Span, crate::err::Error> {
         let mut ret = Ok(Span::new(ctx.offset(), 0));
-        let remaining_len = ctx.len() - ctx.offset();
+        let remaining_len = ctx.len().saturating_sub(ctx.offset());
 
         crate::debug_regex_beg!("Opt", ctx.offset());
         if let Ok(mut iter) = ctx.peek()
@@ -393,7 +393,7 @@ where
         let mut beg = None;
         let mut end = None;
         let mut ret = Ok(Span::new(ctx.offset(), 0));
-        let remaining_len = ctx.len() - ctx.offset();
+        let remaining_len = ctx.len().saturating_sub(ctx.offset());
 
         crate::debug_regex_beg!("Many0", ctx.offset());
         if let Ok(mut iter) = ctx.peek() {
diff --git a/src/neu/then.rs b/src/neu/then.rs
index 04560a7..ffc7669 100644
--- a/src/neu/then.rs
+++ b/src/neu/then.rs
@@ -204,7 +204,7 @@ where
     fn try_parse(&self, ctx: &mut C) -> Result<Span, crate::err::Error> {
         let mut ret = Err(Error::NeureThen);
         let mut iter = ctx.peek()?;
-        let remaining_len = ctx.len() - ctx.offset();
+        let remaining_len = ctx.len().saturating_sub(ctx.offset());
         let min_length = self.left.min_length() + self.right.min_length();
 
         crate::debug_regex_beg!("NeureThen", min_length, ctx.offset());
diff --git a/src/neu/times.rs b/src/neu/times.rs
index fda70ea..31460fd 100644
--- a/src/neu/times.rs
+++ b/src/neu/times.rs
@@ -227,7 +227,7 @@ where
         let mut end = None;
         let mut ret = Err(Error::Between);
         let mut iter = ctx.peek()?;
-        let remaining_len = ctx.len() - ctx.offset();
+        let remaining_len = ctx.len().saturating_sub(ctx.offset());
         let range = M..N;
 
         crate::debug_regex_beg!("Between", &range, ctx.offset());
@@ -433,7 +433,7 @@ where
         let mut end = None;
         let mut ret = Err(Error::Times);
         let mut iter = ctx.peek()?;
-        let remaining_len = ctx.len() - ctx.offset();
+        let remaining_len = ctx.len().saturating_sub(ctx.offset());
 
         fn bound_checker(max: Option<usize>) -> impl Fn(usize) -> bool {
             move |val| max.map(|max| val < max).unwrap_or(true)
diff --git a/src/regex/consume.rs b/src/regex/consume.rs
index 2ccc65e..70c9c81 100644
--- a/src/regex/consume.rs
+++ b/src/regex/consume.rs
@@ -77,7 +77,7 @@ where
         let length = self.0;
 
         debug_regex_beg!("Consume", length, ctx.offset());
-        let ret = if ctx.len() - ctx.offset() >= length {
+        let ret = if ctx.len().saturating_sub(ctx.offset()) >= length {
             Ok(new_span_inc(ctx, length))
         } else {
             Err(Error::Consume)
diff --git a/src/regex/literal.rs b/src/regex/literal.rs
index 1ca067d..a680086 100644
--- a/src/regex/literal.rs
+++ b/src/regex/literal.rs
@@ -104,7 +104,7 @@ where
     fn try_parse(&self, ctx: &mut C) -> Result<Span, crate::err::Error> {
         let mut ret = Err(Error::Literal);
         let slice_len = self.literal.length();
-        let remaining_len = ctx.len() - ctx.offset();
+        let remaining_len = ctx.len().saturating_sub(ctx.offset());
 
         crate::debug_regex_beg!("Literal", ctx.offset());
         if remaining_len >= slice_len && self.literal.prefix_of(&ctx.orig()?) {
-- 
2.43.0


From 0272198ef01eff72abb21149e431ea0d3cf5d4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:15 +0000
Subject: [PATCH 13/21] fix: a huge repetition count does not overflow the
 minimum length

---
 src/neu/times.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/neu/times.rs b/src/neu/times.rs
index 31460fd..1f707a0 100644
--- a/src/neu/times.rs
+++ b/src/neu/times.rs
@@ -231,7 +231,7 @@ where
         let range = M..N;
 
         crate::debug_regex_beg!("Between", &range, ctx.offset());
-        if remaining_len >= M * self.unit.min_length() {
+        if remaining_len >= M.saturating_mul(self.unit.min_length()) {
             while cnt < N {
                 if let Some(pair) = iter.next() {
                     if self.unit.is_match(&pair.1) && self.cond.check(ctx, &pair)? {
@@ -447,8 +447,10 @@ where
         });
 
         let min_length = || match self.range.start_bound() {
-            core::ops::Bound::Included(max) => max * self.unit.min_length(),
-            core::ops::Bound::Excluded(max) => max.saturating_sub(1) * self.unit.min_length(),
+            core::ops::Bound::Included(max) => max.saturating_mul(self.unit.min_length()),
+            core::ops::Bound::Excluded(max) => {
+                max.saturating_sub(1).saturating_mul(self.unit.min_length())
+            }
             core::ops::Bound::Unbounded => 0,
         };
 
-- 
2.43.0


From 2641960db3f08c4f78b7e9777823a96feb96d758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:56 +0000
Subject: [PATCH 14/21] fix: extending a span by one nested in it keeps
 covering both

---
 src/span.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/span.rs b/src/span.rs
index de15bb5..6428013 100644
--- a/src/span.rs
+++ b/src/span.rs
@@ -49,7 +49,7 @@ impl Span {
     /// the other span must starts after the current span.
     pub fn add_assign(&mut self, other: Self) -> &mut Self {
         debug_assert!(other.beg >= self.beg, "other beg must bigger than current");
-        self.len += other.len + other.beg - (self.beg + self.len);
+        self.len = self.len.max(other.beg + other.len - self.beg);
         self
     }
 
-- 
2.43.0


From a7dbcba12574661baebfa293d90c38810a27ba70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:57 +0000
Subject: [PATCH 15/21] fix: slicing by a span that overflows yields nothing

---
 src/iter/mod.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/iter/mod.rs b/src/iter/mod.rs
index 4c7715a..22d01b2 100644
--- a/src/iter/mod.rs
+++ b/src/iter/mod.rs
@@ -19,7 +19,7 @@ impl IndexBySpan for str {
     type Output = str;
 
     fn get_by_span(&self, span: &Span) -> Option<&Self::Output> {
-        self.get(span.beg..(span.beg + span.len))
+        self.get(span.beg..span.beg.checked_add(span.len)?)
     }
 }
 
@@ -27,7 +27,7 @@ impl IndexBySpan for &'_ str {
     type Output = str;
 
     fn get_by_span(&self, span: &Span) -> Option<&Self::Output> {
-        self.get(span.beg..(span.beg + span.len))
+        self.get(span.beg..span.beg.checked_add(span.len)?)
     }
 }
 
@@ -35,7 +35,7 @@ impl IndexBySpan for [u8] {
     type Output = [u8];
 
     fn get_by_span(&self, span: &Span) -> Option<&Self::Output> {
-        self.get(span.beg..(span.beg + span.len))
+        self.get(span.beg..span.beg.checked_add(span.len)?)
     }
 }
 
@@ -43,7 +43,7 @@ impl IndexBySpan for &'_ [u8] {
     type Output = [u8];
 
     fn get_by_span(&self, span: &Span) -> Option<&Self::Output> {
-        self.get(span.beg..(span.beg + span.len))
+        self.get(span.beg..span.beg.checked_add(span.len)?)
     }
 }
 
@@ -52,7 +52,7 @@ impl IndexBySpan for crate::alloc::Vec<u8> {
     type Output = [u8];
 
     fn get_by_span(&self, span: &Span) -> Option<&Self::Output> {
-        self.get(span.beg..(span.beg + span.len))
+        self.get(span.beg..span.beg.checked_add(span.len)?)
     }
 }
 
@@ -61,6 +61,6 @@ impl IndexBySpan for &'_ crate::alloc::Vec<u8> {
     type Output = [u8];
 
     fn get_by_span(&self, span: &Span) -> Option<&Self::Output> {
-        self.get(span.beg..(span.beg + span.len))
+        self.get(span.beg..span.beg.checked_add(span.len)?)
     }
 }
-- 
2.43.0


From b45e5c50166badade0df98d53030ba040d0bb060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:23 +0000
Subject: [PATCH 16/21] fix: a search that skips to the end stays inside the
 input

---
 src/ctx.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ctx.rs b/src/ctx.rs
index b3c07d6..2628fe8 100644
--- a/src/ctx.rs
+++ b/src/ctx.rs
@@ -503,7 +503,7 @@ pub trait MatchMulti<'a>: Sized + Match<'a> {
         let func = |ctx: &mut Self, val: Result<Span, Error>| match val {
             Ok(val) if !val.is_empty() => Some(val),
             _ => {
-                ctx.inc(1);
+                ctx.set_offset(ctx.len().min(ctx.offset() + 1));
                 None
             }
         };
@@ -583,7 +583,7 @@ pub trait MatchMulti<'a>: Sized + Match<'a> {
         let func = |ctx: &mut Self, val: Result<Span, Error>| match val {
             Ok(val) if !val.is_empty() => Some(val),
             _ => {
-                ctx.inc(1);
+                ctx.set_offset(ctx.len().min(ctx.offset() + 1));
                 None
             }
         };
-- 
2.43.0


From 43cb85b385518a8e9a34d518eef3ef4016917fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:51 +0000
Subject: [PATCH 17/21] fix: iterating an array storage visits every filled
 slot and counts only those

---
 src/iter/span.rs | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/src/iter/span.rs b/src/iter/span.rs
index 48003c3..7fac25c 100644
--- a/src/iter/span.rs
+++ b/src/iter/span.rs
@@ -105,17 +105,17 @@ where
     type Item = &'a <T as IndexBySpan>::Output;
 
     fn next(&mut self) -> Option<Self::Item> {
-        let cur = self.cur;
-
-        self.cur += 1;
-        self.spans
-            .get(cur)
-            .and_then(|v| v.as_ref())
-            .and_then(|v| self.value.get_by_span(v))
+        while let Some(slot) = self.spans.get(self.cur) {
+            self.cur += 1;
+            if let Some(span) = slot {
+                return self.value.get_by_span(span);
+            }
+        }
+        None
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let size = self.spans.len().saturating_sub(self.cur);
+        let size = self.spans.iter().skip(self.cur).flatten().count();
 
         (size, Some(size))
     }
@@ -140,13 +140,12 @@ impl Iterator for OptionSpanIterator<'_> {
     type Item = Span;
 
     fn next(&mut self) -> Option<Self::Item> {
-        let offset = self.offset;
-
-        if offset < self.spans.len() {
+        while let Some(slot) = self.spans.get(self.offset) {
             self.offset += 1;
-            self.spans.get(offset).and_then(|v| v.as_ref()).copied()
-        } else {
-            None
+            if slot.is_some() {
+                return *slot;
+            }
         }
+        None
     }
 }
-- 
2.43.0


From 72b4057214654d002479788ae011ddce1d7cc003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:18 +0000
Subject: [PATCH 18/21] fix: a default prefix class has rejected nothing yet

---
 src/neu/prefix.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/neu/prefix.rs b/src/neu/prefix.rs
index 079978f..de4f929 100644
--- a/src/neu/prefix.rs
+++ b/src/neu/prefix.rs
@@ -46,7 +46,7 @@ where
             prefix: Default::default(),
             unit: Default::default(),
             count: Default::default(),
-            value: Default::default(),
+            value: Cell::new(true),
             marker: Default::default(),
         }
     }
@@ -296,7 +296,7 @@ where
             prefix: Default::default(),
             unit: Default::default(),
             count: Default::default(),
-            value: Default::default(),
+            value: AtomicBool::new(true),
             marker: Default::default(),
         }
     }
-- 
2.43.0


From 2d0b94510edd6ece2a98ef8bfab426843d548ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:42 +0000
Subject: [PATCH 19/21] fix: each step of a thread-safe prefix class takes
 effect atomically

---
 src/neu/prefix.rs | 44 ++++++++++++++++++++++++--------------------
 1 file changed, 24 insertions(+), 20 deletions(-)

diff --git a/src/neu/prefix.rs b/src/neu/prefix.rs
index de4f929..d0d290e 100644
--- a/src/neu/prefix.rs
+++ b/src/neu/prefix.rs
@@ -1,7 +1,6 @@
 use core::cell::Cell;
 use core::fmt::Debug;
 use core::marker::PhantomData;
-use core::sync::atomic::AtomicBool;
 use core::sync::atomic::AtomicUsize;
 use core::sync::atomic::Ordering::Relaxed;
 
@@ -259,6 +258,9 @@ where
     Prefix::new(prefix, n, unit)
 }
 
+/// State of a [`PrefixSync`] that has rejected one of its first items.
+const REJECTED: usize = usize::MAX;
+
 pub struct PrefixSync<U, P, T>
 where
     U: Neu<T>,
@@ -266,8 +268,8 @@ where
 {
     prefix: P,
     unit: U,
+    // how many items are still to be tested against the prefix, or REJECTED
     count: AtomicUsize,
-    value: AtomicBool,
     marker: PhantomData<T>,
 }
 
@@ -281,7 +283,6 @@ where
             .field("prefix", &self.prefix)
             .field("unit", &self.unit)
             .field("count", &self.count)
-            .field("value", &self.value)
             .finish()
     }
 }
@@ -296,7 +297,6 @@ where
             prefix: Default::default(),
             unit: Default::default(),
             count: Default::default(),
-            value: AtomicBool::new(true),
             marker: Default::default(),
         }
     }
@@ -311,7 +311,6 @@ where
         Self {
             prefix: self.prefix.clone(),
             unit: self.unit.clone(),
-            value: AtomicBool::new(self.value.load(Relaxed)),
             count: AtomicUsize::new(self.count.load(Relaxed)),
             marker: self.marker,
         }
@@ -327,8 +326,7 @@ where
         Self {
             prefix,
             unit,
-            count: AtomicUsize::new(count),
-            value: AtomicBool::new(true),
+            count: AtomicUsize::new(if count == REJECTED { count - 1 } else { count }),
             marker: PhantomData,
         }
     }
@@ -368,25 +366,31 @@ where
 {
     #[inline(always)]
     fn is_match(&self, other: &T) -> bool {
-        let mut value = self.value.load(Relaxed);
-
-        if value {
+        // Each step takes effect at its successful exchange (or at the load, once
+        // the prefix is settled), so concurrent steps behave as in some order.
+        loop {
             let count = self.count.load(Relaxed);
 
+            if count == REJECTED {
+                return false;
+            }
             if count == 0 {
-                value = self.unit.is_match(other) && value;
+                let value = self.unit.is_match(other);
 
-                crate::trace_retval!("PrefixSync", other, value);
-            } else {
-                value = self.prefix.is_match(other) && value;
-
-                crate::trace_retval!("PrefixSync", count, other, value);
-                self.value.store(value, Relaxed);
-                self.count.store(count - 1, Relaxed);
+                return crate::trace_retval!("PrefixSync", other, value);
+            }
+            let value = self.prefix.is_match(other);
+            let next = if value { count - 1 } else { REJECTED };
+
+            crate::trace_retval!("PrefixSync", count, other, value);
+            if self
+                .count
+                .compare_exchange(count, next, Relaxed, Relaxed)
+                .is_ok()
+            {
+                return value;
             }
         }
-
-        value
     }
 
     fn min_length(&self) -> usize {
-- 
2.43.0


From a754fed36c17db3ca07abf066dd16d640b1b97f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:55 +0000
Subject: [PATCH 20/21] fix: a thread-safe recursive parser can recurse

---
 src/ctor.rs      | 7 +++++++
 src/lib.rs       | 1 +
 src/regex.rs     | 7 +++++++
 src/regex/rec.rs | 9 +++++----
 4 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/ctor.rs b/src/ctor.rs
index f1d1076..f04ab0b 100644
--- a/src/ctor.rs
+++ b/src/ctor.rs
@@ -281,6 +281,13 @@ impl_forward_ctor!(
     crate::std::Mutex<I>
 );
 
+#[cfg(feature = "std")]
+impl_forward_ctor!(
+    self_,
+    self_.get().ok_or(Error::Option)?,
+    crate::std::OnceLock<I>
+);
+
 impl<C, O, I, H> Ctor<C, O, H> for Cell<I>
 where
     I: Ctor<C, O, H> + Copy,
diff --git a/src/lib.rs b/src/lib.rs
index 5e61f0d..ab24393 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -35,6 +35,7 @@ pub(crate) mod std {
     #[allow(unused)]
     pub use std::collections::HashSet;
     pub use std::sync::Mutex;
+    pub use std::sync::OnceLock;
 }
 
 #[cfg(any(feature = "log", feature = "tracing"))]
diff --git a/src/regex.rs b/src/regex.rs
index 4c1085b..fe484df 100644
--- a/src/regex.rs
+++ b/src/regex.rs
@@ -234,6 +234,13 @@ impl_forward_regex!(
     crate::std::Mutex<P>
 );
 
+#[cfg(feature = "std")]
+impl_forward_regex!(
+    self_,
+    self_.get().ok_or(Error::Option)?,
+    crate::std::OnceLock<P>
+);
+
 impl<P, C> Regex<C> for Cell<P>
 where
     P: Regex<C> + Copy,
diff --git a/src/regex/rec.rs b/src/regex/rec.rs
index 11fbc75..c675ba8 100644
--- a/src/regex/rec.rs
+++ b/src/regex/rec.rs
@@ -8,10 +8,10 @@ mod rec_sync {
     use crate::ctor::Handler;
     use crate::ctx::Context;
     use crate::ctx::Match;
-    use crate::std::Mutex;
+    use crate::std::OnceLock;
 
     pub type RecursiveCtorSync<'b, C, O, H> =
-        Arc<Mutex<Option<Adapter<C, Box<dyn Ctor<C, O, H> + Send + Sync + 'b>>>>>;
+        Arc<OnceLock<Adapter<C, Box<dyn Ctor<C, O, H> + Send + Sync + 'b>>>>;
 
     ///
     /// This function will construct a [RecursiveCtorSync] for recursive parsing,
@@ -50,11 +50,12 @@ mod rec_sync {
         H: Handler<C>,
         I: Ctor<C, O, H> + Send + Sync + 'b,
     {
-        let r_ctor: RecursiveCtorSync<'b, C, O, H> = Arc::new(Mutex::new(None));
+        let r_ctor: RecursiveCtorSync<'b, C, O, H> = Arc::new(OnceLock::new());
         let r_ctor_clone = r_ctor.clone();
         let ctor = handler(r_ctor_clone);
 
-        *r_ctor.lock().unwrap() = Some(Adapter::dyn_box_sync(ctor));
+        // set once, then only read: parsing may enter the handle again and again
+        r_ctor.get_or_init(|| Adapter::dyn_box_sync(ctor));
         r_ctor
     }
 
-- 
2.43.0


From e3c6a681431510a69ca7c0dbd97c70615063f3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:29 +0000
Subject: [PATCH 21/21] fix: neu!() expands to the whitespace class

---
 src/macro.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/macro.rs b/src/macro.rs
index bfeeb28..8f5d123 100644
--- a/src/macro.rs
+++ b/src/macro.rs
@@ -261,7 +261,7 @@ macro_rules! neu {
         $crate::neu::equal($ch)
     };
     () => {
-        $crate::neu::space()
+        $crate::neu::whitespace()
     };
 }
 
-- 
2.43.0

