From ae74d6ec2f16b2374ef8abb55188ca35c919f5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:17 +0000
Subject: [PATCH 01/19] fix: restore the offset when a mapper rejects the
 constructed value

---
 src/ctor/map.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/ctor/map.rs b/src/ctor/map.rs
index d43e5e2..d213246 100644
--- a/src/ctor/map.rs
+++ b/src/ctor/map.rs
@@ -228,7 +228,14 @@ where
 {
     #[inline(always)]
     fn construct(&self, ctx: &mut C, func: &mut H) -> Result<V, Error> {
-        self.mapper.try_map(self.pat.construct(ctx, func)?)
+        let offset = ctx.offset();
+
+        self.pat
+            .construct(ctx, func)
+            .and_then(|val| self.mapper.try_map(val))
+            .inspect_err(|_| {
+                ctx.set_offset(offset);
+            })
     }
 }
 
-- 
2.43.0


From 4111a178d1eda0ce89edbb35e6bc0f4ea03ff064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:17 +0000
Subject: [PATCH 02/19] fix: stop Repeat2 at its maximum count instead of
 running one element past it

---
 src/ctor/repeat2.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ctor/repeat2.rs b/src/ctor/repeat2.rs
index 4a6c75f..30915cb 100644
--- a/src/ctor/repeat2.rs
+++ b/src/ctor/repeat2.rs
@@ -165,7 +165,7 @@ where
         let range = M..=N;
 
         crate::debug_ctor_beg!("Repeat2", &range, offset);
-        while cnt <= N {
+        while cnt < N {
             if let Ok(val) = self.pat.construct(ctx, handler) {
                 vals[cnt] = Some(val);
                 cnt += 1;
@@ -200,7 +200,7 @@ where
         let range = M..=N;
 
         crate::debug_regex_beg!("Repeat2", &range, offset);
-        while cnt <= N {
+        while cnt < N {
             if let Ok(p_span) = ctx.try_mat(&self.pat) {
                 total.add_assign(p_span);
                 cnt += 1;
-- 
2.43.0


From 63c05835b1608e1b3b268f11aa0b7871e944b175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:17 +0000
Subject: [PATCH 03/19] fix: stop Separate2 at its maximum count instead of
 running one element past it

---
 src/ctor/sep.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ctor/sep.rs b/src/ctor/sep.rs
index 09cf563..8a469e5 100644
--- a/src/ctor/sep.rs
+++ b/src/ctor/sep.rs
@@ -789,7 +789,7 @@ where
         let range = M..=N;
 
         debug_ctor_beg!("Separate2", &range, offset);
-        while cnt <= N {
+        while cnt < N {
             if let Ok(val) = self.pat.construct(ctx, func) {
                 let s_span = ctx.try_mat(&self.sep);
 
@@ -832,7 +832,7 @@ where
         let range = M..=N;
 
         debug_regex_beg!("Separate2", &range, offset);
-        while cnt <= N {
+        while cnt < N {
             if let Ok(p_span) = ctx.try_mat(&self.pat) {
                 let s_span = ctx.try_mat(&self.sep);
 
-- 
2.43.0


From 61b93b479496bc990c74ad9f8dc34d2edeb1ad28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:17 +0000
Subject: [PATCH 04/19] fix: leave the offset at the end of the longest
 alternative in the ltm collections

---
 src/ctor.rs  | 4 +++-
 src/regex.rs | 2 ++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ctor.rs b/src/ctor.rs
index 79fa4b4..f50156d 100644
--- a/src/ctor.rs
+++ b/src/ctor.rs
@@ -962,12 +962,14 @@ where
 
             // construct value
             if let Ok(val) = t2p(item).construct(ctx, h)
-                && ctx.offset() > end
+                && (ret.is_none() || ctx.offset() > end)
             {
                 end = ctx.offset();
                 ret = Some((val, item));
             }
         }
+        // continue from the end of longest match, or stay at begin if nothing matched
+        ctx.set_offset(end);
         ret.map(|v| r2r(v.0, v.1)).ok_or(err)
     }
 }
diff --git a/src/regex.rs b/src/regex.rs
index 14bad7a..8f82056 100644
--- a/src/regex.rs
+++ b/src/regex.rs
@@ -821,6 +821,8 @@ where
                 longest = Some(span);
             }
         }
+        // continue from the end of longest match, or stay at begin if nothing matched
+        ctx.set_offset(longest.map(|v| v.beg() + v.len()).unwrap_or(beg));
         longest.ok_or(err)
     }
 }
-- 
2.43.0


From 4c31a9243c481ba45933b73363fc0e714dd8ed9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:17 +0000
Subject: [PATCH 05/19] fix: set the offset of LongestTokenMatch to the end of
 the matched span

---
 src/ctor/longest.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ctor/longest.rs b/src/ctor/longest.rs
index 406d815..1d8750e 100644
--- a/src/ctor/longest.rs
+++ b/src/ctor/longest.rs
@@ -256,7 +256,7 @@ where
             (Err(_), Err(r)) => Err(r),
         };
 
-        ctx.set_offset(offset + ret.map(|v| v.len()).unwrap_or_default());
+        ctx.set_offset(ret.map(|v| v.beg() + v.len()).unwrap_or(offset));
         debug_regex_reval!("LongestTokenMatch", ret)
     }
 }
-- 
2.43.0


From d95e5b05626a75e5d93db501d58e12439120fe57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:17 +0000
Subject: [PATCH 06/19] fix: restore the offset when a policy or the match
 behind it fails

---
 src/ctx/policy.rs | 27 ++++++++++++++++++++-------
 src/ctx/regex.rs  | 15 ++++++++++-----
 2 files changed, 30 insertions(+), 12 deletions(-)

diff --git a/src/ctx/policy.rs b/src/ctx/policy.rs
index 46e18d6..33ab8c6 100644
--- a/src/ctx/policy.rs
+++ b/src/ctx/policy.rs
@@ -155,8 +155,16 @@ where
     where
         Pat: Regex<PolicyCtx<I, R>> + ?Sized,
     {
-        self.regex.try_parse(&mut self.inner)?;
-        pat.try_parse(self)
+        let offset = Context::offset(self);
+        let ret = self
+            .regex
+            .try_parse(&mut self.inner)
+            .and_then(|_| pat.try_parse(self));
+
+        // also give back what the policy has consumed if the match failed
+        ret.inspect_err(|_| {
+            Context::set_offset(self, offset);
+        })
     }
 }
 
@@ -176,11 +184,16 @@ where
         B: Regex<PolicyCtx<I, R>> + ?Sized,
         A: Regex<PolicyCtx<I, R>> + ?Sized,
     {
-        before.try_parse(self)?;
-        let ret = pat.try_parse(self)?;
-
-        after.try_parse(self)?;
-        Ok(ret)
+        let offset = Context::offset(self);
+        let ret = before
+            .try_parse(self)
+            .and_then(|_| pat.try_parse(self))
+            .and_then(|ret| after.try_parse(self).map(|_| ret));
+
+        // a failure of any stage leaves the offset unchanged
+        ret.inspect_err(|_| {
+            Context::set_offset(self, offset);
+        })
     }
 }
 
diff --git a/src/ctx/regex.rs b/src/ctx/regex.rs
index 1340a71..6577c2d 100644
--- a/src/ctx/regex.rs
+++ b/src/ctx/regex.rs
@@ -459,11 +459,16 @@ where
         B: Regex<RegexCtx<'a, T>> + ?Sized,
         A: Regex<RegexCtx<'a, T>> + ?Sized,
     {
-        before.try_parse(self)?;
-        let ret = pat.try_parse(self)?;
-
-        after.try_parse(self)?;
-        Ok(ret)
+        let offset = Context::offset(self);
+        let ret = before
+            .try_parse(self)
+            .and_then(|_| pat.try_parse(self))
+            .and_then(|ret| after.try_parse(self).map(|_| ret));
+
+        // a failure of any stage leaves the offset unchanged
+        ret.inspect_err(|_| {
+            Context::set_offset(self, offset);
+        })
     }
 }
 
-- 
2.43.0


From 977216f8eb262f7fd5f446e21f947ae4837cadd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:17 +0000
Subject: [PATCH 07/19] fix: restore the offset when the builder function of a
 dynamic pattern fails

---
 src/ctor/dthen.rs    | 2 +-
 src/regex/builder.rs | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ctor/dthen.rs b/src/ctor/dthen.rs
index e426248..3c8ccaf 100644
--- a/src/ctor/dthen.rs
+++ b/src/ctor/dthen.rs
@@ -231,7 +231,7 @@ where
             debug_ctor_stage!(
                 "DynamicCtorThenBuilder",
                 "right",
-                (self.func)(ctx.ctx(), &l)?.construct(ctx.ctx(), func)
+                (self.func)(ctx.ctx(), &l).and_then(|pat| pat.construct(ctx.ctx(), func))
             )
         };
         let r = ctx.process_ret(r)?;
diff --git a/src/regex/builder.rs b/src/regex/builder.rs
index f57ee5a..84e068f 100644
--- a/src/regex/builder.rs
+++ b/src/regex/builder.rs
@@ -50,7 +50,8 @@ where
         let span = ctx.try_mat(&pat)?;
         // build new regex base on result, let the user control ctx
         // continue match from end of previous span
-        let new_pat = (func)(ctx.ctx(), &span)?;
+        let new_pat = (func)(ctx.ctx(), &span);
+        let new_pat = ctx.process_ret(new_pat)?;
         // match again
         let ret = ctx.try_mat(&new_pat);
 
-- 
2.43.0


From 48d5d5e77dc2a61379bf5f8aaaac6e07b5d05901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:18 +0000
Subject: [PATCH 08/19] fix: do not derive the minimum length of Not from the
 negated unit

---
 src/neu/op_not.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/neu/op_not.rs b/src/neu/op_not.rs
index 4d67f0d..36ca291 100644
--- a/src/neu/op_not.rs
+++ b/src/neu/op_not.rs
@@ -109,7 +109,8 @@ where
     }
 
     fn min_length(&self) -> usize {
-        self.unit.min_length()
+        // nothing is known about the length of the items rejected by `unit`
+        1
     }
 }
 
-- 
2.43.0


From 54ff4c80705c6935bf9b8d88c289620359c71ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:38 +0000
Subject: [PATCH 09/19] fix: do not consume an element that the separated list
 does not keep

---
 src/ctor/sep.rs | 59 ++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 48 insertions(+), 11 deletions(-)

diff --git a/src/ctor/sep.rs b/src/ctor/sep.rs
index 8a469e5..76d2f12 100644
--- a/src/ctor/sep.rs
+++ b/src/ctor/sep.rs
@@ -504,6 +504,7 @@ mod alloc_sep {
         #[inline(always)]
         fn construct(&self, ctx: &mut C, func: &mut H) -> Result<crate::alloc::Vec<O>, Error> {
             let offset: usize = ctx.offset();
+            let mut beg = offset;
             let mut vals = crate::alloc::Vec::with_capacity(self.capacity.max(self.min));
             let range: CRange<usize> = (self.min..).into();
 
@@ -515,8 +516,13 @@ mod alloc_sep {
                     vals.push(val);
                 }
                 if s_span.is_err() {
+                    if !self.skip {
+                        // the element without separator is not part of the list
+                        ctx.set_offset(beg);
+                    }
                     break;
                 }
+                beg = ctx.offset();
             }
             let ret = if vals.len() >= self.min {
                 Ok(vals)
@@ -541,6 +547,7 @@ mod alloc_sep {
         #[inline(always)]
         fn try_parse(&self, ctx: &mut C) -> Result<Span, Error> {
             let offset = ctx.offset();
+            let mut beg = offset;
             let mut cnt = 0;
             let mut total = Span::new(offset, 0);
             let range: CRange<usize> = (self.min..).into();
@@ -557,8 +564,13 @@ mod alloc_sep {
                     }
                 }
                 if s_span.is_err() {
+                    if !self.skip {
+                        // the element without separator is not part of the list
+                        ctx.set_offset(beg);
+                    }
                     break;
                 }
+                beg = ctx.offset();
             }
             let ret = if cnt >= self.min {
                 Ok(total)
@@ -784,6 +796,7 @@ where
     #[inline(always)]
     fn construct(&self, ctx: &mut C, func: &mut H) -> Result<[Option<O>; N], Error> {
         let offset: usize = ctx.offset();
+        let mut beg = offset;
         let mut vals = [const { None }; N];
         let mut cnt = 0;
         let range = M..=N;
@@ -798,8 +811,13 @@ where
                     cnt += 1;
                 }
                 if s_span.is_err() {
+                    if !self.skip {
+                        // the element without separator is not part of the list
+                        ctx.set_offset(beg);
+                    }
                     break;
                 }
+                beg = ctx.offset();
             } else {
                 break;
             }
@@ -827,6 +845,7 @@ where
     #[inline(always)]
     fn try_parse(&self, ctx: &mut C) -> Result<Span, Error> {
         let offset = ctx.offset();
+        let mut beg = offset;
         let mut cnt = 0;
         let mut total = Span::new(offset, 0);
         let range = M..=N;
@@ -844,8 +863,13 @@ where
                     }
                 }
                 if s_span.is_err() {
+                    if !self.skip {
+                        // the element without separator is not part of the list
+                        ctx.set_offset(beg);
+                    }
                     break;
                 }
+                beg = ctx.offset();
             } else {
                 break;
             }
@@ -1093,27 +1117,34 @@ where
     #[inline(always)]
     fn construct(&self, ctx: &mut C, func: &mut H) -> Result<V, Error> {
         let offset = ctx.offset();
+        let mut beg = offset;
         let mut cnt = 0;
         let mut end = false;
         let range: CRange<usize> = (self.min..).into();
         let ret = {
             debug_ctor_beg!("SepCollect", range, offset);
             V::from_iter(core::iter::from_fn(|| {
+                // The list ends at the first element without a separator,
+                // nothing behind it may be consumed.
+                if end {
+                    return None;
+                }
                 self.pat.construct(ctx, func).ok().and_then(|ret| {
                     let s_span = ctx.try_mat(&self.sep);
 
-                    if !end {
-                        if s_span.is_err() {
-                            end = true;
-                        }
-                        // The current value is captured only
-                        // when the current delimiter matches successfully
-                        // or the skip flag is true.
-                        if s_span.is_ok() || self.skip {
-                            cnt += 1;
-                            return Some(ret);
-                        }
+                    if s_span.is_err() {
+                        end = true;
+                    }
+                    // The current value is captured only
+                    // when the current delimiter matches successfully
+                    // or the skip flag is true.
+                    if s_span.is_ok() || self.skip {
+                        cnt += 1;
+                        beg = ctx.offset();
+                        return Some(ret);
                     }
+                    // the element without separator is not part of the list
+                    ctx.set_offset(beg);
                     None
                 })
             }))
@@ -1141,6 +1172,7 @@ where
     #[inline(always)]
     fn try_parse(&self, ctx: &mut C) -> Result<Span, Error> {
         let offset = ctx.offset();
+        let mut beg = offset;
         let mut cnt = 0;
         let mut total = Span::new(offset, 0);
         let range: CRange<usize> = (self.min..).into();
@@ -1157,8 +1189,13 @@ where
                 }
             }
             if s_span.is_err() {
+                if !self.skip {
+                    // the element without separator is not part of the list
+                    ctx.set_offset(beg);
+                }
                 break;
             }
+            beg = ctx.offset();
         }
         let ret = if cnt >= self.min {
             Ok(total)
-- 
2.43.0


From 3448231f6dc48e5185d0eec411973bdadee85a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:23 +0000
Subject: [PATCH 10/19] fix: restore the offset when a handler or mapper
 rejects a matched span

---
 src/ctor.rs          | 21 +++++++++++++++++++++
 src/ctor/pat.rs      |  4 +---
 src/ctx.rs           | 22 ++++++++++++++++------
 src/neu/once.rs      |  8 ++------
 src/neu/opt.rs       |  8 ++------
 src/neu/then.rs      |  4 +---
 src/neu/times.rs     |  8 ++------
 src/regex/adapter.rs | 16 ++++------------
 src/regex/anchor.rs  |  8 ++------
 src/regex/assert.rs  |  4 +---
 src/regex/consume.rs |  8 ++------
 src/regex/empty.rs   |  4 +---
 src/regex/fail.rs    |  4 +---
 src/regex/literal.rs |  4 +---
 14 files changed, 57 insertions(+), 66 deletions(-)

diff --git a/src/ctor.rs b/src/ctor.rs
index f50156d..267c08f 100644
--- a/src/ctor.rs
+++ b/src/ctor.rs
@@ -909,6 +909,27 @@ where
     }
 }
 
+/// Match the `pat` and pass the span to `handler`, restore the offset if any of them failed.
+#[inline(always)]
+pub(crate) fn construct_with<'a, C, P, H>(
+    pat: &P,
+    ctx: &mut C,
+    handler: &mut H,
+) -> Result<H::Out, Error>
+where
+    P: Regex<C> + ?Sized,
+    C: Match<'a>,
+    H: Handler<C>,
+{
+    let offset = ctx.offset();
+    let span = ctx.try_mat(pat)?;
+
+    handler.invoke(ctx, &span).map_err(|err| {
+        ctx.set_offset(offset);
+        err.into()
+    })
+}
+
 pub(crate) fn handler<'a, C, T, P, O, H, A, B, R>(
     err: Error,
     t2p: A,
diff --git a/src/ctor/pat.rs b/src/ctor/pat.rs
index 9d16739..1905841 100644
--- a/src/ctor/pat.rs
+++ b/src/ctor/pat.rs
@@ -135,9 +135,7 @@ where
 {
     #[inline(always)]
     fn construct(&self, ctx: &mut C, func: &mut H) -> Result<O, Error> {
-        let ret = ctx.try_mat(&self.pat)?;
-
-        func.invoke(ctx, &ret).map_err(Into::into)
+        crate::ctor::construct_with(&self.pat, ctx, func)
     }
 }
 
diff --git a/src/ctx.rs b/src/ctx.rs
index cf7c4ed..d471fe5 100644
--- a/src/ctx.rs
+++ b/src/ctx.rs
@@ -390,7 +390,13 @@ where
         P: Regex<Self>,
         M: FallibleMap<Span, O>,
     {
-        mapper.try_map(self.map_handler(pat, extract::<Span>())?)
+        let offset = self.offset();
+
+        self.map_handler(pat, extract::<Span>())
+            .and_then(|val| mapper.try_map(val))
+            .inspect_err(|_| {
+                self.set_offset(offset);
+            })
     }
 
     /// Matches a pattern, extracts the matched substring, and maps it.
@@ -424,9 +430,15 @@ where
         P: Regex<Self>,
         M: FallibleMap<Self::Orig<'a>, O>,
     {
-        mapper.try_map(self.map_handler(pat, |ctx: &Self, span: &Span| {
+        let offset = self.offset();
+
+        self.map_handler(pat, |ctx: &Self, span: &Span| {
             ctx.orig_sub(span.beg, span.len)
-        })?)
+        })
+        .and_then(|val| mapper.try_map(val))
+        .inspect_err(|_| {
+            self.set_offset(offset);
+        })
     }
 }
 
@@ -439,9 +451,7 @@ where
         P: Regex<Self>,
         H: Handler<Self, Out = O>,
     {
-        let ret = self.try_mat(pat)?;
-
-        handler.invoke(self, &ret).map_err(Into::into)
+        crate::ctor::construct_with(pat, self, &mut handler)
     }
 }
 
diff --git a/src/neu/once.rs b/src/neu/once.rs
index a537be5..b50b4ed 100644
--- a/src/neu/once.rs
+++ b/src/neu/once.rs
@@ -169,9 +169,7 @@ where
 {
     #[inline(always)]
     fn construct(&self, ctx: &mut C, func: &mut H) -> Result<O, Error> {
-        let ret = ctx.try_mat(self);
-
-        func.invoke(ctx, &ret?).map_err(Into::into)
+        crate::ctor::construct_with(self, ctx, func)
     }
 }
 
@@ -363,9 +361,7 @@ where
 {
     #[inline(always)]
     fn construct(&self, ctx: &mut C, func: &mut H) -> Result<O, Error> {
-        let ret = ctx.try_mat(self);
-
-        func.invoke(ctx, &ret?).map_err(Into::into)
+        crate::ctor::construct_with(self, ctx, func)
     }
 }
 
diff --git a/src/neu/opt.rs b/src/neu/opt.rs
index b314d48..82679b0 100644
--- a/src/neu/opt.rs
+++ b/src/neu/opt.rs
@@ -180,9 +180,7 @@ where
 {
     #[inline(always)]
     fn construct(&self, ctx: &mut C, func: &mut H) -> Result<O, Error> {
-        let ret = ctx.try_mat(self);
-
-        func.invoke(ctx, &ret?).map_err(Into::into)
+        crate::ctor::construct_with(self, ctx, func)
     }
 }
 
@@ -376,9 +374,7 @@ where
 {
     #[inline(always)]
     fn construct(&self, ctx: &mut C, func: &mut H) -> Result<O, Error> {
-        let ret = ctx.try_mat(self);
-
-        func.invoke(ctx, &ret?).map_err(Into::into)
+        crate::ctor::construct_with(self, ctx, func)
     }
 }
 
diff --git a/src/neu/then.rs b/src/neu/then.rs
index 04560a7..94e4ff8 100644
--- a/src/neu/then.rs
+++ b/src/neu/then.rs
@@ -187,9 +187,7 @@ where
 {
     #[inline(always)]
     fn construct(&self, ctx: &mut C, func: &mut H) -> Result<O, Error> {
-        let ret = ctx.try_mat(self);
-
-        func.invoke(ctx, &ret?).map_err(Into::into)
+        crate::ctor::construct_with(self, ctx, func)
     }
 }
 
diff --git a/src/neu/times.rs b/src/neu/times.rs
index fda70ea..6a79d20 100644
--- a/src/neu/times.rs
+++ b/src/neu/times.rs
@@ -208,9 +208,7 @@ where
 {
     #[inline(always)]
     fn construct(&self, ctx: &mut C, func: &mut H) -> Result<O, Error> {
-        let ret = ctx.try_mat(self);
-
-        func.invoke(ctx, &ret?).map_err(Into::into)
+        crate::ctor::construct_with(self, ctx, func)
     }
 }
 
@@ -414,9 +412,7 @@ where
 {
     #[inline(always)]
     fn construct(&self, ctx: &mut C, func: &mut H) -> Result<O, Error> {
-        let ret = ctx.try_mat(self);
-
-        func.invoke(ctx, &ret?).map_err(Into::into)
+        crate::ctor::construct_with(self, ctx, func)
     }
 }
 
diff --git a/src/regex/adapter.rs b/src/regex/adapter.rs
index affca60..620356b 100644
--- a/src/regex/adapter.rs
+++ b/src/regex/adapter.rs
@@ -471,9 +471,7 @@ where
 {
     #[inline(always)]
     fn construct(&self, ctx: &mut C, func: &mut H) -> Result<O, Error> {
-        let ret = ctx.try_mat(self)?;
-
-        func.invoke(ctx, &ret).map_err(Into::into)
+        crate::ctor::construct_with(self, ctx, func)
     }
 }
 
@@ -517,9 +515,7 @@ where
     H: Handler<C, Out = O>,
 {
     fn construct(&self, ctx: &mut C, handler: &mut H) -> Result<O, Error> {
-        let ret = ctx.try_mat(self)?;
-
-        handler.invoke(ctx, &ret).map_err(Into::into)
+        crate::ctor::construct_with(self, ctx, handler)
     }
 }
 
@@ -554,9 +550,7 @@ where
     H: Handler<C, Out = O>,
 {
     fn construct(&self, ctx: &mut C, handler: &mut H) -> Result<O, Error> {
-        let ret = ctx.try_mat(self)?;
-
-        handler.invoke(ctx, &ret).map_err(Into::into)
+        crate::ctor::construct_with(self, ctx, handler)
     }
 }
 
@@ -625,9 +619,7 @@ mod box_adapter {
         H: Handler<C, Out = O>,
     {
         fn construct(&self, ctx: &mut C, handler: &mut H) -> Result<O, Error> {
-            let ret = ctx.try_mat(self)?;
-
-            handler.invoke(ctx, &ret).map_err(Into::into)
+            crate::ctor::construct_with(self, ctx, handler)
         }
     }
 }
diff --git a/src/regex/anchor.rs b/src/regex/anchor.rs
index 0c2b1b6..8cab7a3 100644
--- a/src/regex/anchor.rs
+++ b/src/regex/anchor.rs
@@ -61,9 +61,7 @@ where
 {
     #[inline(always)]
     fn construct(&self, ctx: &mut C, func: &mut H) -> Result<O, Error> {
-        let ret = ctx.try_mat(self)?;
-
-        func.invoke(ctx, &ret).map_err(Into::into)
+        crate::ctor::construct_with(self, ctx, func)
     }
 }
 
@@ -162,9 +160,7 @@ where
 {
     #[inline(always)]
     fn construct(&self, ctx: &mut C, func: &mut H) -> Result<O, Error> {
-        let ret = ctx.try_mat(self)?;
-
-        func.invoke(ctx, &ret).map_err(Into::into)
+        crate::ctor::construct_with(self, ctx, func)
     }
 }
 
diff --git a/src/regex/assert.rs b/src/regex/assert.rs
index 85dbdee..bd61289 100644
--- a/src/regex/assert.rs
+++ b/src/regex/assert.rs
@@ -77,9 +77,7 @@ where
 {
     #[inline(always)]
     fn construct(&self, ctx: &mut C, func: &mut H) -> Result<O, Error> {
-        let ret = ctx.try_mat(self)?;
-
-        func.invoke(ctx, &ret).map_err(Into::into)
+        crate::ctor::construct_with(self, ctx, func)
     }
 }
 
diff --git a/src/regex/consume.rs b/src/regex/consume.rs
index 2ccc65e..0f610e6 100644
--- a/src/regex/consume.rs
+++ b/src/regex/consume.rs
@@ -62,9 +62,7 @@ where
 {
     #[inline(always)]
     fn construct(&self, ctx: &mut C, func: &mut H) -> Result<O, Error> {
-        let ret = ctx.try_mat(self)?;
-
-        func.invoke(ctx, &ret).map_err(Into::into)
+        crate::ctor::construct_with(self, ctx, func)
     }
 }
 
@@ -159,9 +157,7 @@ where
 {
     #[inline(always)]
     fn construct(&self, ctx: &mut C, func: &mut H) -> Result<O, Error> {
-        let ret = ctx.try_mat(self)?;
-
-        func.invoke(ctx, &ret).map_err(Into::into)
+        crate::ctor::construct_with(self, ctx, func)
     }
 }
 
diff --git a/src/regex/empty.rs b/src/regex/empty.rs
index a44b30b..c4b4dde 100644
--- a/src/regex/empty.rs
+++ b/src/regex/empty.rs
@@ -71,9 +71,7 @@ where
 {
     #[inline(always)]
     fn construct(&self, ctx: &mut C, handler: &mut H) -> Result<O, Error> {
-        let ret = ctx.try_mat(self);
-
-        handler.invoke(ctx, &ret?).map_err(Into::into)
+        crate::ctor::construct_with(self, ctx, handler)
     }
 }
 
diff --git a/src/regex/fail.rs b/src/regex/fail.rs
index 04ce573..3a6fac8 100644
--- a/src/regex/fail.rs
+++ b/src/regex/fail.rs
@@ -71,9 +71,7 @@ where
 {
     #[inline(always)]
     fn construct(&self, ctx: &mut C, handler: &mut H) -> Result<O, Error> {
-        let ret = ctx.try_mat(self);
-
-        handler.invoke(ctx, &ret?).map_err(Into::into)
+        crate::ctor::construct_with(self, ctx, handler)
     }
 }
 
diff --git a/src/regex/literal.rs b/src/regex/literal.rs
index 1ca067d..b773d0e 100644
--- a/src/regex/literal.rs
+++ b/src/regex/literal.rs
@@ -89,9 +89,7 @@ where
 {
     #[inline(always)]
     fn construct(&self, ctx: &mut C, func: &mut H) -> Result<O, Error> {
-        let ret = ctx.try_mat(self)?;
-
-        func.invoke(ctx, &ret).map_err(Into::into)
+        crate::ctor::construct_with(self, ctx, func)
     }
 }
 
-- 
2.43.0


From 876dd06e993fba3f0d510a557a86d65b45dc4691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:23 +0000
Subject: [PATCH 11/19] fix: report out of range positions and spans instead of
 overflowing

---
 src/ctx.rs       |  4 +++-
 src/ctx/regex.rs | 12 ++++++------
 src/iter/mod.rs  | 12 ++++++------
 3 files changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/ctx.rs b/src/ctx.rs
index d471fe5..1768d7f 100644
--- a/src/ctx.rs
+++ b/src/ctx.rs
@@ -72,7 +72,9 @@ pub trait Context<'a> {
 
     /// Returns a slice of the original data starting from a specific offset.
     fn orig_at(&self, offset: usize) -> Result<Self::Orig<'a>, Error> {
-        self.orig_sub(offset, self.len() - offset)
+        let len = self.len().checked_sub(offset).ok_or(Error::OutOfBound)?;
+
+        self.orig_sub(offset, len)
     }
 
     /// Returns a subslice of the original data with specified offset and length.
diff --git a/src/ctx/regex.rs b/src/ctx/regex.rs
index 6577c2d..8dd2545 100644
--- a/src/ctx/regex.rs
+++ b/src/ctx/regex.rs
@@ -373,9 +373,9 @@ impl<'a> Context<'a> for RegexCtx<'a, [u8]> {
     }
 
     fn orig_sub(&self, offset: usize, len: usize) -> Result<Self::Orig<'a>, Error> {
-        self.dat
-            .get(offset..(offset + len))
-            .ok_or(Error::OutOfBound)
+        let end = offset.checked_add(len).ok_or(Error::OutOfBound)?;
+
+        self.dat.get(offset..end).ok_or(Error::OutOfBound)
     }
 
     fn clone_at(&self, offset: usize) -> Result<Self, Error> {
@@ -425,9 +425,9 @@ impl<'a> Context<'a> for RegexCtx<'a, str> {
     }
 
     fn orig_sub(&self, offset: usize, len: usize) -> Result<Self::Orig<'a>, Error> {
-        self.dat
-            .get(offset..(offset + len))
-            .ok_or(Error::OutOfBound)
+        let end = offset.checked_add(len).ok_or(Error::OutOfBound)?;
+
+        self.dat.get(offset..end).ok_or(Error::OutOfBound)
     }
 
     fn clone_at(&self, offset: usize) -> Result<Self, Error> {
diff --git a/src/iter/mod.rs b/src/iter/mod.rs
index 4c7715a..22d01b2 100644
--- a/src/iter/mod.rs
+++ b/src/iter/mod.rs
@@ -19,7 +19,7 @@ impl IndexBySpan for str {
     type Output = str;
 
     fn get_by_span(&self, span: &Span) -> Option<&Self::Output> {
-        self.get(span.beg..(span.beg + span.len))
+        self.get(span.beg..span.beg.checked_add(span.len)?)
     }
 }
 
@@ -27,7 +27,7 @@ impl IndexBySpan for &'_ str {
     type Output = str;
 
     fn get_by_span(&self, span: &Span) -> Option<&Self::Output> {
-        self.get(span.beg..(span.beg + span.len))
+        self.get(span.beg..span.beg.checked_add(span.len)?)
     }
 }
 
@@ -35,7 +35,7 @@ impl IndexBySpan for [u8] {
     type Output = [u8];
 
     fn get_by_span(&self, span: &Span) -> Option<&Self::Output> {
-        self.get(span.beg..(span.beg + span.len))
+        self.get(span.beg..span.beg.checked_add(span.len)?)
     }
 }
 
@@ -43,7 +43,7 @@ impl IndexBySpan for &'_ [u8] {
     type Output = [u8];
 
     fn get_by_span(&self, span: &Span) -> Option<&Self::Output> {
-        self.get(span.beg..(span.beg + span.len))
+        self.get(span.beg..span.beg.checked_add(span.len)?)
     }
 }
 
@@ -52,7 +52,7 @@ impl IndexBySpan for crate::alloc::Vec<u8> {
     type Output = [u8];
 
     fn get_by_span(&self, span: &Span) -> Option<&Self::Output> {
-        self.get(span.beg..(span.beg + span.len))
+        self.get(span.beg..span.beg.checked_add(span.len)?)
     }
 }
 
@@ -61,6 +61,6 @@ impl IndexBySpan for &'_ crate::alloc::Vec<u8> {
     type Output = [u8];
 
     fn get_by_span(&self, span: &Span) -> Option<&Self::Output> {
-        self.get(span.beg..(span.beg + span.len))
+        self.get(span.beg..span.beg.checked_add(span.len)?)
     }
 }
-- 
2.43.0


From 6d744257a20771affae2282b523d7d3e400cbf8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:23 +0000
Subject: [PATCH 12/19] fix: fail instead of underflowing when the position is
 past the end

---
 src/neu/opt.rs       | 4 ++--
 src/regex/consume.rs | 2 +-
 src/regex/literal.rs | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/neu/opt.rs b/src/neu/opt.rs
index 82679b0..1cec691 100644
--- a/src/neu/opt.rs
+++ b/src/neu/opt.rs
@@ -193,7 +193,7 @@ where
     #[inline(always)]
     fn try_parse(&self, ctx: &mut C) -> Result<Span, crate::err::Error> {
         let mut ret = Ok(Span::new(ctx.offset(), 0));
-        let remaining_len = ctx.len() - ctx.offset();
+        let remaining_len = ctx.len().saturating_sub(ctx.offset());
 
         crate::debug_regex_beg!("Opt", ctx.offset());
         if let Ok(mut iter) = ctx.peek()
@@ -389,7 +389,7 @@ where
         let mut beg = None;
         let mut end = None;
         let mut ret = Ok(Span::new(ctx.offset(), 0));
-        let remaining_len = ctx.len() - ctx.offset();
+        let remaining_len = ctx.len().saturating_sub(ctx.offset());
 
         crate::debug_regex_beg!("Many0", ctx.offset());
         if let Ok(mut iter) = ctx.peek() {
diff --git a/src/regex/consume.rs b/src/regex/consume.rs
index 0f610e6..8a9bcfb 100644
--- a/src/regex/consume.rs
+++ b/src/regex/consume.rs
@@ -75,7 +75,7 @@ where
         let length = self.0;
 
         debug_regex_beg!("Consume", length, ctx.offset());
-        let ret = if ctx.len() - ctx.offset() >= length {
+        let ret = if ctx.len().checked_sub(ctx.offset()) >= Some(length) {
             Ok(new_span_inc(ctx, length))
         } else {
             Err(Error::Consume)
diff --git a/src/regex/literal.rs b/src/regex/literal.rs
index b773d0e..fd5760a 100644
--- a/src/regex/literal.rs
+++ b/src/regex/literal.rs
@@ -102,7 +102,7 @@ where
     fn try_parse(&self, ctx: &mut C) -> Result<Span, crate::err::Error> {
         let mut ret = Err(Error::Literal);
         let slice_len = self.literal.length();
-        let remaining_len = ctx.len() - ctx.offset();
+        let remaining_len = ctx.len().saturating_sub(ctx.offset());
 
         crate::debug_regex_beg!("Literal", ctx.offset());
         if remaining_len >= slice_len && self.literal.prefix_of(&ctx.orig()?) {
-- 
2.43.0


From 2b03d825a040208eda0c765e51b39e71de1cdecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:06 +0000
Subject: [PATCH 13/19] fix: do not overflow the minimum length check of
 Between and Times

---
 src/neu/times.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/neu/times.rs b/src/neu/times.rs
index 6a79d20..fa03acd 100644
--- a/src/neu/times.rs
+++ b/src/neu/times.rs
@@ -229,7 +229,7 @@ where
         let range = M..N;
 
         crate::debug_regex_beg!("Between", &range, ctx.offset());
-        if remaining_len >= M * self.unit.min_length() {
+        if remaining_len >= M.saturating_mul(self.unit.min_length()) {
             while cnt < N {
                 if let Some(pair) = iter.next() {
                     if self.unit.is_match(&pair.1) && self.cond.check(ctx, &pair)? {
@@ -443,8 +443,10 @@ where
         });
 
         let min_length = || match self.range.start_bound() {
-            core::ops::Bound::Included(max) => max * self.unit.min_length(),
-            core::ops::Bound::Excluded(max) => max.saturating_sub(1) * self.unit.min_length(),
+            core::ops::Bound::Included(max) => max.saturating_mul(self.unit.min_length()),
+            core::ops::Bound::Excluded(max) => {
+                max.saturating_sub(1).saturating_mul(self.unit.min_length())
+            }
             core::ops::Bound::Unbounded => 0,
         };
 
-- 
2.43.0


From d93199beb578075302a2d2c4e23275abdc6f36ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:06 +0000
Subject: [PATCH 14/19] fix: skip empty slots and keep the size hint exact when
 iterating spans

---
 src/iter/span.rs | 50 ++++++++++++++++++++++++++++++------------------
 1 file changed, 31 insertions(+), 19 deletions(-)

diff --git a/src/iter/span.rs b/src/iter/span.rs
index 8e85228..66b5536 100644
--- a/src/iter/span.rs
+++ b/src/iter/span.rs
@@ -36,14 +36,21 @@ where
     type Item = &'a <T as IndexBySpan>::Output;
 
     fn next(&mut self) -> Option<Self::Item> {
-        let cur = self.cur;
-
-        self.cur += 1;
-        self.spans.get(cur).and_then(|v| self.value.get_by_span(v))
+        // a span which denotes nothing in the value is skipped
+        while let Some(span) = self.spans.get(self.cur) {
+            self.cur += 1;
+            if let Some(item) = self.value.get_by_span(span) {
+                return Some(item);
+            }
+        }
+        None
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let size = self.spans.len() - self.cur;
+        let size = self.spans[self.cur..]
+            .iter()
+            .filter(|v| self.value.get_by_span(v).is_some())
+            .count();
 
         (size, Some(size))
     }
@@ -105,17 +112,22 @@ where
     type Item = &'a <T as IndexBySpan>::Output;
 
     fn next(&mut self) -> Option<Self::Item> {
-        let cur = self.cur;
-
-        self.cur += 1;
-        self.spans
-            .get(cur)
-            .and_then(|v| v.as_ref())
-            .and_then(|v| self.value.get_by_span(v))
+        // an empty slot, or a span which denotes nothing in the value, is skipped
+        while let Some(slot) = self.spans.get(self.cur) {
+            self.cur += 1;
+            if let Some(item) = slot.as_ref().and_then(|v| self.value.get_by_span(v)) {
+                return Some(item);
+            }
+        }
+        None
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let size = self.spans.len() - self.cur;
+        let size = self.spans[self.cur..]
+            .iter()
+            .flatten()
+            .filter(|v| self.value.get_by_span(v).is_some())
+            .count();
 
         (size, Some(size))
     }
@@ -140,13 +152,13 @@ impl Iterator for OptionSpanIterator<'_> {
     type Item = Span;
 
     fn next(&mut self) -> Option<Self::Item> {
-        let offset = self.offset;
-
-        if offset < self.spans.len() {
+        // an empty slot is skipped
+        while let Some(slot) = self.spans.get(self.offset) {
             self.offset += 1;
-            self.spans.get(offset).and_then(|v| v.as_ref()).copied()
-        } else {
-            None
+            if slot.is_some() {
+                return *slot;
+            }
         }
+        None
     }
 }
-- 
2.43.0


From b49b4f23f3ff88717b5b091958a74fecc2a7bba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:06 +0000
Subject: [PATCH 15/19] fix: merge overlapping spans without underflow

---
 src/span.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/span.rs b/src/span.rs
index de15bb5..0b6c6fb 100644
--- a/src/span.rs
+++ b/src/span.rs
@@ -49,7 +49,7 @@ impl Span {
     /// the other span must starts after the current span.
     pub fn add_assign(&mut self, other: Self) -> &mut Self {
         debug_assert!(other.beg >= self.beg, "other beg must bigger than current");
-        self.len += other.len + other.beg - (self.beg + self.len);
+        self.len = other.beg - self.beg + other.len;
         self
     }
 
-- 
2.43.0


From a6e49bbfcddf892028d931ff5cae74cb160e0889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:06 +0000
Subject: [PATCH 16/19] fix: report a group without spans as None

---
 src/span.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/span.rs b/src/span.rs
index 0b6c6fb..5f68668 100644
--- a/src/span.rs
+++ b/src/span.rs
@@ -398,7 +398,7 @@ impl<const M: usize, const N: usize> ArrayStorer<M, N> {
     /// - The group exists but contains no spans
     pub fn spans(&self, id: usize) -> Option<&[Option<Span>]> {
         self.spans.get(id).and_then(|v| {
-            if v.is_empty() {
+            if v.iter().all(|v| v.is_none()) {
                 None
             } else {
                 Some(v.as_slice())
-- 
2.43.0


From 8010cf7307a5dae6bb0a0a84e91a463ce98c785b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:06 +0000
Subject: [PATCH 17/19] fix: begin the span of CtxGuard::inc at the current
 offset

---
 src/ctx/guard.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ctx/guard.rs b/src/ctx/guard.rs
index 3c83bf8..ddf2770 100644
--- a/src/ctx/guard.rs
+++ b/src/ctx/guard.rs
@@ -62,7 +62,7 @@ where
 
     /// Advances the context by `len` bytes and returns the corresponding [`Span`].
     pub fn inc(&mut self, len: usize) -> Span {
-        let span = Span::new(self.beg(), len);
+        let span = Span::new(self.end(), len);
 
         self.ctx.inc(len);
         span
-- 
2.43.0


From 199b903c224fe7486bdfc8811231bd6b73aca323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:54 +0000
Subject: [PATCH 18/19] fix: compare the ends of longest-match alternatives,
 not the lengths of their spans

---
 src/ctor/longest.rs | 6 +++++-
 src/regex.rs        | 4 +++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ctor/longest.rs b/src/ctor/longest.rs
index 1d8750e..e52a179 100644
--- a/src/ctor/longest.rs
+++ b/src/ctor/longest.rs
@@ -250,7 +250,11 @@ where
 
         // pick longer one
         let ret = match (l, r) {
-            (Ok(l), Ok(r)) => Ok(if l.len() >= r.len() { l } else { r }),
+            (Ok(l), Ok(r)) => Ok(if l.beg() + l.len() >= r.beg() + r.len() {
+                l
+            } else {
+                r
+            }),
             (Ok(l), Err(_)) => Ok(l),
             (Err(_), Ok(r)) => Ok(r),
             (Err(_), Err(r)) => Err(r),
diff --git a/src/regex.rs b/src/regex.rs
index 8f82056..ea538e5 100644
--- a/src/regex.rs
+++ b/src/regex.rs
@@ -816,7 +816,9 @@ where
 
             // match regex
             if let Ok(span) = ctx.try_mat(t2p(item))
-                && longest.map(|v: Span| v.len() < span.len()).unwrap_or(true)
+                && longest
+                    .map(|v: Span| v.beg() + v.len() < span.beg() + span.len())
+                    .unwrap_or(true)
             {
                 longest = Some(span);
             }
-- 
2.43.0


From 0546460bcfdcfe059d03eb895cd3c737be3bd9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:58 +0000
Subject: [PATCH 19/19] fix: a constructor's log line does not underflow when a
 builder moved the position back

---
 src/log.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/log.rs b/src/log.rs
index 5227dab..3bf5789 100644
--- a/src/log.rs
+++ b/src/log.rs
@@ -161,7 +161,7 @@ mod macro_for_log {
                 "{}(Ctor) beg = {}, len = {} -> {:?}",
                 $name,
                 $beg,
-                $end - $beg,
+                $end.saturating_sub($beg),
                 $ret
             );
         }};
@@ -171,7 +171,7 @@ mod macro_for_log {
                 $name,
                 $val,
                 $beg,
-                $end - $beg,
+                $end.saturating_sub($beg),
                 $ret
             );
         }};
-- 
2.43.0

