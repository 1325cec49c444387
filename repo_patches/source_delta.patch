From b06407c181810f1a365763b4a014235a9176fa81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:46 +0000
Subject: [PATCH 1/3] fix: always recompute the location in Ctx.update_loc

The shortcut compared a stream position with the position of a location.
For a stream of tokens one is a token index and the other an offset in the
source text, so a token whose index happened to equal the offset of the
previous location was given that location: block, indented and aligned
then judged it by the wrong column.
---
 src/reparsec/core/types.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/reparsec/core/types.py b/src/reparsec/core/types.py
index 9644324..f42c3a7 100644
--- a/src/reparsec/core/types.py
+++ b/src/reparsec/core/types.py
@@ -26,8 +26,6 @@ class Ctx(Generic[S_contra]):
         return self._get_loc(self.loc, stream, pos)
 
     def update_loc(self, stream: S_contra, pos: int) -> "Ctx[S_contra]":
-        if pos == self.loc.pos:
-            return self
         return Ctx(
             self.mark, self._get_loc(self.loc, stream, pos), self._get_loc
         )
-- 
2.43.0


From be214a4c949ff926b6df31fedee59e959327d24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:48 +0000
Subject: [PATCH 2/3] fix: keep the expectations of an error repaired by
 recover_with

recover_with and recover_with_fn dropped what the wrapped parser expected
when it failed without repairs of its own, so that an enclosing parser that
discarded the insertion reported an error that expected nothing.
---
 src/reparsec/core/combinators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/reparsec/core/combinators.py b/src/reparsec/core/combinators.py
index 6b40856..cce3daa 100644
--- a/src/reparsec/core/combinators.py
+++ b/src/reparsec/core/combinators.py
@@ -484,7 +484,7 @@ def _recover_with(
             loc = ctx.get_loc(stream, pos)
             rep = make_user_insert(rem, x, pos, ctx, loc, vs, r.expected)
             if type(r) is Error:
-                return Recovered([rep], None, loc)
+                return Recovered([rep], None, loc, r.expected)
             return Recovered([rep, *r.repairs], r.min_prio, loc, r.expected)
         return r
 
@@ -527,7 +527,7 @@ def _recover_with_fn(
                 r.expected
             )
             if type(r) is Error:
-                return Recovered([rep], None, loc)
+                return Recovered([rep], None, loc, r.expected)
             return Recovered([rep, *r.repairs], r.min_prio, loc, r.expected)
         return r
 
-- 
2.43.0


From 3f596f566c38e4f075f9030c36c28f681011c4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:41 +0000
Subject: [PATCH 3/3] fix: split_tokens: raise LexError instead of looping on
 an empty match

---
 src/reparsec/lexer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/reparsec/lexer.py b/src/reparsec/lexer.py
index 0d2de7f..c457efe 100644
--- a/src/reparsec/lexer.py
+++ b/src/reparsec/lexer.py
@@ -61,6 +61,9 @@ def iter_tokens(src: str, spec: Pattern[str]) -> Iterator[Token]:
             raise LexError(loc)
 
         end = match.end()
+        if end == pos:
+            raise LexError(loc)
+
         nl = src.count("\n", pos, end)
         if nl:
             line += nl
-- 
2.43.0

