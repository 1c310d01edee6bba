From ee546985bd895484af6959c7ebf529566ed8c8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:55 +0000
Subject: [PATCH] fix: ts_sign looked at the parameter set before checking the
 context is a signing one

A context that was never initialised (all zero) is meant to be refused, as
ts_update_verify does, but its null parameter set pointer was dereferenced
first (a crash when built without optimisation).
---
 tiny_sphincs.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tiny_sphincs.c b/tiny_sphincs.c
index eacb1f2..641d295 100644
--- a/tiny_sphincs.c
+++ b/tiny_sphincs.c
@@ -441,7 +441,6 @@ void ts_wots_leaf( unsigned char *output, int leaf_index,
 unsigned ts_sign( unsigned char *dest, unsigned m,
                   struct ts_context *ctx ) {
     unsigned orig_m = m;
-    unsigned n = ctx->ps->n;
 
     if (ctx->state <= ts_sign_state || ctx->state >= ts_verify_state) {
 	/* We've been handed an invalid context (or one that's been set */
@@ -449,6 +448,8 @@ unsigned ts_sign( unsigned char *dest, unsigned m,
 	return 0;
     }
 
+    unsigned n = ctx->ps->n;
+
     while (m) {
 	/* If we have bytes left from the previous hash, given those to */
 	/* the caller */
-- 
2.43.0

