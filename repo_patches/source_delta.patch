From 24b1f7d981d801bd2f3f2292ec9c95a074c9b1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:26 +0000
Subject: [PATCH] fix: include the side to move in the keys computed by
 Position::new

do_move flips Key::COLOR on every ply, but Position::new never set it for
a position with White to move, so the same position had different keys
depending on whether it was reached by moves or constructed.
---
 src/position.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/position.rs b/src/position.rs
index be77b16..91093bc 100644
--- a/src/position.rs
+++ b/src/position.rs
@@ -29,6 +29,9 @@ impl Position {
                 }
             }
         }
+        if inner.side == Color::White {
+            keys.0 ^= Key::COLOR;
+        }
         let checkers = AttackInfo::calculate_checkers(&inner);
         let state = State {
             keys,
-- 
2.43.0

