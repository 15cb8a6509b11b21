From 20e1043c8090f9b9c6b1c6a260e1d300e4b31e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:52 +0000
Subject: [PATCH 1/4] fix: parse two digit xterm codes by their decimal value

"42".parse::<Color>() produced code 90 because the ASCII offset of the
second digit was not subtracted.
---
 src/from_str.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/from_str.rs b/src/from_str.rs
index bcf5b5c..ce39583 100644
--- a/src/from_str.rs
+++ b/src/from_str.rs
@@ -48,7 +48,7 @@ impl FromStr for Color {
                 })
             }
             &[a @ b'0'..=b'9'] => Self::Xterm((a - b'0').into()),
-            &[a @ b'0'..=b'9', b @ b'0'..=b'9'] => Self::Xterm(((a - b'0') * 10 + b).into()),
+            &[a @ b'0'..=b'9', b @ b'0'..=b'9'] => Self::Xterm(((a - b'0') * 10 + (b - b'0')).into()),
             &[a @ b'0'..=b'1', b @ b'0'..=b'9', c @ b'0'..=b'9']
             | &[a @ b'2', b @ b'0'..=b'4', c @ b'0'..=b'9']
             | &[a @ b'2', b @ b'5', c @ b'0'..=b'5'] => {
-- 
2.43.0


From 7edd8b3aed488ae14fad35f48550802e2883ea6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:52 +0000
Subject: [PATCH 2/4] fix: write foreground arguments for runtime rgb
 foreground colors

Color::Rgb delegated its foreground arguments to the background arguments,
so a style with two or more effects colored the background instead.
---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 796c728..ada56f2 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -235,7 +235,7 @@ impl WriteColor for Color {
             Color::Ansi(color) => color.fmt_foreground_args(f),
             Color::Css(color) => color.fmt_foreground_args(f),
             Color::Xterm(color) => color.fmt_foreground_args(f),
-            Color::Rgb(color) => color.fmt_background_args(f),
+            Color::Rgb(color) => color.fmt_foreground_args(f),
         }
     }
 
-- 
2.43.0


From ed688f4276826b896bc29c9458b589a796832b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:52 +0000
Subject: [PATCH 3/4] fix: use SGR 74 for subscript

Subscript shared SGR 73 with superscript.
---
 src/style.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/style.rs b/src/style.rs
index 6a05a64..9536dd4 100644
--- a/src/style.rs
+++ b/src/style.rs
@@ -558,7 +558,7 @@ Effect! {
     ///
     /// println!("{}", "hello world".subscript());
     /// ```
-    SubScript 73 75 -> subscript,
+    SubScript 74 75 -> subscript,
 }
 
 const ANY_UNDERLINE: EffectFlags = EffectFlags::new()
-- 
2.43.0


From 8e1d6ac054a3cd542fa632f551fbb9c508a40674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:52 +0000
Subject: [PATCH 4/4] fix: reject "never" followed by a space or NUL when
 parsing modes and streams

The zero padding of the five byte keyword becomes a space under the case
mask, so six byte inputs "never " and "never\0" were accepted as "never".
---
 src/mode.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mode.rs b/src/mode.rs
index 19a46c3..c7b1a53 100644
--- a/src/mode.rs
+++ b/src/mode.rs
@@ -83,7 +83,7 @@ impl Mode {
         match data {
             DETECT_STR => Ok(Mode::Detect),
             ALWAYS_STR => Ok(Mode::Always),
-            NEVER_STR => Ok(Mode::Never),
+            NEVER_STR if s.len() == 5 => Ok(Mode::Never),
             _ => Err(ModeFromStrError),
         }
     }
@@ -149,7 +149,7 @@ impl Stream {
             STDERR_STR => Ok(Stream::Stderr),
             STDOUT_STR => Ok(Stream::Stdout),
             ALWAYS_STR => Ok(Stream::AlwaysColor),
-            NEVER_STR => Ok(Stream::NeverColor),
+            NEVER_STR if s.len() == 5 => Ok(Stream::NeverColor),
             _ => Err(StreamFromStrError),
         }
     }
-- 
2.43.0

