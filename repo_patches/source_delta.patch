From fa79b025da0bf4e6f219f50a32566f4f380b3ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:39 +0000
Subject: [PATCH 01/12] fix: count nested functions without overflowing at 256

---
 src/expr/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/expr/parser.rs b/src/expr/parser.rs
index 4b5014e..abf2d16 100644
--- a/src/expr/parser.rs
+++ b/src/expr/parser.rs
@@ -27,7 +27,7 @@ impl Expression {
             parens_index: usize,
             span: std::ops::Range<usize>,
             predicates: SmallVec<[InnerPredicate; 5]>,
-            nest_level: u8,
+            nest_level: usize,
         }
 
         let mut func_stack = SmallVec::<[FuncAndSpan; 5]>::new();
@@ -317,7 +317,7 @@ impl Expression {
                             #[allow(clippy::bool_to_int_with_if)]
                             let num_predicates = top.predicates.len()
                                 + if key.is_some() { 1 } else { 0 }
-                                + top.nest_level as usize;
+                                + top.nest_level;
 
                             let func = match top.func {
                                 Func::All(_) => Func::All(num_predicates),
-- 
2.43.0


From 7ebc14dcfd71ea5e30d38ba9143908f19f09cc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:39 +0000
Subject: [PATCH 02/12] fix: reject several root predicates when some of them
 are functions

---
 src/expr/parser.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/expr/parser.rs b/src/expr/parser.rs
index abf2d16..fc712d3 100644
--- a/src/expr/parser.rs
+++ b/src/expr/parser.rs
@@ -348,6 +348,11 @@ impl Expression {
 
                             expr_queue.push(ExprNode::Fn(func));
 
+                            // A function that isn't nested in another one is a root predicate
+                            if func_stack.is_empty() {
+                                root_predicate_count += 1;
+                            }
+
                             // This is the only place we go back to the top of the outer loop,
                             // so make sure we correctly record this token
                             last_token = Some(Token::CloseParen);
-- 
2.43.0


From 8040203fe28b86325b9e31f1bee914cf22ee8852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:39 +0000
Subject: [PATCH 03/12] fix: reject consecutive commas

---
 src/expr/parser.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/expr/parser.rs b/src/expr/parser.rs
index fc712d3..485af71 100644
--- a/src/expr/parser.rs
+++ b/src/expr/parser.rs
@@ -371,7 +371,12 @@ impl Expression {
                     if matches!(
                         last_token,
                         None | Some(
-                            Token::OpenParen | Token::All | Token::Any | Token::Not | Token::Equals
+                            Token::OpenParen
+                                | Token::All
+                                | Token::Any
+                                | Token::Not
+                                | Token::Equals
+                                | Token::Comma
                         )
                     ) {
                         token_err!(lt.span)
-- 
2.43.0


From 0881f160dc253a7904330447b7930d1b0eea7ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:39 +0000
Subject: [PATCH 04/12] fix: span the whole character when the lexer rejects a
 non-ASCII one

---
 src/expr/lexer.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/expr/lexer.rs b/src/expr/lexer.rs
index 60abc6b..088ba82 100644
--- a/src/expr/lexer.rs
+++ b/src/expr/lexer.rs
@@ -133,12 +133,9 @@ impl<'a> Iterator for Lexer<'a> {
                         other => Some(Ok(Token::Key(other))),
                     }
                 } else {
-                    // clippy tries to help here, but we need
-                    // a Range here, not a RangeInclusive<>
-                    #[allow(clippy::range_plus_one)]
                     Some(Err(ParseError {
                         original: self.original.to_owned(),
-                        span: self.offset..self.offset + 1,
+                        span: self.offset..self.offset + c.len_utf8(),
                         reason: Reason::Unexpected(&["<key>", "all", "any", "not"]),
                     }))
                 }
-- 
2.43.0


From 58b2ad951dffb1399db0ed49d4c3f98f801f6359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:56 +0000
Subject: [PATCH 05/12] fix: end lexer iteration after an error

---
 src/expr/lexer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/expr/lexer.rs b/src/expr/lexer.rs
index 088ba82..2a12f42 100644
--- a/src/expr/lexer.rs
+++ b/src/expr/lexer.rs
@@ -154,6 +154,8 @@ impl<'a> Iterator for Lexer<'a> {
                     span: start..self.offset,
                 }
             })
+            // Nothing after an error is lexed, so there is nothing left to iterate
+            .inspect_err(|_err| self.inner = "")
         })
     }
 }
-- 
2.43.0


From b9549c2b02f86d0bb0d37b29a233fe268ae16fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:28 +0000
Subject: [PATCH 06/12] fix: do not match mips or mips64 on release 6 triples

---
 src/expr.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/expr.rs b/src/expr.rs
index ad17b27..feb7676 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -148,6 +148,21 @@ impl TargetMatcher for target_lexicon::Triple {
                 } else {
                     match arch.0.parse::<Architecture>() {
                         Ok(a) => match (self.architecture, a) {
+                            // Release 6 is a different architecture for rustc, see above
+                            (
+                                Architecture::Mips32(
+                                    Mips32Architecture::Mipsisa32r6
+                                    | Mips32Architecture::Mipsisa32r6el,
+                                ),
+                                Architecture::Mips32(_),
+                            )
+                            | (
+                                Architecture::Mips64(
+                                    Mips64Architecture::Mipsisa64r6
+                                    | Mips64Architecture::Mipsisa64r6el,
+                                ),
+                                Architecture::Mips64(_),
+                            ) => self.architecture == a,
                             (Architecture::Aarch64(_), Architecture::Aarch64(_))
                             | (Architecture::Mips32(_), Architecture::Mips32(_))
                             | (Architecture::Mips64(_), Architecture::Mips64(_))
-- 
2.43.0


From 8a1a78778430b7eb56d40719021beff45a42e159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:31 +0000
Subject: [PATCH 07/12] fix: android triples are neither os linux nor env gnu

---
 src/expr.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/expr.rs b/src/expr.rs
index feb7676..86614a5 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -234,14 +234,6 @@ impl TargetMatcher for target_lexicon::Triple {
                                             | Environment::GnuIlp32
                                             | Environment::Gnueabihf
                                             | Environment::GnuLlvm => true,
-                                            // Rust 1.49.0 changed all android targets to have the
-                                            // gnu environment
-                                            Environment::Android | Environment::Androideabi
-                                                if self.operating_system
-                                                    == OperatingSystem::Linux =>
-                                            {
-                                                true
-                                            }
                                             Environment::Kernel => {
                                                 self.operating_system == OperatingSystem::Linux
                                             }
@@ -364,6 +356,12 @@ impl TargetMatcher for target_lexicon::Triple {
                 match os.0.parse::<OperatingSystem>() {
                     Ok(o) => match self.environment {
                         Environment::HermitKernel => os == &targ::Os::hermit,
+                        // The os is android, handled below, and not linux
+                        Environment::Android | Environment::Androideabi
+                            if self.operating_system == OperatingSystem::Linux =>
+                        {
+                            false
+                        }
                         _ => self.operating_system == o,
                     },
                     Err(_) => {
-- 
2.43.0


From b3df8860bb58ed1dce74c8ee2dc867bf51423b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:33 +0000
Subject: [PATCH 08/12] fix: nuttx and rtems triples do not have an unknown os

---
 src/expr.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/expr.rs b/src/expr.rs
index 86614a5..71f77a2 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -362,6 +362,8 @@ impl TargetMatcher for target_lexicon::Triple {
                         {
                             false
                         }
+                        // The os is the vendor for these, handled above
+                        _ if self.vendor == NUTTX || self.vendor == RTEMS => false,
                         _ => self.operating_system == o,
                     },
                     Err(_) => {
-- 
2.43.0


From de1222272fe4abeec80b9c0eccb0c41f68dde921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:36 +0000
Subject: [PATCH 09/12] fix: esp triples have vendor espressif, and espidf
 implies newlib

---
 src/expr.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/expr.rs b/src/expr.rs
index 71f77a2..3ea321f 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -190,6 +190,7 @@ impl TargetMatcher for target_lexicon::Triple {
                 match self.operating_system {
                     OperatingSystem::Redox => env == &targ::Env::relibc,
                     OperatingSystem::VxWorks => env == &targ::Env::gnu,
+                    OperatingSystem::Espidf => env == &targ::Env::newlib,
                     OperatingSystem::Freebsd => env.0.is_empty(),
                     OperatingSystem::Netbsd => match self.architecture {
                         Architecture::Arm(ArmArchitecture::Armv6 | ArmArchitecture::Armv7) => {
@@ -396,8 +397,7 @@ impl TargetMatcher for target_lexicon::Triple {
                         true
                     } else if let target_lexicon::Vendor::Custom(custom) = &self.vendor {
                         matches!(custom.as_str(), "esp" | "esp32" | "esp32s2" | "esp32s3")
-                            && (v == target_lexicon::Vendor::Espressif
-                                || v == target_lexicon::Vendor::Unknown)
+                            && v == target_lexicon::Vendor::Espressif
                     } else {
                         false
                     }
-- 
2.43.0


From 02d2e386db1bde384fd6c19e1739bf3b05ecd698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:37 +0000
Subject: [PATCH 10/12] fix: rtems triples do not have an empty env

---
 src/expr.rs | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/expr.rs b/src/expr.rs
index 3ea321f..b307b75 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -210,17 +210,19 @@ impl TargetMatcher for target_lexicon::Triple {
                     OperatingSystem::Wasi => env.0.is_empty() || env == &targ::Env::p1,
                     _ => {
                         if env.0.is_empty() {
-                            matches!(
-                                self.environment,
-                                Environment::Unknown
-                                    | Environment::Android
-                                    | Environment::Softfloat
-                                    | Environment::Androideabi
-                                    | Environment::Eabi
-                                    | Environment::Eabihf
-                                    | Environment::Sim
-                                    | Environment::None
-                            )
+                            // The environment of rtems is always newlib
+                            self.vendor != RTEMS
+                                && matches!(
+                                    self.environment,
+                                    Environment::Unknown
+                                        | Environment::Android
+                                        | Environment::Softfloat
+                                        | Environment::Androideabi
+                                        | Environment::Eabi
+                                        | Environment::Eabihf
+                                        | Environment::Sim
+                                        | Environment::None
+                                )
                         } else {
                             match env.0.parse::<Environment>() {
                                 Ok(e) => {
-- 
2.43.0


From 48309d8d4b7550fec868f84bc9b8aff14071ba9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:50 +0000
Subject: [PATCH 11/12] fix: a deployment target in a triple does not change
 its os

---
 src/expr.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/expr.rs b/src/expr.rs
index b307b75..5b49e11 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -367,7 +367,15 @@ impl TargetMatcher for target_lexicon::Triple {
                         }
                         // The os is the vendor for these, handled above
                         _ if self.vendor == NUTTX || self.vendor == RTEMS => false,
-                        _ => self.operating_system == o,
+                        // The deployment target is not a part of the os
+                        _ => match self.operating_system {
+                            OperatingSystem::Darwin(_) => o == OperatingSystem::Darwin(None),
+                            OperatingSystem::IOS(_) => o == OperatingSystem::IOS(None),
+                            OperatingSystem::TvOS(_) => o == OperatingSystem::TvOS(None),
+                            OperatingSystem::VisionOS(_) => o == OperatingSystem::VisionOS(None),
+                            OperatingSystem::WatchOS(_) => o == OperatingSystem::WatchOS(None),
+                            os => os == o,
+                        },
                     },
                     Err(_) => {
                         // Handle special case for darwin/macos, where the triple is
-- 
2.43.0


From 6722f029381f026a619e27756a3fe9c2d69b65bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:09 +0000
Subject: [PATCH 12/12] fix: wasm64 emscripten triples are of the wasm and unix
 families

---
 src/expr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expr.rs b/src/expr.rs
index 5b49e11..4f9e57a 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -306,7 +306,7 @@ impl TargetMatcher for target_lexicon::Triple {
                     Emscripten => {
                         match self.architecture {
                             // asmjs, wasm32 and wasm64 are part of both the wasm and unix families
-                            Architecture::Asmjs | Architecture::Wasm32 => {
+                            Architecture::Asmjs | Architecture::Wasm32 | Architecture::Wasm64 => {
                                 fam == &crate::targets::Family::wasm
                                     || fam == &crate::targets::Family::unix
                             }
-- 
2.43.0

