From d8099ccccacb1909ea47a044aa69af0c48fb117a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:00 +0000
Subject: [PATCH 01/10] fix: consume block ends and refuse mismatched ones

Nested blocks never consumed their closing AttributeEnd/TransformEnd, so the
first one closed every enclosing block and the rest of the world section was
silently dropped; ends of the wrong kind were accepted as well.
---
 src/parser.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 93c25a1..ce55b9d 100755
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1044,15 +1044,15 @@ impl Parser {
             }
             "AttributeBegin" => Ok(Directive::Attribute(BlockStruct {
                 pos: start_pos,
-                children: self.parse_directives()?,
+                children: self.parse_directives("AttributeEnd")?,
             })),
             "TransformBegin" => Ok(Directive::Transform(BlockStruct {
                 pos: start_pos,
-                children: self.parse_directives()?,
+                children: self.parse_directives("TransformEnd")?,
             })),
             "WorldBegin" => Ok(Directive::World(BlockStruct {
                 pos: start_pos,
-                children: self.parse_directives()?,
+                children: self.parse_directives("WorldEnd")?,
             })),
             "Include" => Ok(Directive::Include(
                 start_pos,
@@ -1078,15 +1078,22 @@ impl Parser {
         }
     }
 
-    fn parse_directives(&mut self) -> ParserResult<Vec<Directive>> {
+    fn parse_directives(&mut self, end: &str) -> ParserResult<Vec<Directive>> {
         let mut directives = vec![];
         loop {
             match self.peek()? {
                 Token {
+                    pos,
                     ty: TokenType::Identifier(ref s),
-                    ..
                 } => {
                     if s == "AttributeEnd" || s == "TransformEnd" || s == "WorldEnd" {
+                        if s != end {
+                            return Err(ParserError::Str(format!(
+                                "{} parse_directives(): expected {} but got {}",
+                                pos, end, s
+                            )));
+                        }
+                        self.next()?;
                         return Ok(directives);
                     } else {
                         directives.push(self.parse_directive()?);
-- 
2.43.0


From 1009363a4c14c6547f3c2b9567f4bb224b608873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:02 +0000
Subject: [PATCH 02/10] fix: report malformed parameters instead of dropping
 them

parse_param_lists() stopped at the first parameter that failed to parse and
discarded the error, so a parameter with a missing or odd-length value could
vanish from an accepted scene.
---
 src/parser.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index ce55b9d..54a3b1f 100755
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -561,7 +561,13 @@ impl Parser {
     }
 
     fn parse_param_lists(&mut self, param_set: &mut ParamSet) -> ParserResult<()> {
-        while self.parse_param_list(param_set).is_ok() {}
+        while let Ok(Token {
+            ty: TokenType::Str(_),
+            ..
+        }) = self.peek()
+        {
+            self.parse_param_list(param_set)?;
+        }
         Ok(())
     }
 
-- 
2.43.0


From 2157a65d5407d3ce51d1bfcdc60a1ca7736e3993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:05 +0000
Subject: [PATCH 03/10] fix: do not overflow or lose precision on powers of ten
 in numerals

1e20 overflowed isize::pow, 1e4294967296 wrapped to 1, 0.0e39 was NaN and
0.00001e40 infinite. Integers that do not fit become floats, and floats are
parsed as a whole so that they are correctly rounded.
---
 src/parser.rs | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 54a3b1f..d6a58f9 100755
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -402,22 +402,25 @@ impl Tokenizer {
                                 ),
                             })
                         }
-                        TokenType::Int(i) if i >= 0 && !is_float => {
-                            return Ok(Token {
-                                pos: start_pos,
-                                ty: TokenType::Int(
-                                    num_chars.into_iter().collect::<String>().parse::<isize>()?
-                                        * isize::pow(10, i as u32),
-                                ),
-                            })
-                        }
                         TokenType::Int(i) => {
+                            let num = num_chars.into_iter().collect::<String>();
+                            if i >= 0 && !is_float {
+                                let int = match num.parse::<isize>()? {
+                                    0 => Some(0),
+                                    _ if i > u32::max_value() as isize => None,
+                                    n => isize::checked_pow(10, i as u32)
+                                        .and_then(|p| n.checked_mul(p)),
+                                };
+                                if let Some(int) = int {
+                                    return Ok(Token {
+                                        pos: start_pos,
+                                        ty: TokenType::Int(int),
+                                    });
+                                }
+                            }
                             return Ok(Token {
                                 pos: start_pos,
-                                ty: TokenType::Float(
-                                    num_chars.into_iter().collect::<String>().parse::<Float>()?
-                                        * Float::powf(10.0, i as Float),
-                                ),
+                                ty: TokenType::Float(format!("{}e{}", num, i).parse()?),
                             })
                         }
                         _ => {
-- 
2.43.0


From e1fa5db051386d5f24c7d7030270266c3f2a7f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:07 +0000
Subject: [PATCH 04/10] fix: refuse an exponent that has an exponent

1e1e1e... recursed once per 'e' and overflowed the stack.
---
 src/parser.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index d6a58f9..10c0c20 100755
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -359,6 +359,10 @@ impl Tokenizer {
     }
 
     fn tokenize_num(&mut self) -> TokenizerResult<Token> {
+        self.tokenize_num_part(true)
+    }
+
+    fn tokenize_num_part(&mut self, allow_exp: bool) -> TokenizerResult<Token> {
         let start_pos = self.pos;
         let mut num_chars = vec![];
         match self.peek() {
@@ -384,7 +388,13 @@ impl Tokenizer {
                     is_float = true;
                     num_chars.push(self.next()?);
                 },
-                Ok('e') => {
+                Ok(ch @ 'e') => {
+                    if !allow_exp {
+                        return Err(TokenizerError::Str(format!(
+                            "{} tokenize_num(): unexpected char '{}'",
+                            self.pos, ch
+                        )));
+                    }
                     if num_chars.is_empty() {
                         return Err(TokenizerError::Str(format!(
                             "{} tokenize_num(): no number",
@@ -392,7 +402,7 @@ impl Tokenizer {
                         )));
                     }
                     let _ = self.next();
-                    match self.tokenize_num()?.remove_pos() {
+                    match self.tokenize_num_part(false)?.remove_pos() {
                         TokenType::Float(f) => {
                             return Ok(Token {
                                 pos: start_pos,
-- 
2.43.0


From 5d61aed5697bc2a7159bd7add3d09320fee0274a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:09 +0000
Subject: [PATCH 05/10] fix: skip comments and whitespace without recursion

A file with many comment lines in a row overflowed the stack.
---
 src/parser.rs | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 10c0c20..d839b8d 100755
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -311,15 +311,21 @@ impl Tokenizer {
     }
 
     fn tokenize_one(&mut self) -> TokenizerResult<Token> {
-        match self.peek() {
-            Ok('#') => {
+        // Skip over comments and whitespace
+        while let Ok(ch) = self.peek() {
+            if ch == '#' {
                 while let Ok(ch) = self.next() {
                     if ch == '\n' {
                         break;
                     }
                 }
-                self.tokenize_one()
+            } else if ch.is_whitespace() {
+                self.next()?;
+            } else {
+                break;
             }
+        }
+        match self.peek() {
             Ok('"') => self.tokenize_str(),
             Ok('[') => {
                 let tok = Ok(Token {
@@ -338,17 +344,6 @@ impl Tokenizer {
                 tok
             }
             Ok(c) if c == '-' || c == '+' || c == '.' || c.is_numeric() => self.tokenize_num(),
-            Ok(c) if c.is_whitespace() => {
-                while let Ok(ch) = self.peek() {
-                    match ch {
-                        ch if ch.is_whitespace() => {
-                            self.next()?;
-                        }
-                        _ => break,
-                    }
-                }
-                self.tokenize_one()
-            }
             Ok(c) if c.is_alphabetic() => self.tokenize_id(),
             Ok(c) => Err(TokenizerError::Str(format!(
                 "{} tokenize_one(): unexpected char '{}'",
-- 
2.43.0


From f32a3cc1a3fb1f0c76657ca0843dd9007f7e946e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:11 +0000
Subject: [PATCH 06/10] hook: expose the core to the verification harness under
 cfg(pbrtrs_verif)

---
 src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index b291746..f561ceb 100755
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -11,3 +11,11 @@ mod core;
 pub mod parser;
 
 pub use core::matrix::Matrix4;
+
+/// Access to the private core for the verification harness, which builds with
+/// `--cfg pbrtrs_verif`.
+#[allow(unexpected_cfgs)]
+#[cfg(pbrtrs_verif)]
+pub mod verif {
+    pub use core::*;
+}
-- 
2.43.0


From bb794cc6dd47ca252dc0d4f193fba815236fe4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:12 +0000
Subject: [PATCH 07/10] fix: last row of the inverse matrix of a scaling

The stored inverse had z instead of 0 in its last row.
---
 src/core/transform.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/transform.rs b/src/core/transform.rs
index 401c858..367008d 100755
--- a/src/core/transform.rs
+++ b/src/core/transform.rs
@@ -61,7 +61,7 @@ impl Transform {
                 [1. / x, 0., 0., 0.],
                 [0., 1. / y, 0., 0.],
                 [0., 0., 1. / z, 0.],
-                [0., 0., z, 1.],
+                [0., 0., 0., 1.],
             ]),
         )
     }
-- 
2.43.0


From f7fe734fe44edd1a35ea078144fb24b725ea9256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:13 +0000
Subject: [PATCH 08/10] fix: divide a Vector2 instead of multiplying it

---
 src/core/vector.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/core/vector.rs b/src/core/vector.rs
index 74f601a..d837e9e 100755
--- a/src/core/vector.rs
+++ b/src/core/vector.rs
@@ -32,8 +32,7 @@ impl<T: ElemType> Div<T> for Vector2<T> {
 
     fn div(self, rhs: T) -> Self {
         assert!(rhs != T::from_int(0), "divide by zero");
-        let recip = rhs;
-        Vector2::new(self.x * recip, self.y * recip)
+        Vector2::new(self.x / rhs, self.y / rhs)
     }
 }
 
-- 
2.43.0


From ffc23fa898f86fb8e5059fa1391c2cbbde1b8a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:15 +0000
Subject: [PATCH 09/10] fix: iterate a Bounds2 over exactly its lattice points

The iterator skipped the lower corner, restarted rows at 0 instead of the
lower x, and ran past the upper corner.
---
 src/core/boundingbox.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/core/boundingbox.rs b/src/core/boundingbox.rs
index ee1f25f..55f3031 100755
--- a/src/core/boundingbox.rs
+++ b/src/core/boundingbox.rs
@@ -186,6 +186,7 @@ impl<T: ElemType + Integer> IntoIterator for Bounds2<T> {
 
     fn into_iter(self) -> Self::IntoIter {
         Bounds2Iter {
+            x_min: self.p_min.x,
             p_max: self.p_max,
             x: self.p_min.x,
             y: self.p_min.y,
@@ -194,6 +195,7 @@ impl<T: ElemType + Integer> IntoIterator for Bounds2<T> {
 }
 
 pub struct Bounds2Iter<T: ElemType> {
+    x_min: T,
     p_max: Point2<T>,
     x: T,
     y: T,
@@ -203,16 +205,16 @@ impl<T: ElemType> Iterator for Bounds2Iter<T> {
     type Item = Point2<T>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.x >= self.p_max.x && self.y >= self.p_max.y {
+        if self.x >= self.p_max.x || self.y >= self.p_max.y {
             None
         } else {
+            let p = Point2::new(self.x, self.y);
+            self.x += T::from_int(1);
             if self.x >= self.p_max.x {
-                self.x = T::from_int(0);
+                self.x = self.x_min;
                 self.y += T::from_int(1);
-            } else {
-                self.x += T::from_int(1);
             }
-            Some(Point2::new(self.x, self.y))
+            Some(p)
         }
     }
 }
-- 
2.43.0


From 95aea43f2d846ec7b5f9314a5e1acd303b4768f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:16 +0000
Subject: [PATCH 10/10] fix: keep the intersection of disjoint boxes empty

Bounds3::new() sorted the corners of the inverted result, turning it into a
box with points in neither operand.
---
 src/core/boundingbox.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/core/boundingbox.rs b/src/core/boundingbox.rs
index 55f3031..4b1ad0c 100755
--- a/src/core/boundingbox.rs
+++ b/src/core/boundingbox.rs
@@ -94,18 +94,19 @@ impl<T: ElemType> Bounds3<T> {
     }
 
     pub fn intersect(&self, b: &Bounds3<T>) -> Bounds3<T> {
-        Bounds3::new(
-            Point3::new(
+        // Not Bounds3::new(): it would turn an empty intersection into a non-empty box
+        Bounds3 {
+            p_min: Point3::new(
                 pmax(&[self.p_min.x, b.p_min.x]),
                 pmax(&[self.p_min.y, b.p_min.y]),
                 pmax(&[self.p_min.z, b.p_min.z]),
             ),
-            Point3::new(
+            p_max: Point3::new(
                 pmin(&[self.p_max.x, b.p_max.x]),
                 pmin(&[self.p_max.y, b.p_max.y]),
                 pmin(&[self.p_max.z, b.p_max.z]),
             ),
-        )
+        }
     }
 
     pub fn overlaps(&self, b: &Bounds3<T>) -> bool {
-- 
2.43.0

