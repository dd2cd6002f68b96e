From 0928427fa7f2515a56249b06422c3d74827b0329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:56 +0000
Subject: [PATCH 01/29] fix: take token values by byte offset, as the ranges
 are byte offsets

---
 src/source_range.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/source_range.rs b/src/source_range.rs
index 8065669..b5783f2 100644
--- a/src/source_range.rs
+++ b/src/source_range.rs
@@ -1,5 +1,3 @@
-use substring::Substring;
-
 use super::parser::ParserRef;
 
 #[derive(Copy, Clone, Debug, PartialEq)]
@@ -18,11 +16,14 @@ impl SourceRange {
   }
 
   pub fn to_string<'a>(&self, parser: &ParserRef) -> String {
-    parser
-      .borrow()
-      .source
-      .substring(self.start, self.end)
-      .to_string()
+    // Ranges are byte offsets (not character offsets) into the source
+    let parser = parser.borrow();
+    let end = std::cmp::min(self.end, parser.source.len());
+
+    match parser.source.get(self.start..end) {
+      Some(value) => value.to_string(),
+      None => String::new(),
+    }
   }
 
   pub fn clone_with_len(&self, len: usize) -> Self {
-- 
2.43.0


From 7126d93320ab3ccd16c9373186d443660e7ebc19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:18 +0000
Subject: [PATCH 02/29] fix: advance sequences by whole characters

---
 src/matchers/sequence.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/matchers/sequence.rs b/src/matchers/sequence.rs
index 97b7034..37ca9a3 100644
--- a/src/matchers/sequence.rs
+++ b/src/matchers/sequence.rs
@@ -10,6 +10,13 @@ use crate::token::StandardToken;
 
 use super::fetch::{Fetchable, FetchableType};
 
+fn next_char_offset(source: &str, offset: usize, end: usize) -> usize {
+  match source[offset..end].chars().next() {
+    Some(c) => offset + c.len_utf8(),
+    None => offset + 1,
+  }
+}
+
 pub struct SequencePattern<T>
 where
   T: Fetchable,
@@ -215,12 +222,14 @@ where
             parts.push(&source[previous_index..index]);
           }
 
-          index = source_range.end + 1;
-          previous_index = index - 1;
+          // The character following an escape is always
+          // taken as-is (it may be more than one byte wide)
+          previous_index = source_range.end;
+          index = next_char_offset(source, source_range.end, end);
 
           continue;
         } else {
-          index += 1;
+          index = next_char_offset(source, index, end);
           continue;
         }
       }
-- 
2.43.0


From 853c50fd352dd3a847012f5c6892bd66eac6056f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:07 +0000
Subject: [PATCH 03/29] fix: end a loop whose iteration does not move instead
 of spinning forever

---
 src/matchers/program.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/matchers/program.rs b/src/matchers/program.rs
index b310a30..c114cee 100644
--- a/src/matchers/program.rs
+++ b/src/matchers/program.rs
@@ -180,6 +180,8 @@ impl ProgramPattern {
     for _ in iterate_range {
       iteration_result = None;
 
+      let iteration_offset = sub_context.borrow().offset.start;
+
       if sub_context.borrow().debug_mode_level() > 1 {
         println!("{{{}/Iterating}}", program_token.borrow().get_name());
       }
@@ -550,6 +552,16 @@ impl ProgramPattern {
       }
 
       loop_count += 1;
+
+      // If an iteration succeeds without moving then every following
+      // iteration would do the same... so stop iterating now
+      if is_loop && sub_context.borrow().offset.start == iteration_offset {
+        if let Some(range) = &self.iterate_range {
+          loop_count = std::cmp::max(loop_count, range.start);
+        }
+
+        break;
+      }
     }
 
     if sub_context.borrow().debug_mode_level() > 1 {
-- 
2.43.0


From ba593ebb22c88d064148205c208dda16947db90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:18 +0000
Subject: [PATCH 04/29] fix: loop up to the maximum of the range, and enforce
 its minimum when an iteration fails

---
 src/matchers/program.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/matchers/program.rs b/src/matchers/program.rs
index c114cee..eb93c82 100644
--- a/src/matchers/program.rs
+++ b/src/matchers/program.rs
@@ -171,7 +171,9 @@ impl ProgramPattern {
       None => false,
     };
     let iterate_range = match &self.iterate_range {
-      Some(range) => range.clone(),
+      // The start of the range is the minimum number of iterations,
+      // and the end of the range is the maximum number of iterations
+      Some(range) => (0..range.end),
       None => (0..1),
     };
     let mut iteration_result: Option<MatcherSuccess>;
@@ -338,7 +340,7 @@ impl ProgramPattern {
                       matched_range,
                       &self.iterate_range,
                       loop_count,
-                      false,
+                      true,
                     );
                   }
 
-- 
2.43.0


From a694f8fbdd4b26aef1b07574a4f9ee433c142ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:42 +0000
Subject: [PATCH 05/29] fix: propagate Continue to the loop it names instead of
 dropping it

---
 src/matchers/program.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/matchers/program.rs b/src/matchers/program.rs
index eb93c82..fc8c292 100644
--- a/src/matchers/program.rs
+++ b/src/matchers/program.rs
@@ -473,7 +473,7 @@ impl ProgramPattern {
                   );
                 }
 
-                return Ok(MatcherSuccess::Break((loop_name, data)));
+                return Ok(MatcherSuccess::Continue((loop_name, data)));
               }
               _ => {}
             }
@@ -534,7 +534,7 @@ impl ProgramPattern {
                 );
               }
 
-              return finalize_program_token(
+              match finalize_program_token(
                 program_token,
                 children,
                 captured_range,
@@ -542,7 +542,14 @@ impl ProgramPattern {
                 &self.iterate_range,
                 loop_count,
                 false,
-              );
+              ) {
+                Ok(final_token) => {
+                  return Ok(MatcherSuccess::Continue((loop_name, Box::new(final_token))));
+                }
+                Err(error) => {
+                  return Err(error);
+                }
+              }
             }
           }
           MatcherSuccess::Stop => {
-- 
2.43.0


From 7f1702bb822f226d5c82db700bfbb62aa65bb72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:42 +0000
Subject: [PATCH 06/29] fix: do not cut a character in half when showing the
 debug range

---
 src/parser_context.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser_context.rs b/src/parser_context.rs
index 9351bfd..6507d5c 100644
--- a/src/parser_context.rs
+++ b/src/parser_context.rs
@@ -148,6 +148,11 @@ impl ParserContext {
       end_offset = self.offset.end;
     }
 
+    // Never cut a character in half
+    while end_offset < self.offset.end && !parser.source.is_char_boundary(end_offset) {
+      end_offset += 1;
+    }
+
     parser.source[self.offset.start..end_offset].to_string()
   }
 
-- 
2.43.0


From 94c26aa44aad10d38ec158b89452d71d65a536a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:42 +0000
Subject: [PATCH 07/29] fix: compute negative skips without overflowing

---
 src/matchers/program.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matchers/program.rs b/src/matchers/program.rs
index fc8c292..d6f55b9 100644
--- a/src/matchers/program.rs
+++ b/src/matchers/program.rs
@@ -866,7 +866,7 @@ fn handle_skip(
   start_offset: usize,
   offset: isize,
 ) {
-  let new_offset = context.borrow().offset.start + offset as usize;
+  let new_offset = (context.borrow().offset.start as isize + offset) as usize;
 
   if context.borrow().is_debug_mode() {
     if context.borrow().debug_mode_level() > 1 {
-- 
2.43.0


From 68a4f84c6497fef49cc7d4b557bacb86c8fae01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:08 +0000
Subject: [PATCH 08/29] fix: give a zero width error token that comes first a
 range inside the source

---
 src/matchers/program.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matchers/program.rs b/src/matchers/program.rs
index d6f55b9..10eb8ea 100644
--- a/src/matchers/program.rs
+++ b/src/matchers/program.rs
@@ -691,7 +691,7 @@ fn add_token_to_children(
 
       if source_range.start == source_range.end {
         let mut new_source_range = source_range.clone();
-        new_source_range.start = matched_range.start;
+        new_source_range.start = std::cmp::min(matched_range.start, source_range.start);
 
         token.set_captured_range(new_source_range);
         token.set_matched_range(new_source_range);
-- 
2.43.0


From 17f7ad64b82017494e08254db9a35f2e711edbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:08 +0000
Subject: [PATCH 09/29] fix: resolve an identifier assigned to an identifier by
 the assigned name

---
 src/script/v1/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/script/v1/parser.rs b/src/script/v1/parser.rs
index b9166a4..1750e55 100644
--- a/src/script/v1/parser.rs
+++ b/src/script/v1/parser.rs
@@ -316,7 +316,7 @@ fn build_matcher_from_tokens(
       if value_name == "Identifier" {
         // Identifier is assigned to identifier...
         // so this is a reference
-        scope_context.borrow_mut().set(&matcher_name, VariableType::Matcher(Ref!(_token.get_value().clone())));
+        scope_context.borrow_mut().set(&matcher_name, VariableType::Matcher(Ref!(_value.get_value().clone())));
       } else if value_name == "PatternDefinition" {
         // This is a pattern definition, so turn it into
         // a matcher, and store it as a reference
-- 
2.43.0


From db213e14b5101297e1cd4fb2de2b03ec17404a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:12 +0000
Subject: [PATCH 10/29] fix: report an invalid regular expression in a script
 instead of panicking

---
 src/script/v1/parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/script/v1/parser.rs b/src/script/v1/parser.rs
index 1750e55..9fda3f1 100644
--- a/src/script/v1/parser.rs
+++ b/src/script/v1/parser.rs
@@ -52,7 +52,10 @@ fn construct_matcher_from_inner_definition(
       value = format!("(?{}){}", flags.borrow().get_captured_value(), value);
     }
 
-    Ok(crate::Matches!(&value))
+    match regex::Regex::new(&value) {
+      Ok(regex) => Ok(crate::matchers::matches::MatchesPattern::new(regex)),
+      Err(error) => Err(error.to_string()),
+    }
   } else if matcher_token_name == "SequenceMatcher" {
     let start_pattern = matcher_token.get_children()[0].borrow();
     let end_pattern = matcher_token.get_children()[1].borrow();
-- 
2.43.0


From 9e3e4359560ff7d63e1d97a92219c8978de288c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:15 +0000
Subject: [PATCH 11/29] fix: report an empty sequence delimiter in a script
 instead of panicking

---
 src/script/v1/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/script/v1/parser.rs b/src/script/v1/parser.rs
index 9fda3f1..b7c5a3c 100644
--- a/src/script/v1/parser.rs
+++ b/src/script/v1/parser.rs
@@ -62,11 +62,11 @@ fn construct_matcher_from_inner_definition(
     let escape_pattern = matcher_token.get_children()[2].borrow();
 
     if start_pattern.get_value().len() == 0 {
-      panic!("Sequence `start` pattern of \"\" makes no sense");
+      return Err("Sequence `start` pattern of \"\" makes no sense".to_string());
     }
 
     if end_pattern.get_value().len() == 0 {
-      panic!("Sequence `end` pattern of \"\" makes no sense");
+      return Err("Sequence `end` pattern of \"\" makes no sense".to_string());
     }
 
     Ok(crate::Sequence!(
-- 
2.43.0


From f30a528ff22b10bf7fa84b63092280b7cf4c03c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:36 +0000
Subject: [PATCH 12/29] fix: report an empty regular expression in a script
 instead of matching its slashes

---
 src/script/v1/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/script/v1/parser.rs b/src/script/v1/parser.rs
index b7c5a3c..85660c2 100644
--- a/src/script/v1/parser.rs
+++ b/src/script/v1/parser.rs
@@ -44,7 +44,7 @@ fn construct_matcher_from_inner_definition(
   } else if matcher_token_name == "RegexMatcher" {
     let mut value: String = matcher_token.get_value().clone();
 
-    if value == "" {
+    if value == "" || !matcher_token.has_child("Part") {
       return Err("Value can not be empty for a `Matches` pattern definition".to_string());
     }
 
-- 
2.43.0


From 0a91c403307bcc38c20a815aad85c33dafb070e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:48 +0000
Subject: [PATCH 13/29] fix: report a missing script or import file instead of
 panicking

---
 src/script/v1/parser.rs | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/script/v1/parser.rs b/src/script/v1/parser.rs
index 85660c2..0222709 100644
--- a/src/script/v1/parser.rs
+++ b/src/script/v1/parser.rs
@@ -347,7 +347,10 @@ fn build_matcher_from_tokens(
       let import_identifiers = import_identifiers.get_children();
       let path = _token.find_child("Path").unwrap().borrow().get_value().clone();
 
-      let full_path = Path::new(from_file).parent().unwrap().join(path).canonicalize().unwrap();
+      let full_path = match Path::new(from_file).parent().unwrap().join(&path).canonicalize() {
+        Ok(full_path) => full_path,
+        Err(error) => return Err(ParseError::new_with_range(&format!("Failed to import from '{}': {}", path, error), _token.get_matched_range().clone())),
+      };
       let file_name = full_path.to_str().unwrap();
 
       let import_result = match compile_script_from_file_internal(file_name, flags) {
@@ -565,14 +568,24 @@ pub fn compile_script_from_str(
   }
 }
 
+fn file_error(file_name: &str, error: std::io::Error) -> ParseError {
+  ParseError::new(&format!("Failed to read '{}': {}", file_name, error))
+}
+
 fn compile_script_from_file_internal(
   file_name: &str,
   flags: u32,
 ) -> Result<(ParserContextRef, MatcherRef, ScopeContextRef), Vec<ParseError>> {
-  let full_path = Path::new(file_name).canonicalize().unwrap();
+  let full_path = match Path::new(file_name).canonicalize() {
+    Ok(full_path) => full_path,
+    Err(error) => return Err(vec![file_error(file_name, error)]),
+  };
   let full_file_name = full_path.to_str().unwrap();
 
-  let parser = Parser::new_from_file(full_file_name).unwrap();
+  let parser = match Parser::new_from_file(full_file_name) {
+    Ok(parser) => parser,
+    Err(error) => return Err(vec![file_error(file_name, error)]),
+  };
   compile_script(parser, file_name.to_string(), Some(full_file_name), flags)
 }
 
@@ -580,10 +593,16 @@ pub fn compile_script_from_file(
   file_name: &str,
   flags: u32,
 ) -> Result<MatcherRef, Vec<ParseError>> {
-  let full_path = Path::new(file_name).canonicalize().unwrap();
+  let full_path = match Path::new(file_name).canonicalize() {
+    Ok(full_path) => full_path,
+    Err(error) => return Err(vec![file_error(file_name, error)]),
+  };
   let full_file_name = full_path.to_str().unwrap();
 
-  let parser = Parser::new_from_file(full_file_name).unwrap();
+  let parser = match Parser::new_from_file(full_file_name) {
+    Ok(parser) => parser,
+    Err(error) => return Err(vec![file_error(file_name, error)]),
+  };
   match compile_script(parser, file_name.to_string(), Some(full_file_name), flags) {
     Ok(result) => Ok(result.1),
     Err(errors) => Err(errors),
-- 
2.43.0


From b4e79af2cd7563dbee66c62feb298e5aa48699e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:57 +0000
Subject: [PATCH 14/29] fix: continue after the whole flattened match, not
 after its last child

---
 src/matchers/program.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/matchers/program.rs b/src/matchers/program.rs
index 10eb8ea..348110e 100644
--- a/src/matchers/program.rs
+++ b/src/matchers/program.rs
@@ -802,10 +802,6 @@ fn handle_extract_token(
   }
 
   if update_offsets && !should_discard {
-    context
-      .borrow_mut()
-      .set_start(token.get_matched_range().end);
-
     contain_source_range(captured_range, &token.get_captured_range());
     contain_source_range(matched_range, &token.get_matched_range());
   }
@@ -856,6 +852,14 @@ fn handle_extract_token(
       update_offsets && !should_discard,
     );
   }
+
+  // Adding a child moves to the end of that child... but the extracted token
+  // might end after its last child (i.e. when the text there was discarded)
+  if update_offsets && !should_discard {
+    context
+      .borrow_mut()
+      .set_start(token.get_matched_range().end);
+  }
 }
 
 fn handle_skip(
-- 
2.43.0


From 66326e11108d041f139d92f1e386f19051bafc99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:55 +0000
Subject: [PATCH 15/29] fix: respect the end of an inclusive loop range

---
 src/matchers/program.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/matchers/program.rs b/src/matchers/program.rs
index 348110e..b8134be 100644
--- a/src/matchers/program.rs
+++ b/src/matchers/program.rs
@@ -19,8 +19,11 @@ where
     range.start = *start;
   }
 
-  if let Bound::Excluded(end) = r.end_bound() {
-    range.end = *end;
+  // The end is the maximum number of iterations, whichever way it is written
+  match r.end_bound() {
+    Bound::Excluded(end) => range.end = *end,
+    Bound::Included(end) => range.end = *end,
+    Bound::Unbounded => {}
   }
 
   range
-- 
2.43.0


From 365883d919ea11d1681da2cdea688bb68775a84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:07 +0000
Subject: [PATCH 16/29] fix: columns agree with lines for a range that starts
 inside a CRLF line break

---
 src/parser_context.rs | 42 +++++++++++-------------------------------
 1 file changed, 11 insertions(+), 31 deletions(-)

diff --git a/src/parser_context.rs b/src/parser_context.rs
index 6507d5c..54a8448 100644
--- a/src/parser_context.rs
+++ b/src/parser_context.rs
@@ -185,40 +185,20 @@ impl ParserContext {
   pub fn get_columns(&self, range: &SourceRange) -> (usize, usize) {
     let parser = self.parser.borrow();
     let source = parser.source.as_str();
-    let mut last_newline = 0;
-    let mut first_column = 0;
-    let mut last_column = 0;
 
-    for item in NEWLINES.find_iter(&source[0..range.end]) {
-      let end_position = item.end();
+    // Must agree with `get_lines` about where a line starts, also for a
+    // position between the `\r` and the `\n` of a line break
+    let column_at = |position: usize| {
+      let line_start = NEWLINES
+        .find_iter(&source[0..position])
+        .last()
+        .map_or(0, |item| item.end());
 
-      if first_column == 0 && end_position > range.start {
-        first_column = (range.start - last_newline) + 1;
-      }
-
-      if end_position > range.end {
-        last_column = (range.end - last_newline) + 1;
-        break;
-      }
-
-      last_newline = end_position;
-    }
-
-    if first_column == 0 {
-      if last_newline != 0 {
-        first_column = (range.start - last_newline) + 1;
-      } else {
-        first_column = range.start + 1;
-      }
-    }
+      position - line_start + 1
+    };
 
-    if last_column == 0 {
-      if last_newline != 0 {
-        last_column = (range.end - last_newline) + 1;
-      } else {
-        last_column = range.end + 1;
-      }
-    }
+    let first_column = column_at(range.start);
+    let mut last_column = column_at(range.end);
 
     if first_column > last_column {
       last_column = first_column;
-- 
2.43.0


From 56410ff7e60bf286141b63bad69d9a5046e95023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:02 +0000
Subject: [PATCH 17/29] fix: end a loop whose iteration moves backwards

An error token of a pinned matcher inside a switch (or any other wrapper)
moves the loop back to where the pin points, so the loop never ended.
---
 src/matchers/program.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/matchers/program.rs b/src/matchers/program.rs
index b8134be..f29dbcd 100644
--- a/src/matchers/program.rs
+++ b/src/matchers/program.rs
@@ -565,9 +565,9 @@ impl ProgramPattern {
 
       loop_count += 1;
 
-      // If an iteration succeeds without moving then every following
-      // iteration would do the same... so stop iterating now
-      if is_loop && sub_context.borrow().offset.start == iteration_offset {
+      // If an iteration succeeds without moving forward then the following
+      // iterations might never end... so stop iterating now
+      if is_loop && sub_context.borrow().offset.start <= iteration_offset {
         if let Some(range) = &self.iterate_range {
           loop_count = std::cmp::max(loop_count, range.start);
         }
-- 
2.43.0


From 3bcd781231135aaada74b5cbd243fd1d096a3651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:02 +0000
Subject: [PATCH 18/29] fix: report the errors found while parsing a script
 instead of dropping them

---
 src/script/v1/matchers/script.rs |  2 +-
 src/script/v1/parser.rs          | 12 ++++++++----
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/script/v1/matchers/script.rs b/src/script/v1/matchers/script.rs
index 4849081..4a3bb40 100644
--- a/src/script/v1/matchers/script.rs
+++ b/src/script/v1/matchers/script.rs
@@ -18,7 +18,7 @@ macro_rules! Script {
         let adextopa_scope = _token.find_child("AdextopaScope");
         let pattern_scope = _token.find_child("PatternScope");
 
-        if adextopa_scope.is_none() && pattern_scope.is_none() {
+        if adextopa_scope.is_none() && pattern_scope.is_none() && !_token.has_child("Error") {
           return $crate::ErrorTokenResult!(context.clone(), "Nothing to parse. No scopes found.", &token.borrow().get_matched_range());
         }
 
diff --git a/src/script/v1/parser.rs b/src/script/v1/parser.rs
index 0222709..55c34db 100644
--- a/src/script/v1/parser.rs
+++ b/src/script/v1/parser.rs
@@ -271,9 +271,12 @@ fn build_matcher_from_tokens(
   flags: u32,
 ) -> Result<(MatcherRef, ScopeContextRef), Vec<ParseError>> {
   if root_token.borrow().get_name() != "Script" {
-    return Err(vec![ParseError::new(
-      "Expected provided token to be a `Script` token",
-    )]);
+    let _token = root_token.borrow();
+
+    return Err(vec![match _token.get_attribute("__message") {
+      Some(message) => ParseError::new_with_range(message, _token.get_matched_range().clone()),
+      None => ParseError::new("Expected provided token to be a `Script` token"),
+    }]);
   }
 
   let root_matcher = ProgramPattern::new_program_with_name(Vec::new(), name, MatchAction::Continue);
@@ -439,7 +442,8 @@ fn build_matcher_from_tokens(
   );
 
   match result {
-    Ok(_) => Ok((root_matcher, scope_context)),
+    Ok(_) if parse_errors.borrow().is_empty() => Ok((root_matcher, scope_context)),
+    Ok(_) => Err(parse_errors.into_inner()),
     Err(error) => {
       if error.message != "" {
         let range = match &error.range {
-- 
2.43.0


From 3cd5fc8f485c7e8cb886623d1d23bbcbc54b1bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:10 +0000
Subject: [PATCH 19/29] fix: report what follows the header of a script when it
 is no pattern

---
 src/script/v1/matchers/script.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/script/v1/matchers/script.rs b/src/script/v1/matchers/script.rs
index 4a3bb40..3ec7da9 100644
--- a/src/script/v1/matchers/script.rs
+++ b/src/script/v1/matchers/script.rs
@@ -22,6 +22,17 @@ macro_rules! Script {
           return $crate::ErrorTokenResult!(context.clone(), "Nothing to parse. No scopes found.", &token.borrow().get_matched_range());
         }
 
+        // A pattern scope checks this for itself
+        if pattern_scope.is_none() && !_token.has_child("Error") {
+          let end = _token.get_matched_range().end;
+          let parser = _token.get_parser();
+          let source = &parser.borrow().source;
+
+          if source[end..].trim() != "" {
+            return $crate::ErrorTokenResult!(context.clone(), &format!("Syntax error. Expected a pattern defintion, but instead found: {}", &source[end..]), &$crate::source_range::SourceRange::new(end, source.len()));
+          }
+        }
+
         $crate::TokenResult!(token.clone())
       }
     )
-- 
2.43.0


From a5cc7aeec9b677875524d9a31dd995bb6274f193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:14 +0000
Subject: [PATCH 20/29] fix: unescape the values of attributes in a script

---
 src/script/v1/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/script/v1/parser.rs b/src/script/v1/parser.rs
index 55c34db..1a19f63 100644
--- a/src/script/v1/parser.rs
+++ b/src/script/v1/parser.rs
@@ -174,7 +174,7 @@ fn construct_matcher_from_pattern_definition(
         let child = child.borrow();
         let child_children = child.get_children();
         let key = child_children[0].borrow().get_captured_value().clone();
-        let value = child_children[1].borrow().get_captured_value().clone();
+        let value = child_children[1].borrow().get_value().clone();
 
         attributes.insert(key, value);
       }
-- 
2.43.0


From 16c2cd84143c77726d553075110df19608b4e57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:54 +0000
Subject: [PATCH 21/29] fix: require the closing bracket of a switch or program
 in a script

---
 src/script/v1/matchers/program_matcher.rs | 5 +++--
 src/script/v1/matchers/switch_matcher.rs  | 7 ++++---
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/script/v1/matchers/program_matcher.rs b/src/script/v1/matchers/program_matcher.rs
index 243240f..14366d9 100644
--- a/src/script/v1/matchers/program_matcher.rs
+++ b/src/script/v1/matchers/program_matcher.rs
@@ -11,13 +11,14 @@ macro_rules! ScriptProgramMatcher {
           $crate::Discard!(
             $crate::Optional!(
               $crate::Program!(
-                $crate::Equals!("}"),
+                $crate::Pin!($crate::Equals!("}")),
                 $crate::Break!(),
               )
             )
           )
         )
-      )
+      ),
+      $crate::Discard!($crate::Equals!("}")),
     )
   };
 }
diff --git a/src/script/v1/matchers/switch_matcher.rs b/src/script/v1/matchers/switch_matcher.rs
index 6cf3fd3..1d85075 100644
--- a/src/script/v1/matchers/switch_matcher.rs
+++ b/src/script/v1/matchers/switch_matcher.rs
@@ -9,7 +9,7 @@ macro_rules! ScriptSwitchMatcher {
           $crate::Switch!(
             $crate::Discard!(
               $crate::Program!(
-                $crate::Equals!("]"),
+                $crate::Pin!($crate::Equals!("]")),
                 $crate::Break!(),
               )
             ),
@@ -20,13 +20,14 @@ macro_rules! ScriptSwitchMatcher {
             $crate::Switch!(
               $crate::Equals!("|"),
               $crate::Program!(
-                $crate::Equals!("]"),
+                $crate::Pin!($crate::Equals!("]")),
                 $crate::Break!(),
               )
             )
           )
         )
-      )
+      ),
+      $crate::Discard!($crate::Equals!("]")),
     )
   };
 }
-- 
2.43.0


From dcc45fd774a88e9cdc1d71d058a02fc52fd1459a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:37 +0000
Subject: [PATCH 22/29] fix: let an assigned name in a script keep standing for
 the entire definition

---
 src/script/v1/parser.rs | 39 +++++++++++++++++++++++++++++++++++++--
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/src/script/v1/parser.rs b/src/script/v1/parser.rs
index 1a19f63..9123f32 100644
--- a/src/script/v1/parser.rs
+++ b/src/script/v1/parser.rs
@@ -132,6 +132,18 @@ fn construct_matcher_from_pattern_definition(
   token: TokenRef,
   name: &str,
   captured: bool,
+) -> Result<(MatcherRef, MatcherRef), String> {
+  construct_named_matcher_from_pattern_definition(parser_context, token, name, captured, false)
+}
+
+// `assigned` means that `name` refers to the entire definition,
+// modifiers, attributes, and repeat specifier included.
+fn construct_named_matcher_from_pattern_definition(
+  parser_context: ParserContextRef,
+  token: TokenRef,
+  name: &str,
+  captured: bool,
+  assigned: bool,
 ) -> Result<(MatcherRef, MatcherRef), String> {
   let token = token.borrow();
   let token_name = token.get_name();
@@ -158,7 +170,30 @@ fn construct_matcher_from_pattern_definition(
     construct_matcher_from_inner_definition(parser_context.clone(), matcher_token.clone())?;
   let inner_matcher = matcher.clone();
 
-  if name != "" {
+  let is_wrapped = has_outter_optional
+    || has_outter_not
+    || has_inner_optional
+    || has_inner_not
+    || token.has_child("Attributes")
+    || token.find_child_fuzzy(&REPEAT_SPECIFIER).is_some();
+
+  if name != "" && assigned && is_wrapped {
+    // A named matcher registers itself in the scope by its own name,
+    // which here would replace the entire definition by this inner
+    // matcher alone... so name the resulting token instead. (The token
+    // of a switch or a reference is named by what actually matched).
+    let matcher_token_name = matcher_token.borrow().get_name().clone();
+
+    if matcher_token_name != "SwitchMatcher" && matcher_token_name != "CustomMatcher" {
+      let token_name = name.to_string();
+
+      matcher = Map!(matcher.clone(), move |token, _, __| {
+        token.borrow_mut().set_name(&token_name);
+
+        TokenResult!(token.clone())
+      });
+    }
+  } else if name != "" {
     matcher.borrow_mut().set_name(name);
   }
 
@@ -326,7 +361,7 @@ fn build_matcher_from_tokens(
       } else if value_name == "PatternDefinition" {
         // This is a pattern definition, so turn it into
         // a matcher, and store it as a reference
-        match construct_matcher_from_pattern_definition(parser_context.clone(), value.clone(), &matcher_name, true) {
+        match construct_named_matcher_from_pattern_definition(parser_context.clone(), value.clone(), &matcher_name, true, true) {
           Ok(defined_matchers) => {
             scope_context.borrow_mut().set(&matcher_name, VariableType::Matcher(defined_matchers.0.clone()));
           },
-- 
2.43.0


From 41599f3de3d69deb5e70762aa8986dbcf61ff9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:32 +0000
Subject: [PATCH 23/29] fix: let a script's root be imported under more than
 one name

---
 src/script/v1/parser.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/script/v1/parser.rs b/src/script/v1/parser.rs
index 9123f32..8ccde57 100644
--- a/src/script/v1/parser.rs
+++ b/src/script/v1/parser.rs
@@ -423,11 +423,14 @@ fn build_matcher_from_tokens(
             return Err(ParseError::new_with_range("Error root import '_' must be named using 'import {{ _ as Name }}'", identifier_token.borrow().get_matched_range().clone()));
           }
 
-          import_root_matcher.borrow_mut().set_name(&import_name);
+          // The root can be imported under several names, so
+          // each name gets a root pattern of its own
+          let import_matchers = import_root_matcher.borrow().get_children().unwrap_or_default();
+          let named_root_matcher = ProgramPattern::new_program_with_name(import_matchers, import_name.clone(), MatchAction::Continue);
 
           // This should work all on its own, because this is the root pattern
           // and it implements its own scope when called
-          scope_context.borrow_mut().set(&import_name, VariableType::Matcher(import_root_matcher.clone()));
+          scope_context.borrow_mut().set(&import_name, VariableType::Matcher(named_root_matcher));
         } else {
           let reference_matcher = import_scope_context.borrow().get(&identifier);
 
-- 
2.43.0


From e2cf219f89eef86cb3dc8d59389fe44f049f154b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:35 +0000
Subject: [PATCH 24/29] fix: report a script that imports itself instead of
 recursing without end

---
 src/script/v1/parser.rs | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/src/script/v1/parser.rs b/src/script/v1/parser.rs
index 8ccde57..bd121a5 100644
--- a/src/script/v1/parser.rs
+++ b/src/script/v1/parser.rs
@@ -303,6 +303,7 @@ fn build_matcher_from_tokens(
   parser_context: ParserContextRef,
   name: String,
   from_file: Option<&str>,
+  importers: &[String],
   flags: u32,
 ) -> Result<(MatcherRef, ScopeContextRef), Vec<ParseError>> {
   if root_token.borrow().get_name() != "Script" {
@@ -391,7 +392,16 @@ fn build_matcher_from_tokens(
       };
       let file_name = full_path.to_str().unwrap();
 
-      let import_result = match compile_script_from_file_internal(file_name, flags) {
+      // A file that imports itself, directly or through
+      // other files, could never be compiled
+      let mut importers = importers.to_vec();
+      importers.push(from_file.to_string());
+
+      if importers.iter().any(|importer| importer == file_name) {
+        return Err(ParseError::new_with_range(&format!("Failed to import from '{}': Circular import", path), _token.get_matched_range().clone()));
+      }
+
+      let import_result = match compile_script_from_file_internal(file_name, &importers, flags) {
         Ok(result) => result,
         Err(errors) => {
           let mut _parse_errors = parse_errors.borrow_mut();
@@ -539,6 +549,16 @@ pub fn compile_script(
   name: String,
   from_file: Option<&str>,
   flags: u32,
+) -> Result<(ParserContextRef, MatcherRef, ScopeContextRef), Vec<ParseError>> {
+  compile_script_internal(parser, name, from_file, &[], flags)
+}
+
+fn compile_script_internal(
+  parser: ParserRef,
+  name: String,
+  from_file: Option<&str>,
+  importers: &[String],
+  flags: u32,
 ) -> Result<(ParserContextRef, MatcherRef, ScopeContextRef), Vec<ParseError>> {
   let parser_context = ParserContext::new(&parser, &name);
 
@@ -557,6 +577,7 @@ pub fn compile_script(
         parser_context.clone(),
         name,
         from_file,
+        importers,
         flags,
       ) {
         Ok(result) => {
@@ -616,6 +637,7 @@ fn file_error(file_name: &str, error: std::io::Error) -> ParseError {
 
 fn compile_script_from_file_internal(
   file_name: &str,
+  importers: &[String],
   flags: u32,
 ) -> Result<(ParserContextRef, MatcherRef, ScopeContextRef), Vec<ParseError>> {
   let full_path = match Path::new(file_name).canonicalize() {
@@ -628,7 +650,13 @@ fn compile_script_from_file_internal(
     Ok(parser) => parser,
     Err(error) => return Err(vec![file_error(file_name, error)]),
   };
-  compile_script(parser, file_name.to_string(), Some(full_file_name), flags)
+  compile_script_internal(
+    parser,
+    file_name.to_string(),
+    Some(full_file_name),
+    importers,
+    flags,
+  )
 }
 
 pub fn compile_script_from_file(
-- 
2.43.0


From 5c76fe1198d9f8006597837a23f85780fa480913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:58 +0000
Subject: [PATCH 25/29] fix: a debugged pin does not move the parser either

---
 src/matchers/debug.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/matchers/debug.rs b/src/matchers/debug.rs
index 5a8a567..dc5be70 100644
--- a/src/matchers/debug.rs
+++ b/src/matchers/debug.rs
@@ -132,6 +132,13 @@ impl Matcher for DebugPattern {
     panic!("Can not add a pattern to a `Debug` matcher");
   }
 
+  fn is_consuming(&self) -> bool {
+    match &self.matcher {
+      Some(matcher) => matcher.borrow().is_consuming(),
+      None => false,
+    }
+  }
+
   fn to_string(&self) -> String {
     format!("{:?}", self)
   }
-- 
2.43.0


From 1ea608383a645a960c46cda8dee2eb861319d460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:22 +0000
Subject: [PATCH 26/29] fix: allow white space before the comma between
 imported names

---
 src/script/v1/matchers/import_statement.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/script/v1/matchers/import_statement.rs b/src/script/v1/matchers/import_statement.rs
index 86ee402..77787d3 100644
--- a/src/script/v1/matchers/import_statement.rs
+++ b/src/script/v1/matchers/import_statement.rs
@@ -27,7 +27,12 @@ macro_rules! ScriptImportStatement {
                   )
                 ),
                 $crate::Discard!(
-                  $crate::Optional!($crate::Equals!(","))
+                  $crate::Optional!(
+                    $crate::Program!(
+                      $crate::ScriptWSN0!(?),
+                      $crate::Equals!(","),
+                    )
+                  )
                 )
               ),
             )
-- 
2.43.0


From 78ed3d5ef3c438eb33036144ec6db86fc1910647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:44 +0000
Subject: [PATCH 27/29] fix: keep the values of a pin's token in step with its
 ranges

---
 src/matchers/pin.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/matchers/pin.rs b/src/matchers/pin.rs
index a3b5f95..71686d6 100644
--- a/src/matchers/pin.rs
+++ b/src/matchers/pin.rs
@@ -132,6 +132,7 @@ impl Token for PinToken {
 
   fn set_captured_range(&mut self, range: crate::source_range::SourceRange) {
     self.captured_range = range;
+    self.captured_value = range.to_string(&self.parser);
   }
 
   fn get_matched_range(&self) -> &crate::source_range::SourceRange {
@@ -144,6 +145,7 @@ impl Token for PinToken {
 
   fn set_matched_range(&mut self, range: crate::source_range::SourceRange) {
     self.matched_range = range;
+    self.matched_value = range.to_string(&self.parser);
   }
 
   fn get_name(&self) -> &String {
-- 
2.43.0


From 585664fa510a940c3672de3f825cb26a71d414b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:49 +0000
Subject: [PATCH 28/29] fix: let a visitor's hook change the token it is given

---
 src/token_visitor.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/token_visitor.rs b/src/token_visitor.rs
index 836d8d0..24e2fe9 100644
--- a/src/token_visitor.rs
+++ b/src/token_visitor.rs
@@ -40,9 +40,10 @@ impl<'a> TokenVisitor<'a> {
     default_hook: Option<Rc<RefCell<Box<dyn FnMut(TokenRef) -> Result<(), ParseError> + 'a>>>>,
     token: TokenRef,
   ) -> Result<(), ParseError> {
-    let _token = token.borrow();
+    // A hook may change its token, so no token can stay borrowed while hooks run
+    let name = token.borrow().get_name().clone();
 
-    if let Some(ref hook) = self.find_hook(_token.get_name()) {
+    if let Some(ref hook) = self.find_hook(&name) {
       match (hook.clone().borrow_mut())(token.clone()) {
         Err(error) => return Err(error),
         Ok(_) => {}
@@ -55,9 +56,9 @@ impl<'a> TokenVisitor<'a> {
       }
     }
 
-    for child in _token.get_children() {
-      let _child = child.borrow();
+    let children = token.borrow().get_children().clone();
 
+    for child in children {
       let result = match default_hook {
         Some(ref default_hook) => self._visit(Some(default_hook.clone()), child.clone()),
         None => self._visit(None, child.clone()),
-- 
2.43.0


From 73f401354a9038f45304486203f28594bbcd6c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:28 +0000
Subject: [PATCH 29/29] fix: open a new scope on the scope stack in use, not
 always on the context's

---
 src/matchers/set_scope.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/matchers/set_scope.rs b/src/matchers/set_scope.rs
index a39c973..275202a 100644
--- a/src/matchers/set_scope.rs
+++ b/src/matchers/set_scope.rs
@@ -29,16 +29,16 @@ impl SetScopePattern {
   fn _exec(
     &self,
     context: ParserContextRef,
-    _: ScopeContextRef,
+    current_scope: ScopeContextRef,
   ) -> Result<MatcherSuccess, MatcherFailure> {
     let scope = match &self.scope {
       Some(scope) => scope.clone(),
       None => {
-        // Push a new scope onto the stack
-        let scope = Scope::new();
-        context.borrow().scope.borrow_mut().push(scope.clone());
+        // Push a new scope onto the stack that is in use
+        // (which might not be the stack of the context)
+        current_scope.borrow_mut().push(Scope::new());
 
-        context.borrow().scope.clone()
+        current_scope.clone()
       }
     };
 
@@ -50,7 +50,7 @@ impl SetScopePattern {
 
     if self.scope.is_none() {
       // Pop scope from stack
-      context.borrow().scope.borrow_mut().pop();
+      current_scope.borrow_mut().pop();
     }
 
     result
-- 
2.43.0

