From 638b6869a59ccfb5a8ff7b9d50063a69cf995fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:45 +0000
Subject: [PATCH 1/3] fix: stop repeating when a repetition consumes no text

RepeatParser looped forever, using ever more memory, whenever the repeated
pattern (and separator) could match without consuming anything, as in
parser!((alpha*)*). An empty pass is now the last one.
---
 src/parsers/repeat.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/parsers/repeat.rs b/src/parsers/repeat.rs
index 236d1c9..9f2eb34 100644
--- a/src/parsers/repeat.rs
+++ b/src/parsers/repeat.rs
@@ -100,6 +100,17 @@ where
         }
     }
 
+    /// Start position of the last `pattern` matched so far, if any.
+    ///
+    /// Precondition: `self.is_pattern_next()`.
+    fn last_pass_start(&self) -> Option<usize> {
+        match self.sep_iters.len() {
+            0 => None,
+            1 => Some(self.start),
+            n => Some(self.sep_iters[n - 2].match_end()),
+        }
+    }
+
     /// Precondition: Either there are no iters or we just successfully
     /// backtracked the foremost iter.
     ///
@@ -114,6 +125,12 @@ where
 
             if self.is_pattern_next() {
                 let start = self.end();
+                if self.last_pass_start() == Some(start) {
+                    // The last pass (pattern and separator) matched without
+                    // consuming any text. More of the same would match here
+                    // forever, so stop.
+                    return Err(Reported);
+                }
                 let iter = self.params.pattern.parse_iter(context, start)?;
                 self.pattern_iters.push(iter);
             }
-- 
2.43.0


From 506acc1e5ef22633632d395eecc5882e9ae32e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:48 +0000
Subject: [PATCH 2/3] fix: section() must not treat a leading blank line as
 section content

A section is zero or more nonblank lines followed by a blank line or the end
of input. When the section had no nonblank lines, the search for the blank
line skipped it, so the section's text contained a blank line.
---
 src/parsers/lines.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parsers/lines.rs b/src/parsers/lines.rs
index bc20a83..7038908 100644
--- a/src/parsers/lines.rs
+++ b/src/parsers/lines.rs
@@ -84,6 +84,10 @@ impl Region for Section {
         // section at end of input. presumably not repeat forever. (why does
         // this not always hang forever if you try to use `sections`?)
         let source = context.source();
+        if source[start..].starts_with('\n') {
+            // no nonblank lines, then a blank line
+            return Ok((start, start + 1));
+        }
         match source[start..].find("\n\n") {
             // ending at a blank line
             Some(index) => Ok((start + index + 1, start + index + 2)),
-- 
2.43.0


From 257e012e4bba449f4bee8ae963cd2b9423c23215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:57 +0000
Subject: [PATCH 3/3] fix: digit_bin reports that it expected a binary digit,
 not a hexadecimal one

---
 src/parsers/chars.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/chars.rs b/src/parsers/chars.rs
index f2b50ef..7bd9d75 100644
--- a/src/parsers/chars.rs
+++ b/src/parsers/chars.rs
@@ -130,7 +130,7 @@ pub const digit: MapParser<CharParser, fn(char) -> usize> = MapParser {
 #[allow(non_upper_case_globals)]
 pub const digit_bin: MapParser<CharParser, fn(char) -> usize> = MapParser {
     inner: CharParser {
-        noun: "hexadecimal digit",
+        noun: "binary digit",
         predicate: |c| c.is_digit(2),
     },
     mapper: |c| c.to_digit(2).unwrap() as usize,
-- 
2.43.0

