From 48d6f5db8d668652e22e23dad223b2a2e80198b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:29 +0000
Subject: [PATCH 1/8] fix: full names of Pc, Pi and CCC133 property values

---
 src/unicode/ucd/property_names.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/unicode/ucd/property_names.rs b/src/unicode/ucd/property_names.rs
index c30b796..977c749 100644
--- a/src/unicode/ucd/property_names.rs
+++ b/src/unicode/ucd/property_names.rs
@@ -80,7 +80,7 @@ pub(crate) fn gc_name(prop: Gc) -> PropertyName {
             abbr: "No",
         },
         Gc::Pc => PropertyName {
-            full: "Ctor_Punctuation",
+            full: "Connector_Punctuation",
             abbr: "Pc",
         },
         Gc::Pd => PropertyName {
@@ -96,7 +96,7 @@ pub(crate) fn gc_name(prop: Gc) -> PropertyName {
             abbr: "Pf",
         },
         Gc::Pi => PropertyName {
-            full: "Il_Punctuation",
+            full: "Initial_Punctuation",
             abbr: "Pi",
         },
         Gc::Po => PropertyName {
@@ -512,7 +512,7 @@ pub(crate) fn ccc_name(prop: Ccc) -> PropertyName {
             abbr: "CCC132",
         },
         Ccc::CCC133 => PropertyName {
-            full: "RESERVED",
+            full: "CCC133",
             abbr: "CCC133",
         },
         Ccc::ATBL => PropertyName {
-- 
2.43.0


From 34d3946a7ea9d1d6d96730f20a9a1b6ffeb7f03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:48 +0000
Subject: [PATCH 2/8] fix: comp_ex() no longer panics on surrogate code points

---
 src/unicode/normalization.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/unicode/normalization.rs b/src/unicode/normalization.rs
index f902adf..6f00698 100644
--- a/src/unicode/normalization.rs
+++ b/src/unicode/normalization.rs
@@ -116,7 +116,11 @@ pub(crate) fn singleton_decomposition(cp: u32) -> bool {
     let code_point = CodePoint::new(cp).unwrap();
     // Default value (the code point itself) is not singletons.
     let mut self_char = String::new();
-    self_char.push(std::char::from_u32(code_point.to_u32()).unwrap());
+    match std::char::from_u32(code_point.to_u32()) {
+        Some(ch) => self_char.push(ch),
+        // Surrogates do not decompose.
+        None => return false,
+    }
     if code_point.dm() == self_char {
         return false;
     }
@@ -135,9 +139,11 @@ pub(crate) fn singleton_decomposition(cp: u32) -> bool {
 //          a starter decomposition.
 pub(crate) fn non_starter_decomposition(cp: u32) -> bool {
     let code_point = CodePoint::new(cp).unwrap();
-    let decomposed = canonical_decomposition(
-        vec![std::char::from_u32(code_point.to_u32()).unwrap()]
-    );
+    let decomposed = match std::char::from_u32(code_point.to_u32()) {
+        Some(ch) => canonical_decomposition(vec![ch]),
+        // Surrogates do not decompose.
+        None => return false,
+    };
     if decomposed.len() > 1 && !starter(decomposed[0] as u32) {
         return true;
     }
-- 
2.43.0


From 887be871cf24c3d80b29d4cc016dbc94b3395f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:25 +0000
Subject: [PATCH 3/8] fix: GB11 no longer joins over characters that end the
 emoji sequence

---
 src/unicode.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/unicode.rs b/src/unicode.rs
index ec8f089..97601c5 100644
--- a/src/unicode.rs
+++ b/src/unicode.rs
@@ -793,6 +793,10 @@ impl<'a> Iterator for BreakGraphemes<'a> {
             // Prepare for GB11
             if curr_ch.1.ext_pict() {
                 in_ext_pict = true;
+            } else if curr_ch.1.gcb() != Gcb::EX
+                && !(curr_ch.1.gcb() == Gcb::ZWJ && next_ch.1.ext_pict())
+            {
+                in_ext_pict = false;
             }
             // Prepare for GB12, GB13
             if curr_ch.1.gcb() == Gcb::RI {
-- 
2.43.0


From 905e5caffa9317909115d84a85193f0e3ec9216d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:37 +0000
Subject: [PATCH 4/8] fix: GB9c ends the conjunct at a character that is
 neither Linker nor Extend

---
 src/unicode.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/unicode.rs b/src/unicode.rs
index 97601c5..ec41238 100644
--- a/src/unicode.rs
+++ b/src/unicode.rs
@@ -803,11 +803,17 @@ impl<'a> Iterator for BreakGraphemes<'a> {
                 _ri_count += 1;
             }
             // Prepare for GB9c
-            if curr_ch.1.incb() == Incb::Consonant {
-                in_indic = true;
-            }
-            if in_indic == true && curr_ch.1.incb() == Incb::Linker {
-                indic_linker = true;
+            match curr_ch.1.incb() {
+                Incb::Consonant => {
+                    in_indic = true;
+                    indic_linker = false;
+                }
+                Incb::Linker => indic_linker = in_indic,
+                Incb::Extend => {}
+                Incb::None => {
+                    in_indic = false;
+                    indic_linker = false;
+                }
             }
             // Do not break between a CR and LF. Otherwise, break before and after controls.
             // GB3:                  CR × LF
-- 
2.43.0


From acfa41663c9b7cec033368c7f826ca65c96cd1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:09 +0000
Subject: [PATCH 5/8] fix: canonical ordering stops when the text is in order,
 instead of always taking quadratic time

---
 src/unicode/normalization.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/unicode/normalization.rs b/src/unicode/normalization.rs
index 6f00698..ae627b2 100644
--- a/src/unicode/normalization.rs
+++ b/src/unicode/normalization.rs
@@ -51,14 +51,20 @@ pub(super) fn canonical_ordering(sequence: &mut Vec<char>) {
 
     let mut last_idx = sequence.len() - 1;
     while last_idx > 0 {
+        let mut swapped = false;
         for i in 0..=last_idx {
             if i + 1 == last_idx + 1 {
                 continue;
             }
             if reorderable_pair((sequence[i] as u32, sequence[i + 1] as u32)) {
                 sequence.swap(i, i + 1);
+                swapped = true;
             }
         }
+        // Already in canonical order.
+        if !swapped {
+            break;
+        }
         last_idx -= 1;
     }
 }
-- 
2.43.0


From c1012078adf40374654eb41b38f1de21835fbb16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:06 +0000
Subject: [PATCH 6/8] fix: canonical composition deletes characters in one
 pass, instead of moving the rest of the text each time

---
 src/unicode/normalization.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/unicode/normalization.rs b/src/unicode/normalization.rs
index ae627b2..7fa74b1 100644
--- a/src/unicode/normalization.rs
+++ b/src/unicode/normalization.rs
@@ -192,9 +192,11 @@ pub(super) fn canonical_composition(s: &mut Vec<char>) {
         return ();
     }
 
-    let mut offset = 1;
-    while offset < s.len() {
-        let i = offset;
+    // Characters before `i` are composed. The next one is moved there first, so
+    // that deleting C does not have to move the rest of the sequence.
+    let mut i = 1;
+    for next in 1..s.len() {
+        s[i] = s[next];
         let mut back_i = i - 1;
         // R1 - Seek back (left) in the coded character sequence from the
         // character C to find the last Starter L preceding C in the
@@ -217,11 +219,11 @@ pub(super) fn canonical_composition(s: &mut Vec<char>) {
             && (mapping != 0x0 && is_primary_composite)
         {
             s[back_i] = std::char::from_u32(mapping).unwrap();
-            s.remove(i);
-            offset -= 1;
+        } else {
+            i += 1;
         }
-        offset += 1;
     }
+    s.truncate(i);
 }
 
 pub(crate) fn nfd(s: &str) -> Vec<char> {
-- 
2.43.0


From f81f8483cffee99bd7c245ad7d51bae1f273d3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:21 +0000
Subject: [PATCH 7/8] fix: gen-json-data.py runs a converter whose path has
 spaces

---
 tools/ucd-tool/gen-json-data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/ucd-tool/gen-json-data.py b/tools/ucd-tool/gen-json-data.py
index 2f163f1..a66a05f 100755
--- a/tools/ucd-tool/gen-json-data.py
+++ b/tools/ucd-tool/gen-json-data.py
@@ -1,6 +1,7 @@
 #!/usr/bin/env python
 import os
 import json
+import shlex
 
 from ucd.unicode import UNICODE_VERSION_MAJOR, UNICODE_VERSION_MINOR, UNICODE_VERSION_UPDATE
 
@@ -117,7 +118,7 @@ if __name__ == '__main__':
     if ucd_json_dir is None:
         print('UCD_JSON_DIR is not set.')
         exit(1)
-    ucd_json = os.path.join(ucd_json_dir, 'ucd-json')
+    ucd_json = shlex.quote(os.path.join(ucd_json_dir, 'ucd-json'))
 
     os.system(f'mkdir -p {UNICODE_DATA_DIR}')
     os.system(f'mkdir -p {UNICODE_DATA_DIR}/emoji')
-- 
2.43.0


From 18a3f2ebde1689ccfd589bbc30f0c09e78914a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:21 +0000
Subject: [PATCH 8/8] fix: gen-json-data.py reads .env files with blank lines
 and values with =

---
 tools/ucd-tool/gen-json-data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/ucd-tool/gen-json-data.py b/tools/ucd-tool/gen-json-data.py
index a66a05f..9983d91 100755
--- a/tools/ucd-tool/gen-json-data.py
+++ b/tools/ucd-tool/gen-json-data.py
@@ -104,9 +104,9 @@ def load_env(path):
         f = open(path, 'r')
         lines = f.readlines()
         for line in lines:
-            if line.startswith('#'):
+            if line.startswith('#') or line.strip() == '':
                 continue
-            (k, v) = line.split('=')
+            (k, v) = line.split('=', 1)
             os.environ[k] = v.strip()
         f.close()
     except FileNotFoundError:
-- 
2.43.0

