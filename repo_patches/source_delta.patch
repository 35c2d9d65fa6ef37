From 65938f13a41387db4870b7474577cac7ee8faaea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:54 +0000
Subject: [PATCH 01/13] fix: compute line and column numbers correctly in
 sources with non-ASCII characters

---
 src/utils/sourcefile.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils/sourcefile.rs b/src/utils/sourcefile.rs
index 39596fa..ce9346f 100644
--- a/src/utils/sourcefile.rs
+++ b/src/utils/sourcefile.rs
@@ -126,7 +126,8 @@ impl SourceFile {
                 } else {
                     col += 1;
                 }
-                coords.push((line, col));
+                // indexed by byte, so there is one entry per byte of `c`
+                coords.resize(coords.len() + c.len_utf8(), (line, col));
             }
             coords.into_boxed_slice()
         })[index as usize]
-- 
2.43.0


From 7d0529245846eaad1a7b201891672a42c3de37ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:54 +0000
Subject: [PATCH 02/13] fix: do not slice inside a character when removing
 non-ASCII indentation

---
 src/utils/text.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/text.rs b/src/utils/text.rs
index 72ed76f..4559634 100644
--- a/src/utils/text.rs
+++ b/src/utils/text.rs
@@ -93,7 +93,7 @@ pub fn fix_indentation(s: &str) -> String {
                 out += "\n";
             },
             None => {
-                if let Some((index, _)) = line.chars().enumerate().find(|(_, c)| !c.is_whitespace()) {
+                if let Some((index, _)) = line.char_indices().find(|(_, c)| !c.is_whitespace()) {
                     // shortcut if there is no indentation
                     if index == 0 { return s.trim().to_string(); }
                     
-- 
2.43.0


From 2352deb6262be8f632ec09e3f4467d182d48f3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:54 +0000
Subject: [PATCH 03/13] fix: derive numbered unique IDs from the identifier,
 not from the raw text

---
 src/utils/text.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/text.rs b/src/utils/text.rs
index 4559634..3b726ac 100644
--- a/src/utils/text.rs
+++ b/src/utils/text.rs
@@ -169,7 +169,7 @@ impl UniqueIDGenerator {
         let id: Rc<str> = Rc::from(id);
         if self.ids_used.insert(id.clone()) { return id; }
         
-        let mut id_base = id_base;
+        let mut id_base = id.as_ref();
         if id_base.len() + 2 > max_len && max_len >= 3 {
             id_base = &id_base[..max_len - 2];
         }
-- 
2.43.0


From 46e8ccd297f4bbca593156a166c9175bf87a2eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:11 +0000
Subject: [PATCH 04/13] fix: report malformed escape sequences without crashing

---
 src/parser/text.rs      | 5 ++++-
 src/parser/tokenizer.rs | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/parser/text.rs b/src/parser/text.rs
index d183832..a21138f 100644
--- a/src/parser/text.rs
+++ b/src/parser/text.rs
@@ -75,7 +75,10 @@ impl <'a> Parser<'a> {
     /// and a Unicode replacement character is returned.
     pub(super) fn unescape_char(&mut self, tok: Token) -> char {
         let s = self.tok_str(tok);
-        match s.chars().nth(1).unwrap() {
+        // malformed escape sequences are already reported by the tokenizer
+        let Some(c) = s.chars().nth(1) else { return char::REPLACEMENT_CHARACTER; };
+        match c {
+            'x' | 'u' | 'U' if s.len() == 2 => char::REPLACEMENT_CHARACTER,
             'x' | 'u' | 'U' => {
                 let char_code = u32::from_str_radix(&s[2..], 16)
                     .unwrap_or_else(|e| self.ice_at(&format!("failed to parse hex digits: {e}"), tok.range));
diff --git a/src/parser/tokenizer.rs b/src/parser/tokenizer.rs
index 7b6a8b8..58b13b5 100644
--- a/src/parser/tokenizer.rs
+++ b/src/parser/tokenizer.rs
@@ -140,7 +140,7 @@ fn next_token(src: &str, mut on_error: impl FnMut(errors::SyntaxError)) -> (usiz
                 Some(c) => if matches!(c, 'x' | 'u' | 'U') {
                     // expected token length, including the `\x` | `\u` | `\U`
                     let end = if c == 'x' { 4 } else if c == 'u' { 6 } else { 10 };
-                    let len = if src.len() >= end && src[2..end].chars().all(|c| c.is_ascii_hexdigit()) {
+                    let len = if matches!(src.get(2..end), Some(digits) if digits.chars().all(|c| c.is_ascii_hexdigit())) {
                         end
                     } else {
                         on_error(errors::SyntaxError::TokenInvalidEscape);
-- 
2.43.0


From f22c6aefe14dc4c48e1babbce0db448247eac277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:58 +0000
Subject: [PATCH 05/13] fix: report integer overflow as a runtime error

---
 src/compiler/highlight.rs   |  2 +-
 src/compiler/native.rs      | 12 ++++++++----
 src/errors/runtime_error.rs |  2 ++
 3 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/compiler/highlight.rs b/src/compiler/highlight.rs
index 21c70fb..e1e8dbd 100644
--- a/src/compiler/highlight.rs
+++ b/src/compiler/highlight.rs
@@ -185,7 +185,7 @@ pub(super) fn enumerate_lines(lines: Vec<HTML>, start: Int) -> HTML {
     for (i, line) in lines.into_iter().enumerate() {
         let tag = Tag::new(str_ids::SPAN, line)
             .str_attr(str_ids::CLASS, "line")
-            .str_attr(str_ids::DATA_LINE_NO, &(i as Int + start).to_string());
+            .str_attr(str_ids::DATA_LINE_NO, &(i as i128 + start as i128).to_string());
         out.push(tag.into());
         out.push(HTML::RawNewline);
     }
diff --git a/src/compiler/native.rs b/src/compiler/native.rs
index ebacbbc..7efde1b 100644
--- a/src/compiler/native.rs
+++ b/src/compiler/native.rs
@@ -45,12 +45,15 @@ crate::native_defs! {
     impl INT for Int {
         @bind_positional
         fn ADD(ARGS: pos_spread Vec<Int>) {
-            ARGS.into_iter().sum::<Int>()
+            ARGS.into_iter()
+                .try_fold(0, Int::checked_add)
+                .ok_or(errors::RuntimeError::IntegerOverflow)?
         }
         
         @bind_content
         fn NEGATE(PARAM: content Int) {
-            -PARAM
+            PARAM.checked_neg()
+                .ok_or(errors::RuntimeError::IntegerOverflow)?
         }
         
         fn PARSE(PARAM: content RcStr) {
@@ -226,8 +229,9 @@ crate::native_defs! {
                 .iter()
                 .cloned()
                 .enumerate()
-                .map(|(i, v)| [Value::Int(i as Int + FROM), v].into())
-                .collect::<Vec<Value>>()
+                .map(|(i, v)| FROM.checked_add(i as Int).map(|i| [Value::Int(i), v].into()))
+                .collect::<Option<Vec<Value>>>()
+                .ok_or(errors::RuntimeError::IntegerOverflow)?
         }
         
         @bind_content
diff --git a/src/errors/runtime_error.rs b/src/errors/runtime_error.rs
index 2d48c61..a06808e 100644
--- a/src/errors/runtime_error.rs
+++ b/src/errors/runtime_error.rs
@@ -33,6 +33,7 @@ pub enum RuntimeError {
     NoMatchingBranch,
     IndexOutOfRange(i64, usize),
     ParseIntError(std::num::ParseIntError),
+    IntegerOverflow,
     FileReadError(std::rc::Rc<str>, std::io::Error),
     PathNotInOutDir(std::rc::Rc<str>),
     WriteFileNotAllowed,
@@ -68,6 +69,7 @@ impl std::fmt::Display for RuntimeError {
             RuntimeError::NoMatchingBranch => f.write_str("no matching branch in @match"),
             RuntimeError::IndexOutOfRange(i, len) => write!(f, "index out of bounds (index {i}, length {len})"),
             RuntimeError::ParseIntError(e) => write!(f, "failed to parse int ({e})"),
+            RuntimeError::IntegerOverflow => f.write_str("integer overflow"),
             RuntimeError::FileReadError(path, e) => write!(f, "failed to read file \"{path}\" ({e})"),
             RuntimeError::PathNotInOutDir(path) => write!(f, "path \"{path}\" is not within output directory"),
             RuntimeError::WriteFileNotAllowed => f.write_str("no output directory for '@file::write'; use '--out'"),
-- 
2.43.0


From 02866f2da34d04f9825e31656587231d4d5d0bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:58 +0000
Subject: [PATCH 06/13] fix: the least upper bound of 'any' and another type is
 'any'

---
 src/compiler/types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/types.rs b/src/compiler/types.rs
index 6e2fa1e..8489694 100644
--- a/src/compiler/types.rs
+++ b/src/compiler/types.rs
@@ -24,7 +24,7 @@ impl Type {
     pub(super) fn least_upper_bound(self, other: Type) -> Type {
         match (self, other) {
             (t1, t2) if t1 == t2 => t1,
-            (Type::Any, t) | (t, Type::Any) => t,
+            (Type::Any, _) | (_, Type::Any) => Type::Any,
             (t, Type::Unit) | (Type::Unit, t) => t.option(),
             
             (t1, t2) if t1.is_html() && t2.is_html() => Type::Html,
-- 
2.43.0


From d6607062b3c65cfb758eed39a430f54616b18123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:58 +0000
Subject: [PATCH 07/13] fix: allow the .papyri extension in any letter case in
 @file::list

---
 src/compiler/native.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/compiler/native.rs b/src/compiler/native.rs
index 7efde1b..1500524 100644
--- a/src/compiler/native.rs
+++ b/src/compiler/native.rs
@@ -397,11 +397,7 @@ crate::native_defs! {
                     |p, e| { compiler.report_static(errors::ModuleError::IOError(p.into(), e), call_range); },
                 )?
                 .into_iter()
-                .map(|p| format!("{base_path}/{}", p.to_string_lossy())
-                    .strip_suffix(".papyri")
-                    .unwrap_or_else(|| compiler.ice_at("Failed to strip .papyri extension", call_range))
-                    .into()
-                )
+                .map(|p| format!("{base_path}/{}", p.with_extension("").to_string_lossy()).into())
                 .collect::<Vec<Value>>()
         }
         
-- 
2.43.0


From 5cad94a666495559a825807de03dea0131f1acc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:28 +0000
Subject: [PATCH 08/13] fix: allow files to be written when the output
 directory is not a normalised path

---
 src/utils/relpath.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/utils/relpath.rs b/src/utils/relpath.rs
index 471fd10..3514935 100644
--- a/src/utils/relpath.rs
+++ b/src/utils/relpath.rs
@@ -9,9 +9,15 @@ use crate::errors;
 /// given `base` path. Returns `None` if the resulting path would not be a
 /// descendant of `base`.
 pub fn make_relative(base: &Path, rel: &Path) -> Option<PathBuf> {
+    // a relative base such as `./out` or `../out` cannot be compared as it is
+    let base = std::env::current_dir()
+        .ok()?
+        .join(base)
+        .normalize();
+    
     base.join(rel)
         .normalize()
-        .strip_prefix(base)
+        .strip_prefix(&base)
         .map(Path::to_path_buf)
         .ok()
 }
-- 
2.43.0


From 4c61c2e650b2722464681b1c9c9d674228361d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:02 +0000
Subject: [PATCH 09/13] fix: an 'a' element which contains a block is not
 inline

---
 src/compiler/html.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/html.rs b/src/compiler/html.rs
index 4d3c609..fa86b00 100644
--- a/src/compiler/html.rs
+++ b/src/compiler/html.rs
@@ -117,7 +117,7 @@ impl HTML {
             HTML::Whitespace |
             HTML::RawNewline => true,
             
-            HTML::Tag(tag) => !taginfo::is_block(tag.name_id),
+            HTML::Tag(_) => !self.is_block(),
             HTML::Sequence(seq) => seq.iter().all(HTML::is_inline),
             
             HTML::Empty => false,
-- 
2.43.0


From 9d33e42ab15b39098eedbafdc62299558cd5b000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:07 +0000
Subject: [PATCH 10/13] fix: wrap loose text in a sequence which also has
 block-level content

A value such as the result of joining a list of HTML values can be a
sequence with both block-level and inline items. It was placed in a
block-level element as it is, so the inline items were not wrapped in
paragraphs.
---
 src/compiler/sequence.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/compiler/sequence.rs b/src/compiler/sequence.rs
index 7e0bf0b..adbd727 100644
--- a/src/compiler/sequence.rs
+++ b/src/compiler/sequence.rs
@@ -155,6 +155,14 @@ impl SequenceBuilder {
             return Err(e.into());
         }
         
+        // a sequence with both block-level and inline content is not allowed
+        // as it is; push its items separately so inline content gets wrapped
+        if let (HTML::Sequence(seq), ContentKind::RequireBlock(..) | ContentKind::AllowBlock(..)) = (&child, self.content_kind) {
+            if child.is_block() && seq.iter().any(|c| !c.is_block() && !c.is_whitespace()) {
+                return seq.iter().try_for_each(|c| self.push(compiler, c.clone()));
+            }
+        }
+        
         let is_allowed = match self.content_kind {
             ContentKind::RequireOneOf(tag_names) => child.is_all(tag_names),
             ContentKind::RequireBlock(..) |
-- 
2.43.0


From fe70f2422109367a96036c4a2124b5dd9ae802df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:08 +0000
Subject: [PATCH 11/13] fix: coerce implicit arguments to the parameter's type

---
 src/compiler/signature.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/compiler/signature.rs b/src/compiler/signature.rs
index 50174c8..98de343 100644
--- a/src/compiler/signature.rs
+++ b/src/compiler/signature.rs
@@ -206,6 +206,7 @@ impl <'a, 'b> ParamBinder<'a, 'b> {
             }
             
             let v = self.compiler.get_implicit(param.name_id, param.default_value.as_ref().map(|v| *v.clone()))?;
+            let v = self.compiler.coerce(v, &param.type_)?;
             self.bound.map.insert(param.name_id, v);
         }
         Ok(())
-- 
2.43.0


From 6713895cad214ac27639055db12fc380df61a77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:08 +0000
Subject: [PATCH 12/13] fix: keep the contents of template elements when
 parsing HTML

---
 src/compiler/html_parse.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/compiler/html_parse.rs b/src/compiler/html_parse.rs
index 6547d37..89021e8 100644
--- a/src/compiler/html_parse.rs
+++ b/src/compiler/html_parse.rs
@@ -42,7 +42,7 @@ fn node_to_html(node: &Node, pool: &mut StringPool) -> HTML {
         // TODO: represent doctypes properly
         NodeData::Doctype {..} => HTML::Empty,
         
-        NodeData::Element {name, attrs, ..} => {
+        NodeData::Element {name, attrs, template_contents, ..} => {
             let name_id = pool.insert_lowercase(name.local.as_ref());
             let attr_map: AttrMap = attrs.borrow()
                 .iter()
@@ -52,8 +52,10 @@ fn node_to_html(node: &Node, pool: &mut StringPool) -> HTML {
                     Some(attr.value.as_ref().into()),
                 ))
                 .collect();
+            // The contents of a template element are not among its children
             let children: HTML = node.children.borrow()
                 .iter()
+                .chain(template_contents.borrow().iter())
                 .map(|node| node_to_html(node, pool))
                 .collect();
             
-- 
2.43.0


From 8b340aa7bf3a2b42f400179b63232dc8a45f3fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:21 +0000
Subject: [PATCH 13/13] fix: do not list directories with a .papyri extension
 as source files

---
 src/bin/papyri.rs    | 2 +-
 src/utils/relpath.rs | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bin/papyri.rs b/src/bin/papyri.rs
index dc55923..7f39959 100644
--- a/src/bin/papyri.rs
+++ b/src/bin/papyri.rs
@@ -180,7 +180,7 @@ impl Main {
                 for entry in paths {
                     let path = entry
                         .map_err(|e| format!("File error: {e} at \"{path_str}\""))?;
-                    if utils::sourcefile::is_papyri_file(&path) {
+                    if utils::sourcefile::is_papyri_file(&path) && !path.is_dir() {
                         source_paths.insert(path);
                     }
                 }
diff --git a/src/utils/relpath.rs b/src/utils/relpath.rs
index 3514935..50b4b4d 100644
--- a/src/utils/relpath.rs
+++ b/src/utils/relpath.rs
@@ -42,6 +42,7 @@ pub fn find_papyri_source_files_in_dir(path: &Path, mut on_error: impl FnMut(&Pa
                     .canonicalize()
                     .map_err(|e| on_error(entry.path(), e))
                     .ok()?;
+                if entry_path.is_dir() { return None; }
                 make_relative(&canonical_path, &entry_path)
             },
             Err(e) => {
-- 
2.43.0

