From 1e0f97fa24ebdb4048f91ab90030d261cc44ac1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:42 +0000
Subject: [PATCH 001/182] fix: resolve include targets relative to stdin and
 temp sources

---
 parser/src/tasks/directives/includes/target.rs | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/parser/src/tasks/directives/includes/target.rs b/parser/src/tasks/directives/includes/target.rs
index 39c577d..6f39e8f 100644
--- a/parser/src/tasks/directives/includes/target.rs
+++ b/parser/src/tasks/directives/includes/target.rs
@@ -21,18 +21,13 @@ pub fn prepare(
     let abspath = base_dir.join(target);
     return Ok(Target::FilePath(abspath.to_string()));
   }
+  if !target.is_relative() {
+    return Ok(target.into());
+  }
   match src_file {
-    Src::Path(src) => {
-      let abspath = if target.is_relative() {
-        let dir = Path::new(src.dirname());
-        dir.join(target)
-      } else {
-        target
-      };
-      Ok(abspath.into())
-    }
-    Src::Stdin { .. } => unimplemented!("include from stdin not implemented yet"),
-    Src::Tmp => unreachable!(),
+    Src::Path(src) => Ok(Path::new(src.dirname()).join(target).into()),
+    Src::Stdin { cwd } => Ok(cwd.join(target).into()),
+    Src::Tmp => Err(Err::BaseDirRequired),
   }
 }
 
-- 
2.43.0


From 47120e30dc3710fe9b00cf429fe08f8843737903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:42 +0000
Subject: [PATCH 002/182] fix: ifeval with a lone quote as an operand does not
 panic

---
 parser/src/tasks/directives/ifeval.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parser/src/tasks/directives/ifeval.rs b/parser/src/tasks/directives/ifeval.rs
index 9db9a7a..edc9259 100644
--- a/parser/src/tasks/directives/ifeval.rs
+++ b/parser/src/tasks/directives/ifeval.rs
@@ -58,8 +58,9 @@ impl<'arena> Parser<'arena> {
     } else if let Ok(float) = expr.parse::<f32>() {
       return Value::Float(float);
     }
-    if expr.starts_with('\'') && expr.ends_with('\'')
-      || expr.starts_with('"') && expr.ends_with('"')
+    if expr.len() > 1
+      && (expr.starts_with('\'') && expr.ends_with('\'')
+        || expr.starts_with('"') && expr.ends_with('"'))
     {
       Value::String(self.string(&expr[1..expr.len() - 1]))
     } else if expr.chars().all(|c| c.is_ascii_whitespace()) {
-- 
2.43.0


From d8472a8586f381187165ff350cf76887f7b12983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:42 +0000
Subject: [PATCH 003/182] fix: reject invalid utf-8 in include files starting
 with a byte order mark

---
 parser/src/tasks/directives/includes/normalize_includes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/tasks/directives/includes/normalize_includes.rs b/parser/src/tasks/directives/includes/normalize_includes.rs
index 18e0ece..0ef2543 100644
--- a/parser/src/tasks/directives/includes/normalize_includes.rs
+++ b/parser/src/tasks/directives/includes/normalize_includes.rs
@@ -80,7 +80,7 @@ impl<'arena> Parser<'arena> {
     // UTF-8 BOM
     if bytes.len() >= 3 && bytes[0..3] == [0xEF, 0xBB, 0xBF] {
       bytes.drain(0..3);
-      return Ok(());
+      return if std::str::from_utf8(bytes).is_ok() { Ok(()) } else { Err("Invalid UTF-8") };
     }
 
     // UTF-16 BOM, little endian
-- 
2.43.0


From 54161e66520a975151d933499e6358ecf8fe1022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:42 +0000
Subject: [PATCH 004/182] fix: attribute values are not expanded recursively

---
 parser/src/tasks/attr_refs.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/parser/src/tasks/attr_refs.rs b/parser/src/tasks/attr_refs.rs
index b73c234..f9edc24 100644
--- a/parser/src/tasks/attr_refs.rs
+++ b/parser/src/tasks/attr_refs.rs
@@ -51,7 +51,12 @@ impl<'arena> Parser<'arena> {
         self.ctx.replacing_attr = false;
       }
     }
-    if token.kind(TokenKind::AttrRef) && self.ctx.subs.attr_refs() {
+    if token.kind(TokenKind::AttrRef) && token.attr_replacement {
+      // the value of an attribute is never expanded again, matching asciidoctor,
+      // otherwise an attribute could (indirectly) refer to itself
+      token.kind = TokenKind::Word;
+      line.push(token);
+    } else if token.kind(TokenKind::AttrRef) && self.ctx.subs.attr_refs() {
       match self.document.meta.get(&token.lowercase_attr_name()) {
         Some(AttrValue::String(attr_val)) => {
           #[cfg(feature = "attr_ref_observation")]
@@ -72,9 +77,9 @@ impl<'arena> Parser<'arena> {
               buf_loc = BufLoc::From(def.val_loc);
             }
             self.lexer.set_tmp_buf(attr_val, buf_loc);
+            self.ctx.replacing_attr = true;
           }
           line.push(token);
-          self.ctx.replacing_attr = true;
         }
         _ => {
           #[cfg(feature = "attr_ref_observation")]
-- 
2.43.0


From ef15e6ef4b0e600fcfc1e106d4fc32ec9902bbcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:42 +0000
Subject: [PATCH 005/182] fix: table column widths summing to more than 255 do
 not overflow

---
 ast/src/col_widths.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ast/src/col_widths.rs b/ast/src/col_widths.rs
index 09f0bb1..a4823bd 100644
--- a/ast/src/col_widths.rs
+++ b/ast/src/col_widths.rs
@@ -36,12 +36,12 @@ impl<'arena> ColWidths<'arena> {
   }
 
   pub fn distribute(&self) -> impl ExactSizeIterator<Item = DistributedColWidth> + '_ {
-    let mut width_divisor = Option::<u8>::None;
+    let mut width_divisor = Option::<u32>::None;
     let mut num_autowidth = 0;
     for cw in self.iter() {
       match cw {
         ColWidth::Proportional(n) | ColWidth::Percentage(n) => {
-          width_divisor = Some(width_divisor.map_or(*n, |sum| sum + n))
+          width_divisor = Some(width_divisor.unwrap_or(0) + u32::from(*n))
         }
         ColWidth::Auto => num_autowidth += 1,
       }
-- 
2.43.0


From 823e0a60c28bb1bc2619190bc93dc5941e71f31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:42 +0000
Subject: [PATCH 006/182] fix: tables without columns do not divide by zero

---
 parser/src/tasks/table/parse_psv_table.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/src/tasks/table/parse_psv_table.rs b/parser/src/tasks/table/parse_psv_table.rs
index 5228740..02749d8 100644
--- a/parser/src/tasks/table/parse_psv_table.rs
+++ b/parser/src/tasks/table/parse_psv_table.rs
@@ -41,7 +41,7 @@ impl<'arena> Parser<'arena> {
     // check if we need to distrubute spilled cells from last row
     let remaining_room = ctx.num_cols.saturating_sub(num_effective_cells);
     ctx.spilled_cells = cells.split_off(remaining_room.min(cells.len()));
-    if cells.len() == remaining_room {
+    if cells.len() == remaining_room && ctx.num_cols > 0 {
       ctx.effective_row_idx += 1;
       return Ok(Some(Row::new(cells)));
     }
@@ -94,7 +94,7 @@ impl<'arena> Parser<'arena> {
     };
 
     let mut drop_invalid_cell = false;
-    if !ctx.counting_cols && spec.col_span.unwrap_or(0) > ctx.num_cols as u8 {
+    if !ctx.counting_cols && spec.col_span.unwrap_or(0) as usize > ctx.num_cols {
       self.err_at(
         format!(
           "Cell column span ({}) exceeds number of columns ({})",
-- 
2.43.0


From 68c968f192ee2d32f6488e1fbba21224b61c4d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:42 +0000
Subject: [PATCH 007/182] fix: table separator at the start of a word inside a
 cell does not loop forever

---
 parser/src/tasks/table/mod.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/parser/src/tasks/table/mod.rs b/parser/src/tasks/table/mod.rs
index a1508d2..c341759 100644
--- a/parser/src/tasks/table/mod.rs
+++ b/parser/src/tasks/table/mod.rs
@@ -106,10 +106,11 @@ impl<'arena> TableTokens<'arena> {
     }
 
     let token = self.current().unwrap();
-    if token.lexeme.contains(sep) {
-      let (before, _) = token.lexeme.split_once(sep).unwrap();
-      // NB: caller must check that lexeme doesn't START with sep
-      debug_assert!(!before.is_empty());
+    // NB: a lexeme that _starts_ with the sep is only seen here when the caller
+    // decided that it does not end the cell, e.g. inside of a quoted csv value
+    if let Some((before, _)) = token.lexeme.split_once(sep)
+      && !before.is_empty()
+    {
       let lexeme = BumpString::from_str_in(before, self.0.bump_arena());
       let loc = token.loc;
       let before_len = before.len() as u32;
-- 
2.43.0


From 32fca4a97267b132e5042feecf891cae416753b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:43 +0000
Subject: [PATCH 008/182] fix: clamp heading levels to the valid range with
 leveloffset

---
 parser/src/tasks/heading_level.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/parser/src/tasks/heading_level.rs b/parser/src/tasks/heading_level.rs
index 618257c..e92fbaf 100644
--- a/parser/src/tasks/heading_level.rs
+++ b/parser/src/tasks/heading_level.rs
@@ -37,9 +37,9 @@ impl<'arena> Parser<'arena> {
     match value {
       AttrValue::String(s) => {
         if let Some(add) = s.strip_prefix('+') {
-          *leveloffset += add.parse::<i8>().unwrap_or(0);
+          *leveloffset = leveloffset.saturating_add(add.parse::<i8>().unwrap_or(0));
         } else if let Some(sub) = s.strip_prefix('-') {
-          *leveloffset -= sub.parse::<i8>().unwrap_or(0);
+          *leveloffset = leveloffset.saturating_sub(sub.parse::<i8>().unwrap_or(0));
         } else {
           *leveloffset = s.parse::<i8>().unwrap_or(*leveloffset);
         }
@@ -54,6 +54,10 @@ const fn adjusted_leveloffset(leveloffset: i8, heading_level: u8) -> u8 {
   if leveloffset == 0 {
     return heading_level;
   }
-  let new_level = (heading_level as i8) + leveloffset;
-  if new_level < 0 { 0 } else { new_level as u8 }
+  // keep within the valid section levels
+  match (heading_level as i8).saturating_add(leveloffset) {
+    ..0 => 0,
+    level @ 0..=5 => level as u8,
+    6.. => 5,
+  }
 }
-- 
2.43.0


From 099d9345b5cbdcc714275086d6aac5f0a196a5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:43 +0000
Subject: [PATCH 009/182] fix: peek and resume across nested include sources at
 eof

---
 parser/src/lexer/root_lexer.rs   | 47 ++++++++++++++++++++++++--------
 parser/src/lexer/source_lexer.rs | 20 ++++++++++----
 2 files changed, 51 insertions(+), 16 deletions(-)

diff --git a/parser/src/lexer/root_lexer.rs b/parser/src/lexer/root_lexer.rs
index d06640b..5ee4cbd 100644
--- a/parser/src/lexer/root_lexer.rs
+++ b/parser/src/lexer/root_lexer.rs
@@ -162,6 +162,22 @@ impl<'arena> RootLexer<'arena> {
     self.sources[loc.include_depth as usize].byte_before(loc.start)
   }
 
+  /// resume lexing right after `loc`, which might be in a different source
+  /// than the current one, if an include was started or finished since
+  pub fn rewind(&mut self, loc: SourceLocation) {
+    self.tmp_buf = None;
+    self.next_idx = None;
+    self.idx = loc.include_depth;
+    self.set_pos(loc.end);
+    self.source_stack.clear();
+    let mut idx = self.idx;
+    while let Some((parent_idx, parent_pos)) = self.sources[idx as usize].parent {
+      self.sources[parent_idx as usize].pos = parent_pos;
+      self.source_stack.insert(0, parent_idx);
+      idx = parent_idx;
+    }
+  }
+
   pub fn set_pos(&mut self, pos: u32) {
     self.sources[self.idx as usize].pos = pos - self.sources[self.idx as usize].offset;
   }
@@ -196,12 +212,14 @@ impl<'arena> RootLexer<'arena> {
     if let Some(c) = self.sources[self.idx as usize].peek() {
       return Some(c);
     }
-    // case: we're out of bytes, check if we're returning to a previous source
-    if let Some(next_idx) = self.source_stack.last() {
-      return self.sources[*next_idx as usize].peek();
-    }
-    // case: nothing left in any source, document EOF
-    None
+    // case: we're out of bytes, check if we're returning to a previous source,
+    // any of which may also be out of bytes, if its last line was the include,
+    // otherwise nothing is left in any source, document EOF
+    self
+      .source_stack
+      .iter()
+      .rev()
+      .find_map(|prev_idx| self.sources[*prev_idx as usize].peek())
   }
 
   pub fn skip_byte(&mut self) {
@@ -223,6 +241,8 @@ impl<'arena> RootLexer<'arena> {
 
   fn maybe_advance_source(&mut self) {
     if let Some(next_idx) = self.next_idx.take() {
+      let pos = self.sources[self.idx as usize].pos;
+      self.sources[next_idx as usize].parent = Some((self.idx, pos));
       self.source_stack.push(self.idx);
       self.idx = next_idx;
     }
@@ -249,12 +269,17 @@ impl<'arena> RootLexer<'arena> {
   }
 
   pub fn at_delimiter_line(&self) -> Option<(u32, u8)> {
-    let cur_source = &self.sources[self.idx as usize];
-    if cur_source.is_eof() && !self.source_stack.is_empty() {
-      self.sources[*self.source_stack.last().unwrap() as usize].at_delimiter_line()
-    } else {
-      cur_source.at_delimiter_line()
+    let cur_source = &self.sources[self.next_idx.unwrap_or(self.idx) as usize];
+    if !cur_source.is_eof() {
+      return cur_source.at_delimiter_line();
     }
+    self
+      .source_stack
+      .iter()
+      .rev()
+      .map(|prev_idx| &self.sources[*prev_idx as usize])
+      .find(|source| !source.is_eof())
+      .and_then(|source| source.at_delimiter_line())
   }
 
   pub fn is_eof(&self) -> bool {
diff --git a/parser/src/lexer/source_lexer.rs b/parser/src/lexer/source_lexer.rs
index 1ebeed0..5842b49 100644
--- a/parser/src/lexer/source_lexer.rs
+++ b/parser/src/lexer/source_lexer.rs
@@ -13,6 +13,8 @@ pub struct SourceLexer<'arena> {
   pub leveloffset: i8,
   pub plugin_macros: Rc<BumpVec<'arena, BumpString<'arena>>>,
   pub max_include_depth: Option<u16>,
+  /// source which included this one, and where to resume lexing it
+  pub parent: Option<(u16, u32)>,
 }
 
 impl<'arena> SourceLexer<'arena> {
@@ -33,6 +35,7 @@ impl<'arena> SourceLexer<'arena> {
       file,
       max_include_depth,
       plugin_macros,
+      parent: None,
     }
   }
 
@@ -50,6 +53,7 @@ impl<'arena> SourceLexer<'arena> {
       file,
       max_include_depth: None,
       plugin_macros: Rc::new(bvec![in bump]),
+      parent: None,
     }
   }
 
@@ -117,9 +121,15 @@ impl<'arena> SourceLexer<'arena> {
   }
 
   pub fn str_from_loc(&self, loc: SourceLocation) -> &str {
-    let start = (loc.start - self.offset) as usize;
-    let end = (loc.end - self.offset) as usize;
-    std::str::from_utf8(&self.src[start..end]).unwrap()
+    // NB: the location of tokens lexed from a temporary buffer is synthetic,
+    // it doesn't necessarily correspond to a span of the source
+    let start = loc.start.saturating_sub(self.offset) as usize;
+    let end = loc.end.saturating_sub(self.offset) as usize;
+    self
+      .src
+      .get(start..end)
+      .and_then(|bytes| std::str::from_utf8(bytes).ok())
+      .unwrap_or("")
   }
 
   pub fn codepoint(&mut self, n: u32, kind: TokenKind) -> Token<'arena> {
@@ -221,7 +231,7 @@ impl<'arena> SourceLexer<'arena> {
   }
 
   pub fn line_of(&self, location: u32) -> BumpString<'arena> {
-    let location = location - self.offset;
+    let location = (location - self.offset).min(self.src.len() as u32);
     let mut start = location;
     let mut end = location;
 
@@ -246,7 +256,7 @@ impl<'arena> SourceLexer<'arena> {
   }
 
   pub fn line_number_with_offset(&self, location: u32) -> (u32, u32) {
-    let location = location - self.offset;
+    let location = (location - self.offset).min(self.src.len() as u32);
     let mut line_number = 1;
     let mut offset: u32 = 0;
     for idx in 0..location {
-- 
2.43.0


From da6b230cd32aa6dae3984cfc75a7b6602a7804e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:43 +0000
Subject: [PATCH 010/182] fix: diagnostics for attributes and empty spans do
 not panic

---
 parser/src/diagnostic.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/parser/src/diagnostic.rs b/parser/src/diagnostic.rs
index 12abce6..04b24f3 100644
--- a/parser/src/diagnostic.rs
+++ b/parser/src/diagnostic.rs
@@ -65,8 +65,7 @@ impl Parser<'_> {
       if def.in_header && def.name == *key { Some(def.loc) } else { None }
     });
     let Some(loc) = loc else {
-      debug_assert!(false, "doc attr not found");
-      return Ok(());
+      return Ok(()); // set by the job, so there's no line in the document to point to
     };
     self.err_line_of(message, loc)
   }
@@ -106,7 +105,7 @@ impl Parser<'_> {
       line: self.lexer.line_of(loc).to_string(),
       message: message.into(),
       underline_start: offset,
-      underline_width: loc.end - loc.start,
+      underline_width: loc.end.saturating_sub(loc.start),
       source_file: self.lexer.source_file_at(loc.include_depth).clone(),
     })
   }
-- 
2.43.0


From d8810062ba0b13ff18cb8965957de07f5b82cb9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:43 +0000
Subject: [PATCH 011/182] fix: malformed attr lists, anchors and nested
 brackets do not panic

---
 parser/src/tasks/parse_attr_list.rs | 40 ++++++++++++++++++++++++-----
 1 file changed, 33 insertions(+), 7 deletions(-)

diff --git a/parser/src/tasks/parse_attr_list.rs b/parser/src/tasks/parse_attr_list.rs
index 637d17c..e79b66a 100644
--- a/parser/src/tasks/parse_attr_list.rs
+++ b/parser/src/tasks/parse_attr_list.rs
@@ -66,6 +66,12 @@ impl<'arena> Parser<'arena> {
     ) {
       return Ok(None);
     }
+    let close_idx = line.index_of_seq(&[Kind(CloseBracket)]);
+    if close_idx != line.index_of_seq(&[Kind(CloseBracket); 2])
+      && !(is_entire_line && line.index_of_seq(&[Kind(Comma)]).is_some_and(|n| Some(n) < close_idx))
+    {
+      return Ok(None);
+    }
     let start = current.loc.start - 2;
     let id = line.consume_to_string_until_one_of(&[Kind(Comma), Kind(CloseBracket)], self.bump);
     assert!(!id.is_empty());
@@ -148,6 +154,18 @@ impl<'arena> Parser<'arena> {
       return Ok(attrs);
     }
 
+    if line
+      .nth_token(num_tokens)
+      .is_none_or(|t| t.kind != CloseBracket)
+    {
+      // unbalanced nested brackets, end at the first unescaped close bracket
+      let mut prev_kind = TokenKind::Eof;
+      num_tokens = line
+        .iter()
+        .take_while(|t| std::mem::replace(&mut prev_kind, t.kind) == Backslash || t.kind != CloseBracket)
+        .count();
+    }
+
     let mut tokens = Deq::with_capacity(line.len() - 1, self.bump);
     for _ in 0..num_tokens {
       tokens.push_non_attr(line.consume_current().unwrap());
@@ -235,18 +253,19 @@ impl<'arena> Parser<'arena> {
       AttrIr::Id(inner) if formatted_text => {
         self.err_at(
           ONLY_SHORTHAND_ERR,
-          SourceLocation::spanning(inner.first().unwrap().loc, inner.last().unwrap().loc),
+          tokens_loc(&inner).unwrap_or(attr_list.loc),
         )?;
         return Ok(());
       }
       AttrIr::Options(groups) | AttrIr::Roles(groups) if formatted_text => {
-        self.err_at(
-          ONLY_SHORTHAND_ERR,
-          SourceLocation::spanning(
-            groups.first().unwrap().first().unwrap().loc,
-            groups.last().unwrap().last().unwrap().loc,
+        let loc = match (groups.first(), groups.last()) {
+          (Some(first), Some(last)) => SourceLocation::spanning(
+            first.first().unwrap().loc,
+            last.last().unwrap().loc,
           ),
-        )?;
+          _ => attr_list.loc,
+        };
+        self.err_at(ONLY_SHORTHAND_ERR, loc)?;
         return Ok(());
       }
       AttrIr::Named(name, tokens) if formatted_text => {
@@ -568,6 +587,13 @@ fn trim<'a>(mut tokens: Deq<'a, Token<'a>>) -> Deq<'a, Token<'a>> {
   tokens
 }
 
+fn tokens_loc(tokens: &Deq<Token>) -> Option<SourceLocation> {
+  Some(SourceLocation::spanning(
+    tokens.first()?.loc,
+    tokens.last()?.loc,
+  ))
+}
+
 trait DeqTokenExt<'a> {
   fn push_non_attr(&mut self, token: Token<'a>);
 }
-- 
2.43.0


From 11c0bff7f467e0ae0463240d22fa29f7ec20c5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:43 +0000
Subject: [PATCH 012/182] fix: attribute definition continuations at eof and
 with crlf

---
 parser/src/tasks/parse_doc_attrs.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/parser/src/tasks/parse_doc_attrs.rs b/parser/src/tasks/parse_doc_attrs.rs
index c5794ac..ba1b296 100644
--- a/parser/src/tasks/parse_doc_attrs.rs
+++ b/parser/src/tasks/parse_doc_attrs.rs
@@ -103,10 +103,10 @@ impl<'arena> Parser<'arena> {
           attr_def_string.push('\n');
         }
 
-        if self.lexer.byte_at(pos + 1, depth) == Some(b'\r') {
-          pos += 2;
-        } else {
-          pos += 1;
+        match self.lexer.byte_at(pos, depth) {
+          Some(b'\r') => pos += 2,
+          Some(_) => pos += 1,
+          None => break,
         }
 
         let line_start = pos;
-- 
2.43.0


From cc3e9ccf86d582e0dc4cca91f52c5d401f5c1614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:43 +0000
Subject: [PATCH 013/182] fix: line predicates on partially consumed and
 over-long heading lines

---
 parser/src/line.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/parser/src/line.rs b/parser/src/line.rs
index a79e3e1..2fd9c5d 100644
--- a/parser/src/line.rs
+++ b/parser/src/line.rs
@@ -47,7 +47,9 @@ impl<'arena> Line<'arena> {
     } else if self.pass_macro || self.pass_pluses > 1 {
       true
     } else {
-      let last = self.last().unwrap();
+      let Some(last) = self.last() else {
+        return false;
+      };
       if last.is_kind_len(Plus, 1) && self.len() > 1 {
         // NB: line ending ` +` is a hardbreak, cannot be pass
         !self.nth_token(self.len() - 2).is_whitespaceish()
@@ -229,14 +231,14 @@ impl<'arena> Line<'arena> {
 
   pub fn unadjusted_heading_level(&self) -> Option<u8> {
     if self.starts_with_seq(&[Kind(EqualSigns), Kind(Whitespace)]) && self.num_tokens() > 2 {
-      Some((self.current_token().unwrap().lexeme.len() - 1) as u8)
+      heading_marker_level(self.current_token().unwrap().lexeme.len())
     } else if self.starts(Hash)
       && self.contains_seq(&[Kind(Hash), Kind(Whitespace)])
       && self.num_tokens() > 2
     {
       let num_hashes = self.tokens.iter().take_while(|t| t.kind == Hash).count();
       if self.num_tokens() > num_hashes + 1 && self.nth_token(num_hashes).kind(Whitespace) {
-        Some((num_hashes - 1) as u8)
+        heading_marker_level(num_hashes)
       } else {
         None
       }
@@ -273,7 +275,8 @@ impl<'arena> Line<'arena> {
   }
 
   pub fn is_block_anchor(&self) -> bool {
-    self.starts_with_seq(&[Kind(OpenBracket); 2])
+    self.is_fully_unconsumed()
+      && self.starts_with_seq(&[Kind(OpenBracket); 2])
       && self.num_tokens() > 4
       && !matches!(
         self.nth_token(2).unwrap().kind,
@@ -1034,6 +1037,11 @@ impl<'arena> Line<'arena> {
   }
 }
 
+/// section titles have one to six markers, meaning levels 0-5
+const fn heading_marker_level(num_markers: usize) -> Option<u8> {
+  if num_markers <= 6 { Some(num_markers as u8 - 1) } else { None }
+}
+
 #[cfg(test)]
 mod tests {
   use crate::internal::*;
-- 
2.43.0


From e58cfc1b3190e75ab8cdac5dce54111641f7cd16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:43 +0000
Subject: [PATCH 014/182] fix: retain lines adjoining the document header

---
 parser/src/tasks/parse_doc_header.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/src/tasks/parse_doc_header.rs b/parser/src/tasks/parse_doc_header.rs
index 9d5ba74..e05c14c 100644
--- a/parser/src/tasks/parse_doc_header.rs
+++ b/parser/src/tasks/parse_doc_header.rs
@@ -19,6 +19,7 @@ impl<'arena> Parser<'arena> {
     self.skip_header_doc_attrs(&mut block, &mut header)?;
     self.parse_doc_title_author_revision(&mut block, &mut header)?;
     self.skip_header_doc_attrs(&mut block, &mut header)?;
+    self.restore_lines(block); // adjoining lines that aren't part of the header
     self.finalize_doc_header(header);
     Ok(())
   }
-- 
2.43.0


From 9d27665eecc6d29c942c2b6f00c125f3489c21f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:43 +0000
Subject: [PATCH 015/182] fix: escaped index term shorthand without a
 terminator does not panic

---
 parser/src/tasks/parse_inlines/index_term.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/parser/src/tasks/parse_inlines/index_term.rs b/parser/src/tasks/parse_inlines/index_term.rs
index 8622cc9..a90821c 100644
--- a/parser/src/tasks/parse_inlines/index_term.rs
+++ b/parser/src/tasks/parse_inlines/index_term.rs
@@ -90,13 +90,13 @@ impl<'arena> Parser<'arena> {
     if end_len > 2 {
       let mut trailing_parens_loc = node_loc.clamp_end();
       trailing_parens_loc.end += (end_len - 2) as u32;
-      let trailing_parens = self.lexer.src_string_from_loc(trailing_parens_loc);
+      let trailing_parens = self.string(&")".repeat(end_len - 2));
       if let Some(InlineNode { content: Inline::Text(txt), loc }) = term.last_mut() {
-        txt.push_str(&trailing_parens.src);
+        txt.push_str(&trailing_parens);
         loc.extend(trailing_parens_loc);
       } else {
         term.push(InlineNode {
-          content: Inline::Text(trailing_parens.src),
+          content: Inline::Text(trailing_parens),
           loc: trailing_parens_loc,
         });
       }
@@ -179,7 +179,11 @@ impl<'arena> Parser<'arena> {
     parens.lexeme.pop();
     acc.push_node(Inline::Discarded, token.loc);
     acc.push_text_token(&single_paren);
-    let end_len = terminates(&line, lines).unwrap();
+    let Some(end_len) = terminates(&line, lines) else {
+      acc.push_text_token(&parens);
+      lines.restore_if_nonempty(line);
+      return Ok(());
+    };
     let (node, loc) = self.parse_index_term_shorthand(end_len, &parens, line, lines, acc)?;
     acc.push_node(node, loc);
     Ok(())
-- 
2.43.0


From da8b107dfe0672ebffa6939917cfcc25c702ce14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:43 +0000
Subject: [PATCH 016/182] fix: unterminated or empty pass macro does not panic

---
 parser/src/tasks/parse_inlines/inline_preproc.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/parser/src/tasks/parse_inlines/inline_preproc.rs b/parser/src/tasks/parse_inlines/inline_preproc.rs
index d1f3dac..2a8507b 100644
--- a/parser/src/tasks/parse_inlines/inline_preproc.rs
+++ b/parser/src/tasks/parse_inlines/inline_preproc.rs
@@ -66,7 +66,10 @@ impl<'arena> Parser<'arena> {
       line.discard(plus_count - 1);
     }
     let extend = if start_token.kind == Plus { plus_count as u32 } else { 1 };
-    loc.end = passlines.last_loc().unwrap().end + extend;
+    loc.end = match passlines.last_loc() {
+      Some(last_loc) => last_loc.end + extend,
+      None => loc.end.max(line.first_loc().map_or(loc.end, |next| next.start)),
+    };
     let restore_subs = self.ctx.subs;
     self.ctx.subs = subs;
     let nodes = self.parse_inlines(&mut passlines)?;
@@ -134,6 +137,9 @@ impl<'arena> Parser<'arena> {
         _ => return None,
       }
     }
+    if num_target_tokens == line.num_tokens() {
+      return None; // no open bracket on this line
+    }
 
     let mut n = 1;
     let mut last = OpenBracket;
-- 
2.43.0


From b3d2eddcbb5b9fcec1f7f0da6a9450271e617d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:43 +0000
Subject: [PATCH 017/182] fix: spaced dashes at the start of an included file
 do not underflow

---
 parser/src/tasks/parse_inlines/inline_utils.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/src/tasks/parse_inlines/inline_utils.rs b/parser/src/tasks/parse_inlines/inline_utils.rs
index 5cbb5c0..7b307d0 100644
--- a/parser/src/tasks/parse_inlines/inline_utils.rs
+++ b/parser/src/tasks/parse_inlines/inline_utils.rs
@@ -122,12 +122,12 @@ impl<'arena> Accum<'arena> {
         let mut newline = AdjacentNewline::None;
         let mut loc = token.loc;
         if last_char.is_some() {
-          loc.start -= 1;
+          loc.start = loc.start.saturating_sub(1);
           self.text.drop_last(1);
         } else if self.inlines.last_is(&Inline::Newline) {
           self.inlines.pop();
           newline = AdjacentNewline::Leading;
-          loc.start -= 1;
+          loc.start = loc.start.saturating_sub(1);
         }
         self.push_node(
           Inline::SpacedDashes(token.len() as u8, newline),
-- 
2.43.0


From b64dc414d9ded9019f3e9b9a3826bbab8ad410da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:43 +0000
Subject: [PATCH 018/182] fix: malformed inline macros, escapes and footnote
 passthroughs do not panic

---
 parser/src/tasks/parse_inlines/mod.rs | 38 ++++++++++++++++++---------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/parser/src/tasks/parse_inlines/mod.rs b/parser/src/tasks/parse_inlines/mod.rs
index c455a13..b7b4b70 100644
--- a/parser/src/tasks/parse_inlines/mod.rs
+++ b/parser/src/tasks/parse_inlines/mod.rs
@@ -21,11 +21,11 @@ impl<'arena> Parser<'arena> {
     stop_tokens: &[TokenSpec],
   ) -> Result<InlineNodes<'arena>> {
     let inlines = BumpVec::new_in(self.bump).into();
-    if lines.is_empty() {
+    let Some(first_loc) = lines.iter().find_map(Line::first_loc) else {
       return Ok(inlines);
-    }
+    };
 
-    let span_loc = lines.first_loc().unwrap().clamp_start();
+    let span_loc = first_loc.clamp_start();
     let text = CollectText::new_in(span_loc, self.bump);
     let subs = self.ctx.subs;
     let mut acc = Accum::new(inlines, text);
@@ -171,10 +171,10 @@ impl<'arena> Parser<'arena> {
                 let note = self.parse_inlines_until(lines, &[Kind(CloseBracket)])?;
                 if self.ctx.attr_pass_subs.take().is_some() {
                   self.ctx.subs = restore;
-                  let close_bracket = lines
-                    .consume_current_token()
-                    .expect("attr ref pass macro end");
-                  assert!(close_bracket.kind == CloseBracket);
+                  // attr ref pass macro end
+                  if lines.current_token().kind(CloseBracket) {
+                    lines.consume_current_token();
+                  }
                 }
                 extend(&mut macro_loc, &note, 1);
                 let note = if note.is_empty() { None } else { Some(note) };
@@ -267,6 +267,10 @@ impl<'arena> Parser<'arena> {
                 finish_macro(&line, &mut macro_loc, line_end, &mut acc.text);
                 acc.push_node(Macro(Icon { target, attrs }), macro_loc);
               }
+              // these macros don't take a target
+              "btn:" | "indexterm:" | "indexterm2:" if !line.current_is(OpenBracket) => {
+                acc.push_text_token(&token);
+              }
               "btn:" => {
                 line.discard_assert(OpenBracket);
                 let btn = line.consume_to_string_until(CloseBracket, self.bump);
@@ -379,6 +383,12 @@ impl<'arena> Parser<'arena> {
             acc.push_text_token(&token);
           }
 
+          AttrPassDbl if !line.contains(OpenBracket) => {
+            let mut token = token;
+            token.lexeme = self.string("pass:");
+            acc.push_text_token(&token);
+          }
+
           AttrPassDbl => {
             let pass_subs = line.consume_to_string_until(OpenBracket, self.bump);
             line.discard_assert(OpenBracket);
@@ -487,7 +497,7 @@ impl<'arena> Parser<'arena> {
               acc.push_text_token(&scheme_token);
             } else {
               finish_macro(&line, &mut loc, line_end, &mut acc.text);
-              let scheme = Some(scheme_token.to_url_scheme().unwrap());
+              let scheme = scheme_token.to_url_scheme();
               acc.push_node(
                 Macro(Link {
                   scheme,
@@ -565,7 +575,9 @@ impl<'arena> Parser<'arena> {
           OpenBracket
             if line.starts_with_seq(&[Kind(OpenBracket); 2])
               && self.ctx.bibliography_ctx == BiblioContext::List
-              && line.contains_seq(&[Kind(CloseBracket); 3]) =>
+              && line.index_of_seq(&[Kind(CloseBracket); 3]).is_some_and(|end| {
+                line.index_of_seq(&[Kind(CloseBracket)]) == Some(end)
+              }) =>
           {
             let second_bracket = line.consume_current().unwrap();
             let third_bracket = line.consume_current().unwrap();
@@ -823,6 +835,8 @@ impl<'arena> Parser<'arena> {
           Backslash => {
             match line.current_token().map(|t| (t.kind, t.len())) {
               Some((Word, _)) | None => acc.push_text_token(&token),
+              // nothing left on the line to escape
+              _ if line.iter().all(|t| t.kind(Backslash)) => acc.push_text_token(&token),
               Some((OpenParens, len))
                 if len > 2 && index_term::terminates(&line, lines).is_some() =>
               {
@@ -849,13 +863,13 @@ impl<'arena> Parser<'arena> {
             && self.ctx.inline_ctx != InlineCtx::LinkMacroAttrs =>
           {
             let mut loc = token.loc;
-            let line_end = line.last_loc().unwrap();
+            let line_end = line.last_loc().unwrap_or(token.loc);
             let target = line.consume_url(Some(&token), None, self.bump);
             if target.src == token.lexeme {
               acc.push_text_token(&token);
             } else {
               finish_macro(&line, &mut loc, line_end, &mut acc.text);
-              let scheme = Some(token.to_url_scheme().unwrap());
+              let scheme = token.to_url_scheme();
               acc.push_node(
                 Macro(Link {
                   scheme,
@@ -931,7 +945,7 @@ impl<'arena> Parser<'arena> {
       caret = link_macro_blank_window_shorthand(&mut attrs);
     }
     finish_macro(line, &mut macro_loc, line_end, &mut acc.text);
-    let scheme = Some(token.to_url_scheme().unwrap());
+    let scheme = token.to_url_scheme();
     acc.push_node(
       Macro(Link {
         scheme,
-- 
2.43.0


From 56ef3dd49088f8445c8b85733f1f67b81c69b787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:43 +0000
Subject: [PATCH 019/182] fix: block metadata, quoted lines and eof handling do
 not panic or lose lines

---
 parser/src/parser.rs            | 39 +++++++++++++------
 parser/src/tasks/parse_block.rs | 69 ++++++++++++++++++++++++++-------
 2 files changed, 84 insertions(+), 24 deletions(-)

diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index a12b0c5..926686d 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -9,6 +9,8 @@ pub struct Parser<'arena> {
   pub(super) document: Document<'arena>,
   pub(super) peeked_lines: Option<ContiguousLines<'arena>>,
   pub(super) peeked_meta: Option<ChunkMeta<'arena>>,
+  /// paragraphs (in reverse) of the enclosing markdown blockquote, if we're in one
+  pub(super) quoted_lines: Option<BumpVec<'arena, ContiguousLines<'arena>>>,
   pub(super) ctx: ParseContext<'arena>,
   pub(super) errors: RefCell<Vec<Diagnostic>>,
   pub(super) strict: bool, // todo: naming...
@@ -32,6 +34,7 @@ impl<'arena> Parser<'arena> {
       document: Document::new(lexer.bump),
       peeked_lines: None,
       peeked_meta: None,
+      quoted_lines: None,
       ctx: ParseContext::new(lexer.bump),
       errors: RefCell::new(Vec::new()),
       strict: true,
@@ -101,13 +104,18 @@ impl<'arena> Parser<'arena> {
       .unwrap_or_else(|| self.lexer.loc())
   }
 
+  /// `true` if there are no more lines to read, nor any previously peeked
+  pub(crate) fn is_eof(&self) -> bool {
+    self.peeked_lines.is_none() && self.lexer.is_eof()
+  }
+
   pub(crate) fn read_line(&mut self) -> Result<Option<Line<'arena>>> {
     Ok(self._read_line(false)?.map(|(line, _)| line))
   }
 
   fn _read_line(&mut self, ignored_last: bool) -> Result<Option<(Line<'arena>, bool)>> {
     assert!(self.peeked_lines.is_none());
-    if self.lexer.is_eof() {
+    if self.lexer.is_eof() || self.quoted_lines.is_some() {
       return Ok(None);
     }
 
@@ -158,6 +166,9 @@ impl<'arena> Parser<'arena> {
     if let Some(peeked) = self.peeked_lines.take() {
       return Ok(Some(peeked));
     }
+    if let Some(quoted) = &mut self.quoted_lines {
+      return Ok(quoted.pop());
+    }
     self.lexer.consume_empty_lines();
     if self.lexer.is_eof() {
       return Ok(None);
@@ -204,7 +215,10 @@ impl<'arena> Parser<'arena> {
 
     let mut additional_lines = BumpVec::new_in(self.bump);
     while !self.lexer.is_eof() && !self.at_delimiter(delimiter) {
-      additional_lines.push(self.read_line()?.unwrap());
+      let Some(line) = self.read_line()? else {
+        break;
+      };
+      additional_lines.push(line);
     }
     lines.extend(additional_lines);
 
@@ -263,8 +277,7 @@ impl<'arena> Parser<'arena> {
     // https://docs.asciidoctor.org/asciidoc/latest/document/doctype/#inline-doctype-rules
     if self.document.meta.get_doctype() == DocType::Inline {
       if self.peeked_lines.is_none() {
-        // tmp:
-        self.peeked_lines = self.read_lines().expect("tmp");
+        self.peeked_lines = self.read_lines()?;
       }
       self.lexer.truncate();
     }
@@ -301,16 +314,19 @@ impl<'arena> Parser<'arena> {
     &mut self,
     lines: &mut ContiguousLines<'arena>,
   ) -> Result<ChunkMeta<'arena>> {
-    if let Some(meta) = self.peeked_meta.take() {
-      return Ok(meta);
-    }
     assert!(!lines.is_empty());
-    let start_loc = lines.current_token().unwrap().loc;
-    let mut attrs = MultiAttrList::new_in(self.bump);
-    let mut title = None;
+    let (mut attrs, mut title, start_loc) = match self.peeked_meta.take() {
+      Some(meta) => (meta.attrs, meta.dot_line_title, meta.start_loc),
+      None => (
+        MultiAttrList::new_in(self.bump),
+        None,
+        lines.current_token().map_or(self.loc(), |token| token.loc),
+      ),
+    };
     if !lines.current().unwrap().is_fully_unconsumed() {
       return Ok(ChunkMeta::new(attrs, title, start_loc));
     }
+    let mut saw_meta = !attrs.is_empty() || title.is_some();
     loop {
       match lines.current() {
         Some(line) if line.is_chunk_title() => {
@@ -337,11 +353,12 @@ impl<'arena> Parser<'arena> {
           attrs.push(anchor_attrs);
         }
         // consume trailing comment lines for valid meta
-        Some(line) if line.is_comment() && (!attrs.is_empty() || title.is_some()) => {
+        Some(line) if line.is_comment() && saw_meta => {
           lines.consume_current();
         }
         _ => break,
       }
+      saw_meta = true;
     }
     Ok(ChunkMeta::new(attrs, title, start_loc))
   }
diff --git a/parser/src/tasks/parse_block.rs b/parser/src/tasks/parse_block.rs
index 9b6bab7..d0d1e97 100644
--- a/parser/src/tasks/parse_block.rs
+++ b/parser/src/tasks/parse_block.rs
@@ -9,14 +9,20 @@ impl<'arena> Parser<'arena> {
     };
 
     if let Some(comment_block) = self.parse_inline_comment_block(&mut lines) {
-      if let Some(meta) = self.peeked_meta.take() {
-        assert!(meta.is_empty());
+      if let Some(meta) = self.peeked_meta.take()
+        && !meta.is_empty()
+      {
+        self.err_line_starting("Unattached block metadata", meta.start_loc)?;
       }
       self.restore_lines(lines);
       return Ok(Some(comment_block));
     }
 
     let meta = self.parse_chunk_meta(&mut lines)?;
+    // when including selected lines, the block may not directly follow its metadata
+    while lines.current().is_some_and(|line| line.is_emptyish()) {
+      lines.consume_current();
+    }
     if lines.is_empty() {
       self.err_line_starting("Unattached block metadata", meta.start_loc)?;
       return self.parse_block();
@@ -114,10 +120,13 @@ impl<'arena> Parser<'arena> {
         lines.consume_current(); // attr def
         if !lines.is_empty() {
           // re-parse adjoining chunk, to resolve attr def
-          self.lexer.set_pos(def.loc.end);
+          self.lexer.rewind(def.loc);
         }
+        let decl_meta = ChunkMeta::empty(meta.start_loc, self.bump);
+        // the metadata is for the block following the attr decl
+        self.restore_peeked_meta(meta);
         return Ok(Some(Block {
-          meta,
+          meta: decl_meta,
           loc: def.loc.into(),
           context: Context::DocumentAttributeDecl,
           content: Content::DocumentAttribute(String::from(def.name.as_str()), def.value),
@@ -199,7 +208,10 @@ impl<'arena> Parser<'arena> {
     let mut line = lines.consume_current().unwrap();
     let line_end_loc = line.last_loc().unwrap();
     let level = self.line_heading_level(&line).unwrap();
-    line.discard_assert(TokenKind::EqualSigns);
+    line.discard(1); // `EqualSigns` or (markdown-style) `Hash`
+    while line.current_is(TokenKind::Hash) {
+      line.discard(1);
+    }
     line.discard_assert(TokenKind::Whitespace);
     let id = self.section_id(&line, &meta.attrs);
     let content = self.parse_inlines(&mut line.into_lines())?;
@@ -265,17 +277,41 @@ impl<'arena> Parser<'arena> {
       paras.push(current);
     }
 
+    let prev_in_blockquote = self.ctx.in_markdown_blockquote;
     self.ctx.in_markdown_blockquote = true;
+    let prev_list = std::mem::take(&mut self.ctx.list);
+    let prev_delimiter = self.ctx.delimiter.take();
     assert!(self.peeked_lines.is_none());
+    paras.reverse();
+    let prev_quoted_lines = self.quoted_lines.replace(paras);
     let mut blocks = BumpVec::new_in(self.bump);
-    for para in paras.into_iter() {
-      self.restore_lines(para);
-      if let Some(block) = self.parse_block()? {
+    loop {
+      let mut block = self.parse_block()?;
+      if block.is_none() {
+        if let Some(lines) = self.peeked_lines.take() {
+          // something that can't begin a block in here (like a section title)
+          let meta = self
+            .peeked_meta
+            .take()
+            .unwrap_or_else(|| ChunkMeta::empty(lines.first_loc().unwrap(), self.bump));
+          block = self.parse_paragraph(lines, meta)?;
+          if block.is_none() {
+            // couldn't be a paragraph either
+            self.peeked_lines = None;
+          }
+        } else if self.quoted_lines.as_ref().is_none_or(|p| p.is_empty()) {
+          break;
+        }
+      }
+      if let Some(block) = block {
         loc.extend_end(&block.loc);
         blocks.push(block);
       }
     }
-    self.ctx.in_markdown_blockquote = false;
+    self.quoted_lines = prev_quoted_lines;
+    self.ctx.in_markdown_blockquote = prev_in_blockquote;
+    self.ctx.list = prev_list;
+    self.ctx.delimiter = prev_delimiter;
 
     if blocks.len() == 1 && blocks[0].context == Context::QuotedParagraph {
       return Ok(Some(blocks.pop().unwrap()));
@@ -303,6 +339,8 @@ impl<'arena> Parser<'arena> {
       while delim_line.current_is(Whitespace) {
         delim_line.discard(1);
       }
+    }
+    if !delim_line.is_empty() && delimiter.len == 3 && delimiter.kind == DelimiterKind::Listing {
       let lang =
         delim_line.consume_to_string_until_one_of(&[Kind(Comma), Kind(Whitespace)], self.bump);
       let mut attr_list = AttrList::new(lang.loc, self.bump);
@@ -437,10 +475,15 @@ impl<'arena> Parser<'arena> {
     let inlines = self.parse_inlines(&mut lines)?;
     self.ctx.subs = restore_subs;
 
-    // can be empty when parsing empty desc list principal
-    let Some(loc) = inlines.loc() else {
-      self.restore_lines(lines);
-      return Ok(None);
+    let loc = match inlines.loc() {
+      Some(loc) => loc,
+      // all lines consumed, but nothing to show for it, e.g. `{empty}`
+      None if lines.is_empty() && !self.ctx.parsing_description_list() => meta.start_loc.into(),
+      // can be empty when parsing empty desc list principal
+      None => {
+        self.restore_lines(lines);
+        return Ok(None);
+      }
     };
 
     self.restore_lines(lines);
-- 
2.43.0


From dbc27f4fef97d78aa138cdeff72260e519944c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:43 +0000
Subject: [PATCH 020/182] fix: comment lines between metadata and list do not
 panic

---
 parser/src/tasks/parse_list.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/src/tasks/parse_list.rs b/parser/src/tasks/parse_list.rs
index c0cd681..d639165 100644
--- a/parser/src/tasks/parse_list.rs
+++ b/parser/src/tasks/parse_list.rs
@@ -7,6 +7,9 @@ impl<'arena> Parser<'arena> {
     mut lines: ContiguousLines<'arena>,
     meta: Option<ChunkMeta<'arena>>,
   ) -> Result<Block<'arena>> {
+    while lines.current().is_some_and(|line| line.is_comment()) {
+      lines.consume_current();
+    }
     let first_line = lines.consume_current().unwrap();
     let start_loc = first_line.first_loc().unwrap();
     let mut last_loc = first_line.last_loc().unwrap();
-- 
2.43.0


From 55a04eb29ff184dbe306eb32bad53a52ac323fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:43 +0000
Subject: [PATCH 021/182] fix: book parts: retain leading blocks and accept
 markdown headings

---
 parser/src/tasks/parse_book.rs      | 9 ++++++---
 parser/src/tasks/parse_book_part.rs | 3 +++
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/parser/src/tasks/parse_book.rs b/parser/src/tasks/parse_book.rs
index 4950d05..1fd269d 100644
--- a/parser/src/tasks/parse_book.rs
+++ b/parser/src/tasks/parse_book.rs
@@ -10,7 +10,7 @@ impl<'arena> Parser<'arena> {
     while let Some(special) = self.parse_special_sect()? {
       opening_special_sects.push(special);
     }
-    if self.lexer.is_eof() && !opening_special_sects.is_empty() {
+    if self.is_eof() && !opening_special_sects.is_empty() {
       return Ok(Some(DocContent::Sections(Sectioned {
         preamble: None,
         sections: opening_special_sects,
@@ -48,7 +48,7 @@ impl<'arena> Parser<'arena> {
     while let Some(block) = self.parse_block()? {
       blocks.push(block);
     }
-    if self.lexer.is_eof() {
+    if self.is_eof() {
       return Ok(Some(DocContent::Blocks(blocks)));
     }
 
@@ -65,7 +65,10 @@ impl<'arena> Parser<'arena> {
           sections: sectioned.sections,
         })))
       }
-      Some(DocContent::Blocks(_)) => unreachable!(),
+      Some(DocContent::Blocks(rest)) => {
+        blocks.extend(rest);
+        Ok(Some(DocContent::Blocks(blocks)))
+      }
       Some(DocContent::Parts(book)) => {
         if let Some(preamble) = book.preamble {
           blocks.extend(preamble);
diff --git a/parser/src/tasks/parse_book_part.rs b/parser/src/tasks/parse_book_part.rs
index ca505f1..f8d1b7e 100644
--- a/parser/src/tasks/parse_book_part.rs
+++ b/parser/src/tasks/parse_book_part.rs
@@ -21,6 +21,9 @@ impl<'arena> Parser<'arena> {
     } = peeked;
     let mut heading_line = lines.consume_current().unwrap();
     let equals = heading_line.consume_current().unwrap();
+    while heading_line.current_is(TokenKind::Hash) {
+      heading_line.discard(1);
+    }
     heading_line.discard_assert(TokenKind::Whitespace);
     let id = self.section_id(&heading_line, &meta.attrs);
     let heading = self.parse_inlines(&mut heading_line.into_lines())?;
-- 
2.43.0


From 87559f3ba06e6fd3ae40d2a826c12d79c0dfcb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:43 +0000
Subject: [PATCH 022/182] fix: section numbering and toc do not panic on
 skipped levels

---
 parser/src/tasks/parse_section.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/parser/src/tasks/parse_section.rs b/parser/src/tasks/parse_section.rs
index 41e00f4..b502abe 100644
--- a/parser/src/tasks/parse_section.rs
+++ b/parser/src/tasks/parse_section.rs
@@ -34,8 +34,7 @@ impl<'arena> Parser<'arena> {
       if !meta.is_empty() {
         self.err_line_starting("Unattached block metadata", meta.start_loc)?;
       }
-      self.restore_peeked_meta(meta);
-      return Ok(None);
+      return self.peek_section();
     };
 
     let Some(level) = self.line_heading_level(line) else {
@@ -206,8 +205,8 @@ impl<'arena> Parser<'arena> {
       depth = 1;
     }
 
-    while depth > last_level {
-      // we don't push out of sequence sections, shouldn't panic
+    // NB: out of sequence sections are pushed as deep as possible
+    while depth > last_level && !nodes.is_empty() {
       nodes = nodes.last_mut().unwrap().children.as_mut();
       depth -= 1;
     }
-- 
2.43.0


From 8178d63bceb6f730d81260e2867657675ff5065a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:43 +0000
Subject: [PATCH 023/182] fix: eval footnote state and recursive xref text

---
 eval/src/eval.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/eval/src/eval.rs b/eval/src/eval.rs
index 9ea339b..c690741 100644
--- a/eval/src/eval.rs
+++ b/eval/src/eval.rs
@@ -226,7 +226,8 @@ fn eval_block(block: &Block, ctx: &Ctx, backend: &mut impl Backend) {
       eval_quote_attr(Some(attr), cite.as_ref(), block, ctx, backend);
       backend.exit_quoted_paragraph(block);
     }
-    (Context::Open, Content::Compound(blocks)) => {
+    // NB: `[normal]` on a structural container carries no semantics of its own
+    (Context::Open | Context::Paragraph, Content::Compound(blocks)) => {
       backend.enter_open_block(block);
       backend.enter_compound_block_content(blocks, block);
       blocks.iter().for_each(|b| eval_block(b, ctx, backend));
@@ -530,7 +531,8 @@ fn eval_inline(inline: &InlineNode, ctx: &Ctx, backend: &mut impl Backend) {
       let anchor = anchors.get(utils::xref::get_id(&target.src));
       let is_biblio = anchor.map(|a| a.is_biblio).unwrap_or(false);
       backend.enter_xref(target, linktext.is_some(), *kind);
-      if ctx.resolving_xref.replace(true) {
+      let was_resolving_xref = ctx.resolving_xref.replace(true);
+      if was_resolving_xref {
         backend.visit_missing_xref(target, *kind, ctx.doc.title());
       } else if let Some(text) = anchor
         .map(|anchor| {
@@ -551,7 +553,7 @@ fn eval_inline(inline: &InlineNode, ctx: &Ctx, backend: &mut impl Backend) {
       } else {
         backend.visit_missing_xref(target, *kind, ctx.doc.title());
       }
-      ctx.resolving_xref.replace(false);
+      ctx.resolving_xref.replace(was_resolving_xref);
       backend.exit_xref(target, linktext.is_some(), *kind);
     }
     Macro(Icon { target, attrs }) => backend.visit_icon_macro(target, attrs),
-- 
2.43.0


From b959bd91195f338f080fac844857a639146fe384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:43 +0000
Subject: [PATCH 024/182] fix: html backends: menu macro, nested footnotes,
 callout lists, self links

---
 backend-html5s/src/html5s.rs            | 39 ++++++++++++++++++-------
 backend/src/html/backend.rs             |  8 ++++-
 backend/src/html/htmlbuf.rs             |  3 +-
 dr-html-backend/src/asciidoctor_html.rs | 15 +++++-----
 4 files changed, 46 insertions(+), 19 deletions(-)

diff --git a/backend-html5s/src/html5s.rs b/backend-html5s/src/html5s.rs
index 971e04b..09ebea7 100644
--- a/backend-html5s/src/html5s.rs
+++ b/backend-html5s/src/html5s.rs
@@ -9,6 +9,8 @@ pub struct Html5s {
   doc_meta: DocumentMeta,
   html: String,
   alt_html: String,
+  /// the document so far, while we're rendering a toc that goes after the preamble
+  preamble_outer_html: Option<String>,
   fig_caption_num: usize,
   table_caption_num: usize,
   example_caption_num: usize,
@@ -16,6 +18,7 @@ pub struct Html5s {
   newlines: Newlines,
   default_newlines: Newlines,
   section_level_stack: Vec<u8>,
+  callout_list_ends: Vec<&'static str>,
   state: BackendState,
 }
 
@@ -142,7 +145,7 @@ impl Backend for Html5s {
 
   fn enter_toc(&mut self, toc: &TableOfContents, macro_block: Option<&Block>) {
     if toc.position == TocPosition::Preamble {
-      self.start_buffering();
+      self.preamble_outer_html = Some(std::mem::take(&mut self.html));
     }
     self.state.ephemeral.insert(InTableOfContents);
     let id = &macro_block
@@ -244,7 +247,10 @@ impl Backend for Html5s {
   }
 
   fn exit_preamble(&mut self, doc_has_title: bool, _blocks: &[Block]) {
-    let buffered = if !self.alt_html.is_empty() { Some(self.swap_take_buffer()) } else { None };
+    let buffered = self
+      .preamble_outer_html
+      .take()
+      .map(|outer| std::mem::replace(&mut self.html, outer));
     if doc_has_title {
       self.push_str("</section>");
     }
@@ -515,12 +521,24 @@ impl Backend for Html5s {
   }
 
   fn enter_callout_list(&mut self, block: &Block, _items: &[ListItem], _depth: u8) {
-    self.html.truncate(self.html.len().saturating_sub(6));
+    // nested inside the (just closed) verbatim block it belongs to
+    let end = ["</div>", "</figure>", "</section>"]
+      .into_iter()
+      .find(|end| {
+        self
+          .html
+          .strip_suffix(end)
+          .is_some_and(|html| html.ends_with("</pre>"))
+      })
+      .unwrap_or("");
+    self.html.truncate(self.html.len() - end.len());
+    self.callout_list_ends.push(end);
     self.open_element("ol", &["callout-list arabic"], &block.meta.attrs);
   }
 
   fn exit_callout_list(&mut self, _block: &Block, _items: &[ListItem], _depth: u8) {
-    self.push_str("</ol></div>");
+    let end = self.callout_list_ends.pop().unwrap_or("");
+    self.push(["</ol>", end]);
   }
 
   fn enter_description_list(&mut self, block: &Block, _items: &[ListItem], depth: u8) {
@@ -1099,10 +1117,9 @@ impl Backend for Html5s {
       a_tag.push_class("image");
       a_tag.push_str("\" href=\"");
       if link_href == "self" {
-        assert!(self.alt_html.is_empty());
-        self.swap_buffers();
+        let html = std::mem::take(&mut self.html);
         self.push_img_path(target);
-        a_tag.push_str(&self.swap_take_buffer());
+        a_tag.push_str(&std::mem::replace(&mut self.html, html));
       } else {
         a_tag.push_str_attr_escaped(link_href);
       }
@@ -1423,17 +1440,19 @@ impl Backend for Html5s {
         r#"]</a>"#,
       ]);
     }
-    self.start_buffering();
+    // not the alt buffer: titles are already buffered there, and footnotes can nest
+    let outer = mem::take(&mut self.html);
+    self.state.footnote_outer_html.push(outer);
   }
 
   fn exit_footnote(&mut self, id: Option<&SourceString>) {
+    let outer = self.state.footnote_outer_html.pop().unwrap_or_default();
+    let footnote = mem::replace(&mut self.html, outer);
     if self.prev_footnote_ref_num(id).is_some() {
       // discard duplicate content, common when "externalizing" footnotes by attr ref
-      self.swap_discard_alt_buffer();
       return;
     }
     let num = self.state.footnotes.borrow().len() + 1;
-    let footnote = self.swap_take_buffer();
     let nums = num.to_string();
     self.push_str(r#"<a class="footnote-ref" id="_footnoteref_"#);
     self.push([&nums, r##"" href="#_footnote_"##, &nums]);
diff --git a/backend/src/html/backend.rs b/backend/src/html/backend.rs
index 949e1a7..e9b3c7d 100644
--- a/backend/src/html/backend.rs
+++ b/backend/src/html/backend.rs
@@ -24,6 +24,8 @@ pub struct BackendState {
   pub xref_depth: u8,
   #[allow(clippy::type_complexity)]
   pub footnotes: Rc<RefCell<Vec<(Option<String>, String)>>>,
+  /// html preceding each footnote currently being rendered
+  pub footnote_outer_html: Vec<String>,
 }
 
 pub trait HtmlBackend: HtmlBuf {
@@ -506,6 +508,10 @@ pub trait HtmlBackend: HtmlBuf {
   }
 
   fn should_number_section(&self, level: u8, special_sect: Option<SpecialSection>) -> bool {
+    // level 0 (never numbered here) can occur outside of books in non-strict mode
+    if level == 0 || level as usize > self.state().section_nums.len() {
+      return false;
+    }
     let Some(sectnums) = self.doc_meta().get("sectnums") else {
       return false;
     };
@@ -566,7 +572,7 @@ pub trait HtmlBackend: HtmlBuf {
   }
 
   fn start_enter_ordered_list(&mut self, block: &Block, depth: u8) -> (&'static str, &'static str) {
-    let non_dd_depth = depth - self.state().desc_list_depth;
+    let non_dd_depth = depth.saturating_sub(self.state().desc_list_depth).max(1);
     self.state_mut().interactive_list_stack.push(false);
     let custom = block.meta.attrs.ordered_list_custom_number_style();
     let list_type = custom
diff --git a/backend/src/html/htmlbuf.rs b/backend/src/html/htmlbuf.rs
index f017e85..aaabde0 100644
--- a/backend/src/html/htmlbuf.rs
+++ b/backend/src/html/htmlbuf.rs
@@ -133,7 +133,8 @@ pub trait AltHtmlBuf: HtmlBuf {
   }
 
   fn start_buffering(&mut self) {
-    debug_assert!(self.alt_htmlbuf().is_empty());
+    // not every block renders its title, there might be one left in here
+    self.discard_alt_buffer();
     self.swap_buffers();
   }
 
diff --git a/dr-html-backend/src/asciidoctor_html.rs b/dr-html-backend/src/asciidoctor_html.rs
index ce28e99..95f7d4d 100644
--- a/dr-html-backend/src/asciidoctor_html.rs
+++ b/dr-html-backend/src/asciidoctor_html.rs
@@ -1184,10 +1184,9 @@ impl Backend for AsciidoctorHtml {
       a_tag.push_class("image");
       a_tag.push_str("\" href=\"");
       if link_href == "self" {
-        assert!(self.alt_html.is_empty());
-        self.swap_buffers();
+        let html = std::mem::take(&mut self.html);
         self.push_img_path(target);
-        a_tag.push_str(&self.swap_take_buffer());
+        a_tag.push_str(&std::mem::replace(&mut self.html, html));
       } else {
         a_tag.push_str_attr_escaped(link_href);
       }
@@ -1310,7 +1309,7 @@ impl Backend for AsciidoctorHtml {
     self.push_str(items.next().unwrap());
     self.push_str("</b>");
 
-    let last_idx = items.len() - 1;
+    let last_idx = items.len().saturating_sub(1);
     for (idx, item) in items.enumerate() {
       self.push_str(r#"&#160;<b class="caret">&#8250;</b><b class=""#);
       if idx == last_idx {
@@ -1469,18 +1468,20 @@ impl Backend for AsciidoctorHtml {
         "</a>]</sup>",
       ]);
     }
-    self.start_buffering();
+    // not the alt buffer: titles are already buffered there, and footnotes can nest
+    let outer = mem::take(&mut self.html);
+    self.state.footnote_outer_html.push(outer);
   }
 
   #[instrument(skip_all)]
   fn exit_footnote(&mut self, id: Option<&SourceString>) {
+    let outer = self.state.footnote_outer_html.pop().unwrap_or_default();
+    let footnote = mem::replace(&mut self.html, outer);
     if self.prev_footnote_ref_num(id).is_some() {
       // discard duplicate content, common when "externalizing" footnotes by attr ref
-      self.swap_discard_alt_buffer();
       return;
     }
     let num = self.state.footnotes.borrow().len() + 1;
-    let footnote = self.swap_take_buffer();
     let nums = num.to_string();
     self.push_str(r#"<sup class="footnote""#);
     if let Some(id) = id {
-- 
2.43.0


From 36172eec56452c211968e1e111cce63352fd4a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:13 +0000
Subject: [PATCH 025/182] fix: concealed index term without its exact
 terminator does not panic

---
 parser/src/tasks/parse_inlines/index_term.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/parser/src/tasks/parse_inlines/index_term.rs b/parser/src/tasks/parse_inlines/index_term.rs
index a90821c..6977acf 100644
--- a/parser/src/tasks/parse_inlines/index_term.rs
+++ b/parser/src/tasks/parse_inlines/index_term.rs
@@ -130,11 +130,16 @@ impl<'arena> Parser<'arena> {
       terms.truncate(3);
     }
 
-    let close_parens = lines.consume_current_token().unwrap();
-    debug_assert!(close_parens.kind == CloseParens);
-    let loc = open_parens_token.loc.setting_end(close_parens.loc.end);
+    let close_parens = lines.consume_current_token();
+    let loc = close_parens
+      .as_ref()
+      .map_or(open_parens_token.loc, |close_parens| {
+        open_parens_token.loc.setting_end(close_parens.loc.end)
+      });
 
-    if close_parens.len() > 3 {
+    if let Some(close_parens) = close_parens
+      && close_parens.len() > 3
+    {
       let mut put_back = close_parens.clone();
       put_back.lexeme.truncate(close_parens.len() - 3);
       put_back.loc.end -= 3;
-- 
2.43.0


From 7ddecceb7719f068f19446990f7c7ec410a3eeca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:58 +0000
Subject: [PATCH 026/182] fix: indented nested list items with repeated star
 markers

---
 parser/src/line.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/line.rs b/parser/src/line.rs
index 2fd9c5d..9febabf 100644
--- a/parser/src/line.rs
+++ b/parser/src/line.rs
@@ -795,7 +795,7 @@ impl<'arena> Line<'arena> {
       }
       Star if second.kind(Star) => {
         let src = self.reassemble_src();
-        let captures = regx::REPEAT_STAR_LI_START.captures(&src)?;
+        let captures = regx::REPEAT_STAR_LI_START.captures(src.trim_start())?;
         Some(ListMarker::Star(captures.get(1).unwrap().len() as u8))
       }
       CalloutNumber if second.kind(Whitespace) && token.lexeme.as_bytes()[1] != b'!' => {
-- 
2.43.0


From c9bd8b2bbcd8ea581e3db853ad155c206abfbf1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:50 +0000
Subject: [PATCH 027/182] fix: constrained formatting may follow any non-word
 punctuation

---
 parser/src/lexer/root_lexer.rs                |  4 ++--
 parser/src/lexer/source_lexer.rs              | 20 +++++++++++-------
 .../src/tasks/parse_inlines/inline_utils.rs   | 21 ++-----------------
 3 files changed, 16 insertions(+), 29 deletions(-)

diff --git a/parser/src/lexer/root_lexer.rs b/parser/src/lexer/root_lexer.rs
index 5ee4cbd..0a27f66 100644
--- a/parser/src/lexer/root_lexer.rs
+++ b/parser/src/lexer/root_lexer.rs
@@ -158,8 +158,8 @@ impl<'arena> RootLexer<'arena> {
     self.sources[include_depth as usize].byte_at(pos)
   }
 
-  pub fn byte_before(&self, loc: SourceLocation) -> Option<u8> {
-    self.sources[loc.include_depth as usize].byte_before(loc.start)
+  pub fn char_before(&self, loc: SourceLocation) -> Option<char> {
+    self.sources[loc.include_depth as usize].char_before(loc.start)
   }
 
   /// resume lexing right after `loc`, which might be in a different source
diff --git a/parser/src/lexer/source_lexer.rs b/parser/src/lexer/source_lexer.rs
index 5842b49..404bb90 100644
--- a/parser/src/lexer/source_lexer.rs
+++ b/parser/src/lexer/source_lexer.rs
@@ -218,18 +218,22 @@ impl<'arena> SourceLexer<'arena> {
     self.src.get((pos - self.offset) as usize).copied()
   }
 
-  pub fn byte_before(&self, pos: u32) -> Option<u8> {
-    if pos.saturating_sub(self.offset) == 0 {
-      None
-    } else {
-      self.src.get((pos - 1 - self.offset) as usize).copied()
-    }
-  }
-
   pub fn raw_lines(&'arena self) -> impl Iterator<Item = &'arena str> {
     LinesIter { src: &self.src, start: 0, end: 0 }
   }
 
+  pub fn char_before(&self, pos: u32) -> Option<char> {
+    let end = pos.saturating_sub(self.offset) as usize;
+    let mut start = end.checked_sub(1)?;
+    while start > 0 && self.src.get(start).is_some_and(|b| b & 0b1100_0000 == 0b1000_0000) {
+      start -= 1;
+    }
+    std::str::from_utf8(self.src.get(start..end)?)
+      .ok()?
+      .chars()
+      .next_back()
+  }
+
   pub fn line_of(&self, location: u32) -> BumpString<'arena> {
     let location = (location - self.offset).min(self.src.len() as u32);
     let mut start = location;
diff --git a/parser/src/tasks/parse_inlines/inline_utils.rs b/parser/src/tasks/parse_inlines/inline_utils.rs
index 7b307d0..07328d9 100644
--- a/parser/src/tasks/parse_inlines/inline_utils.rs
+++ b/parser/src/tasks/parse_inlines/inline_utils.rs
@@ -39,25 +39,8 @@ impl<'arena> Parser<'arena> {
     if token.attr_replacement && self.ctx.attr_pass_subs.is_none() {
       return false;
     }
-    self.lexer.byte_before(token.loc).is_none_or(|c| {
-      c.is_ascii_whitespace()
-        || matches!(
-          c,
-          b']'
-            | b'`'
-            | b'*'
-            | b'_'
-            | b'['
-            | b'#'
-            | b'+'
-            | b'|'
-            | b'\''
-            | b'='
-            | b'"'
-            | b','
-            | b'('
-            | b'-'
-        )
+    self.lexer.char_before(token.loc).is_none_or(|c| {
+      !c.is_alphanumeric() && !matches!(c, '&' | ';' | ':' | '}' | '\\')
     }) && !line.starts(Whitespace)
       && token.kind(stop_tokens.last().unwrap().token_kind().unwrap())
       && (line.terminates_constrained(stop_tokens, &self.ctx.inline_ctx)
-- 
2.43.0


From d6c0cba49051f1a821f332406942c421f8dbe147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:29 +0000
Subject: [PATCH 028/182] fix: lists inside delimited blocks are independent of
 enclosing lists, attached paragraphs end at the next item

---
 parser/src/list_context.rs            |  7 +++++++
 parser/src/parse_context.rs           |  2 +-
 parser/src/tasks/parse_block.rs       |  3 +++
 parser/src/tasks/parse_inlines/mod.rs | 10 +++++++---
 parser/src/tasks/parse_list.rs        |  4 ++--
 5 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/parser/src/list_context.rs b/parser/src/list_context.rs
index 95df2dd..7ca1b0a 100644
--- a/parser/src/list_context.rs
+++ b/parser/src/list_context.rs
@@ -35,6 +35,13 @@ impl ListStack {
     })
   }
 
+  /// whether the line is another item of the current list, or one enclosing it
+  pub fn continues_any_list(&self, line: &Line) -> bool {
+    line
+      .list_marker()
+      .is_some_and(|marker| !self.is_empty() && !self.starts_nested_list(marker))
+  }
+
   pub fn depth(&self) -> u8 {
     self.len() as u8
   }
diff --git a/parser/src/parse_context.rs b/parser/src/parse_context.rs
index 00a511d..a0eb786 100644
--- a/parser/src/parse_context.rs
+++ b/parser/src/parse_context.rs
@@ -213,7 +213,7 @@ impl<'arena> ParseContext<'arena> {
   }
 
   pub fn parsing_description_list(&self) -> bool {
-    self.delimiter.is_none()
+    self.can_nest_blocks
       && self
         .list
         .stack
diff --git a/parser/src/tasks/parse_block.rs b/parser/src/tasks/parse_block.rs
index d0d1e97..5e651d5 100644
--- a/parser/src/tasks/parse_block.rs
+++ b/parser/src/tasks/parse_block.rs
@@ -427,10 +427,13 @@ impl<'arena> Parser<'arena> {
         simple
       }
     } else {
+      // lists inside the block are unrelated to the lists containing it
+      let prev_list = std::mem::take(&mut self.ctx.list);
       let mut blocks = BumpVec::new_in(self.bump);
       while let Some(inner) = self.parse_block()? {
         blocks.push(inner);
       }
+      self.ctx.list = prev_list;
       Content::Compound(blocks)
     };
 
diff --git a/parser/src/tasks/parse_inlines/mod.rs b/parser/src/tasks/parse_inlines/mod.rs
index b7b4b70..27624f0 100644
--- a/parser/src/tasks/parse_inlines/mod.rs
+++ b/parser/src/tasks/parse_inlines/mod.rs
@@ -1015,7 +1015,7 @@ impl<'arena> Parser<'arena> {
     (line.current_is(DelimiterLine) && self.ctx.can_nest_blocks)
 
     // new block from attr list-ish
-    || ((line.is_block_attr_list() || line.is_block_anchor()) && self.ctx.delimiter.is_none())
+    || ((line.is_block_attr_list() || line.is_block_anchor()) && self.ctx.can_nest_blocks)
 
     // description list
     || (
@@ -1023,8 +1023,12 @@ impl<'arena> Parser<'arena> {
       && (line.starts_description_list_item() || line.is_list_continuation())
     )
 
-    // list continuation
-    || (self.ctx.list.parsing_continuations && line.is_list_continuation())
+    // list continuation, or the next item of an enclosing list
+    || (
+      self.ctx.list.parsing_continuations
+      && self.ctx.can_nest_blocks
+      && (line.is_list_continuation() || self.ctx.list.stack.continues_any_list(line))
+    )
 
     // special case: ending verbatim delimited block, non-matching delimiters
     // within the verbatim block are rendered as is
diff --git a/parser/src/tasks/parse_list.rs b/parser/src/tasks/parse_list.rs
index d639165..7a322e9 100644
--- a/parser/src/tasks/parse_list.rs
+++ b/parser/src/tasks/parse_list.rs
@@ -197,11 +197,11 @@ impl<'arena> Parser<'arena> {
 
     lines.consume_current(); // the `+` line starting the continuation
     self.restore_lines(lines);
-    self.ctx.list.parsing_continuations = true;
+    let prev = std::mem::replace(&mut self.ctx.list.parsing_continuations, true);
     if let Some(block) = self.parse_block()? {
       accum.push(block);
     }
-    self.ctx.list.parsing_continuations = false;
+    self.ctx.list.parsing_continuations = prev;
     self.parse_list_continuation_blocks(accum)
   }
 
-- 
2.43.0


From 2637bfb47c6e5a562f26a0c57b5bc7ce7f1052e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:51 +0000
Subject: [PATCH 029/182] fix: dr-html: description lists keep their own style
 when nested, bare and repeated terms stay well-formed

---
 dr-html-backend/src/asciidoctor_html.rs | 89 ++++++++++++++-----------
 1 file changed, 50 insertions(+), 39 deletions(-)

diff --git a/dr-html-backend/src/asciidoctor_html.rs b/dr-html-backend/src/asciidoctor_html.rs
index 95f7d4d..daaaeae 100644
--- a/dr-html-backend/src/asciidoctor_html.rs
+++ b/dr-html-backend/src/asciidoctor_html.rs
@@ -22,6 +22,7 @@ pub struct AsciidoctorHtml {
   table_caption_num: usize,
   example_caption_num: usize,
   listing_caption_num: usize,
+  desc_list_styles: Vec<Option<EphemeralState>>,
   state: BackendState,
 }
 
@@ -568,7 +569,7 @@ impl Backend for AsciidoctorHtml {
   fn enter_description_list(&mut self, block: &Block, _items: &[ListItem], _depth: u8) {
     self.state.desc_list_depth += 1;
     if block.meta.attrs.has_str_positional("horizontal") {
-      self.state.ephemeral.insert(InHorizontalDescList);
+      self.desc_list_styles.push(Some(InHorizontalDescList));
       self.open_element("div", &["hdlist"], &block.meta.attrs);
       self.render_buffered_block_title(block);
       self.push_str("<table>");
@@ -595,16 +596,17 @@ impl Backend for AsciidoctorHtml {
         self.push_str("</colgroup>");
       }
     } else if block.meta.attrs.has_str_positional("qanda") {
-      self.state.ephemeral.insert(InQandaDescList);
+      self.desc_list_styles.push(Some(InQandaDescList));
       self.open_element("div", &["qlist", "qanda"], &block.meta.attrs);
       self.render_buffered_block_title(block);
       self.push_str("<ol>");
     } else if block.meta.attrs.special_sect() == Some(SpecialSection::Glossary) {
-      self.state.ephemeral.insert(InGlossaryList);
+      self.desc_list_styles.push(Some(InGlossaryList));
       self.open_element("div", &["dlist", "glossary"], &block.meta.attrs);
       self.render_buffered_block_title(block);
       self.push_str("<dl>");
     } else {
+      self.desc_list_styles.push(None);
       self.open_element("div", &["dlist"], &block.meta.attrs);
       self.render_buffered_block_title(block);
       self.push_str("<dl>");
@@ -613,67 +615,64 @@ impl Backend for AsciidoctorHtml {
 
   #[instrument(skip_all)]
   fn exit_description_list(&mut self, _block: &Block, _items: &[ListItem], _depth: u8) {
-    self.state.ephemeral.remove(&InGlossaryList);
-    if self.state.ephemeral.remove(&InHorizontalDescList) {
-      self.push_str("</table></div>");
-    } else if self.state.ephemeral.remove(&InQandaDescList) {
-      self.push_str("</ol></div>");
-    } else {
-      self.push_str("</dl></div>");
+    match self.desc_list_styles.pop().flatten() {
+      Some(InHorizontalDescList) => self.push_str("</table></div>"),
+      Some(InQandaDescList) => self.push_str("</ol></div>"),
+      _ => self.push_str("</dl></div>"),
     }
     self.state.desc_list_depth -= 1;
   }
 
   #[instrument(skip_all)]
   fn enter_description_list_term(&mut self, _item: &ListItem, num: usize, _total: usize) {
-    if self.state.ephemeral.contains(&InGlossaryList) {
-      self.push_str(r#"<dt>"#);
-    } else if self.state.ephemeral.contains(&InHorizontalDescList) {
-      self.push_str(r#"<tr><td class="hdlist1">"#);
-    } else if self.state.ephemeral.contains(&InQandaDescList) {
-      if num == 1 {
-        self.push_str(r#"<li>"#);
+    match self.desc_list_style() {
+      Some(InGlossaryList) => self.push_str(r#"<dt>"#),
+      Some(InHorizontalDescList) if num == 1 => self.push_str(r#"<tr><td class="hdlist1">"#),
+      Some(InHorizontalDescList) => self.push_str("<br>"),
+      Some(InQandaDescList) => {
+        self.push_str(if num == 1 { "<li><p><em>" } else { "<p><em>" });
       }
-      self.push_str(r#"<p><em>"#);
-    } else {
-      self.push_str(r#"<dt class="hdlist1">"#);
+      _ => self.push_str(r#"<dt class="hdlist1">"#),
     }
   }
 
   #[instrument(skip_all)]
-  fn exit_description_list_term(&mut self, _item: &ListItem, _num: usize, _total: usize) {
-    if self.state.ephemeral.contains(&InHorizontalDescList) {
-      self.push_str("</td>");
-    } else if self.state.ephemeral.contains(&InQandaDescList) {
-      self.push_str(r#"</em></p>"#);
-    } else {
-      self.push_str("</dt>");
+  fn exit_description_list_term(&mut self, item: &ListItem, num: usize, total: usize) {
+    let bare = num == total && is_bare_term(item);
+    match self.desc_list_style() {
+      Some(InHorizontalDescList) if bare => {
+        self.push_str(r#"</td><td class="hdlist2"></td></tr>"#);
+      }
+      Some(InHorizontalDescList) if num == total => self.push_str("</td>"),
+      Some(InHorizontalDescList) => {}
+      Some(InQandaDescList) => self.push_str(if bare { "</em></p></li>" } else { "</em></p>" }),
+      _ => self.push_str("</dt>"),
     }
   }
 
   #[instrument(skip_all)]
   fn enter_description_list_description(&mut self, _item: &ListItem) {
-    if self.state.ephemeral.contains(&InHorizontalDescList) {
-      self.push_str(r#"<td class="hdlist2">"#);
-    } else if !self.state.ephemeral.contains(&InQandaDescList) {
-      self.push_str("<dd>");
+    match self.desc_list_style() {
+      Some(InHorizontalDescList) => self.push_str(r#"<td class="hdlist2">"#),
+      Some(InQandaDescList) => {}
+      _ => self.push_str("<dd>"),
     }
   }
 
   #[instrument(skip_all)]
   fn exit_description_list_description(&mut self, _item: &ListItem) {
-    if self.state.ephemeral.contains(&InHorizontalDescList) {
-      self.push_str("</td></tr>");
-    } else if self.state.ephemeral.contains(&InQandaDescList) {
-      self.push_str("</li>");
-    } else {
-      self.push_str("</dd>");
+    match self.desc_list_style() {
+      Some(InHorizontalDescList) => self.push_str("</td></tr>"),
+      Some(InQandaDescList) => self.push_str("</li>"),
+      _ => self.push_str("</dd>"),
     }
   }
 
   #[instrument(skip_all)]
-  fn enter_description_list_description_text(&mut self, _text: &Block, _item: &ListItem) {
-    self.state.ephemeral.insert(VisitingSimpleTermDescription);
+  fn enter_description_list_description_text(&mut self, text: &Block, _item: &ListItem) {
+    if text.context == BlockContext::Paragraph {
+      self.state.ephemeral.insert(VisitingSimpleTermDescription);
+    }
   }
 
   #[instrument(skip_all)]
@@ -1547,6 +1546,18 @@ impl HtmlBackend for AsciidoctorHtml {
   }
 }
 
+impl AsciidoctorHtml {
+  fn desc_list_style(&self) -> Option<EphemeralState> {
+    self.desc_list_styles.last().copied().flatten()
+  }
+}
+
+/// A description list item with neither description text nor attached blocks.
+fn is_bare_term(item: &ListItem) -> bool {
+  item.blocks.is_empty()
+    && !matches!(&item.type_meta, ListItemTypeMeta::DescList { description: Some(_), .. })
+}
+
 impl AsciidoctorHtml {
   pub fn new() -> Self {
     Self::default()
-- 
2.43.0


From d4b64a7100e488aeb86edca222637860ee64d664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:59 +0000
Subject: [PATCH 030/182] fix: [source#id] without a language has no language

---
 ast/src/attr_list.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ast/src/attr_list.rs b/ast/src/attr_list.rs
index 5598230..7c7a2a2 100644
--- a/ast/src/attr_list.rs
+++ b/ast/src/attr_list.rs
@@ -85,7 +85,7 @@ impl AttrData for AttrList<'_> {
   fn source_language(&self) -> Option<&str> {
     match (self.str_positional_at(0), self.str_positional_at(1)) {
       (None | Some("source"), Some(lang)) => Some(lang),
-      (Some("listing") | None, _) => None,
+      (Some("listing" | "source") | None, _) => None,
       (Some(pos), _) => {
         // handle scenarios like `[#id%opt,ruby]`
         if self.id.is_none() && self.roles.is_empty() && self.options.is_empty() {
-- 
2.43.0


From cfec240619a387d0dbd7edf0de17e18aef0c8929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:25 +0000
Subject: [PATCH 031/182] fix: dr-html: verse blocks preserve runs of spaces

---
 dr-html-backend/src/asciidoctor_html.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dr-html-backend/src/asciidoctor_html.rs b/dr-html-backend/src/asciidoctor_html.rs
index daaaeae..b2c4503 100644
--- a/dr-html-backend/src/asciidoctor_html.rs
+++ b/dr-html-backend/src/asciidoctor_html.rs
@@ -997,8 +997,12 @@ impl Backend for AsciidoctorHtml {
   }
 
   #[instrument(skip_all)]
-  fn visit_multichar_whitespace(&mut self, _whitespace: &str) {
-    self.push_ch(' ');
+  fn visit_multichar_whitespace(&mut self, whitespace: &str) {
+    if self.newlines == Newlines::Preserve {
+      self.push_str(whitespace);
+    } else {
+      self.push_ch(' ');
+    }
   }
 
   #[instrument(skip_all)]
-- 
2.43.0


From 454570378620c43a7fbd03192f0dd4ec7db8de2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:47 +0000
Subject: [PATCH 032/182] fix: ordered list numeration style follows the marker

---
 backend-html5s/src/html5s.rs            |  4 +---
 backend/src/html/backend.rs             | 16 +++++++++++-----
 dr-html-backend/src/asciidoctor_html.rs |  6 ++----
 3 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/backend-html5s/src/html5s.rs b/backend-html5s/src/html5s.rs
index 09ebea7..ff4eaea 100644
--- a/backend-html5s/src/html5s.rs
+++ b/backend-html5s/src/html5s.rs
@@ -542,7 +542,6 @@ impl Backend for Html5s {
   }
 
   fn enter_description_list(&mut self, block: &Block, _items: &[ListItem], depth: u8) {
-    self.state.desc_list_depth += 1;
     let el = if block.has_title() { "section" } else { "div" };
     let mut tag = OpenTag::new(el, &block.meta.attrs);
     if depth == 1 {
@@ -586,7 +585,6 @@ impl Backend for Html5s {
     if depth == 1 {
       self.push_str(if block.has_title() { "</section>" } else { "</div>" });
     }
-    self.state.desc_list_depth -= 1;
   }
 
   fn enter_description_list_term(&mut self, _item: &ListItem, _num: usize, _total: usize) {
@@ -619,7 +617,7 @@ impl Backend for Html5s {
   }
 
   fn enter_ordered_list(&mut self, block: &Block, items: &[ListItem], depth: u8) {
-    let (class, list_type) = self.start_enter_ordered_list(block, depth);
+    let (class, list_type) = self.start_enter_ordered_list(block, items);
     if depth == 1 {
       let classes = &["olist", class];
       let el = if block.has_title() { "section" } else { "div" };
diff --git a/backend/src/html/backend.rs b/backend/src/html/backend.rs
index e9b3c7d..071e27d 100644
--- a/backend/src/html/backend.rs
+++ b/backend/src/html/backend.rs
@@ -18,7 +18,6 @@ pub struct BackendState {
   pub ephemeral: HashSet<EphemeralState>,
   pub appendix_caption_num: u8,
   pub book_part_num: usize,
-  pub desc_list_depth: u8,
   pub interactive_list_stack: Vec<bool>,
   pub in_asciidoc_table_cell: bool,
   pub xref_depth: u8,
@@ -571,14 +570,21 @@ pub trait HtmlBackend: HtmlBuf {
     self.swapbuf(&mut s);
   }
 
-  fn start_enter_ordered_list(&mut self, block: &Block, depth: u8) -> (&'static str, &'static str) {
-    let non_dd_depth = depth.saturating_sub(self.state().desc_list_depth).max(1);
+  fn start_enter_ordered_list(
+    &mut self,
+    block: &Block,
+    items: &[ListItem],
+  ) -> (&'static str, &'static str) {
+    let marker_depth = match items.first().map(|item| item.marker) {
+      Some(ListMarker::Dot(n)) => n,
+      _ => 1,
+    };
     self.state_mut().interactive_list_stack.push(false);
     let custom = block.meta.attrs.ordered_list_custom_number_style();
     let list_type = custom
       .and_then(super::list::type_from_class)
-      .unwrap_or_else(|| super::list::type_from_depth(non_dd_depth));
-    let class = custom.unwrap_or_else(|| super::list::class_from_depth(non_dd_depth));
+      .unwrap_or_else(|| super::list::type_from_depth(marker_depth));
+    let class = custom.unwrap_or_else(|| super::list::class_from_depth(marker_depth));
     (class, list_type)
   }
 
diff --git a/dr-html-backend/src/asciidoctor_html.rs b/dr-html-backend/src/asciidoctor_html.rs
index b2c4503..d42784d 100644
--- a/dr-html-backend/src/asciidoctor_html.rs
+++ b/dr-html-backend/src/asciidoctor_html.rs
@@ -567,7 +567,6 @@ impl Backend for AsciidoctorHtml {
 
   #[instrument(skip_all)]
   fn enter_description_list(&mut self, block: &Block, _items: &[ListItem], _depth: u8) {
-    self.state.desc_list_depth += 1;
     if block.meta.attrs.has_str_positional("horizontal") {
       self.desc_list_styles.push(Some(InHorizontalDescList));
       self.open_element("div", &["hdlist"], &block.meta.attrs);
@@ -620,7 +619,6 @@ impl Backend for AsciidoctorHtml {
       Some(InQandaDescList) => self.push_str("</ol></div>"),
       _ => self.push_str("</dl></div>"),
     }
-    self.state.desc_list_depth -= 1;
   }
 
   #[instrument(skip_all)]
@@ -681,8 +679,8 @@ impl Backend for AsciidoctorHtml {
   }
 
   #[instrument(skip_all)]
-  fn enter_ordered_list(&mut self, block: &Block, items: &[ListItem], depth: u8) {
-    let (class, list_type) = self.start_enter_ordered_list(block, depth);
+  fn enter_ordered_list(&mut self, block: &Block, items: &[ListItem], _depth: u8) {
+    let (class, list_type) = self.start_enter_ordered_list(block, items);
     let classes = &["olist", class];
     self.open_element("div", classes, &block.meta.attrs);
     self.render_buffered_block_title(block);
-- 
2.43.0


From 28784418e2e220c770316a32faec23b9ce1df5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:56 +0000
Subject: [PATCH 033/182] fix: a list directly after description text starts a
 nested or enclosing list item

---
 parser/src/list_context.rs            | 1 +
 parser/src/tasks/parse_inlines/mod.rs | 7 +++++++
 parser/src/tasks/parse_list.rs        | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/parser/src/list_context.rs b/parser/src/list_context.rs
index 7ca1b0a..e5577fa 100644
--- a/parser/src/list_context.rs
+++ b/parser/src/list_context.rs
@@ -6,6 +6,7 @@ use crate::internal::*;
 pub(crate) struct ListContext {
   pub(crate) stack: ListStack,
   pub(crate) parsing_continuations: bool,
+  pub(crate) parsing_description: bool,
 }
 
 #[derive(Debug)]
diff --git a/parser/src/tasks/parse_inlines/mod.rs b/parser/src/tasks/parse_inlines/mod.rs
index 27624f0..50b920d 100644
--- a/parser/src/tasks/parse_inlines/mod.rs
+++ b/parser/src/tasks/parse_inlines/mod.rs
@@ -1023,6 +1023,13 @@ impl<'arena> Parser<'arena> {
       && (line.starts_description_list_item() || line.is_list_continuation())
     )
 
+    // list directly following the text of a description list item
+    || (
+      self.ctx.list.parsing_description
+      && self.ctx.can_nest_blocks
+      && line.starts_list_item()
+    )
+
     // list continuation, or the next item of an enclosing list
     || (
       self.ctx.list.parsing_continuations
diff --git a/parser/src/tasks/parse_list.rs b/parser/src/tasks/parse_list.rs
index 7a322e9..45f1d3d 100644
--- a/parser/src/tasks/parse_list.rs
+++ b/parser/src/tasks/parse_list.rs
@@ -198,10 +198,12 @@ impl<'arena> Parser<'arena> {
     lines.consume_current(); // the `+` line starting the continuation
     self.restore_lines(lines);
     let prev = std::mem::replace(&mut self.ctx.list.parsing_continuations, true);
+    let prev_desc = std::mem::replace(&mut self.ctx.list.parsing_description, false);
     if let Some(block) = self.parse_block()? {
       accum.push(block);
     }
     self.ctx.list.parsing_continuations = prev;
+    self.ctx.list.parsing_description = prev_desc;
     self.parse_list_continuation_blocks(accum)
   }
 
@@ -222,9 +224,11 @@ impl<'arena> Parser<'arena> {
       self.restore_lines(lines);
     }
 
+    let prev = std::mem::replace(&mut self.ctx.list.parsing_description, true);
     let description = self
       .parse_block()?
       .filter(|block| block.context != BlockContext::Comment);
+    self.ctx.list.parsing_description = prev;
 
     Ok(Some(ListItem {
       blocks: self.parse_description_list_item_blocks()?,
-- 
2.43.0


From 57414897e8d72ccd145e824672e630922cefbec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:38 +0000
Subject: [PATCH 034/182] fix: nested list preceded by several attribute and
 title lines

---
 parser/src/contiguous_lines.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser/src/contiguous_lines.rs b/parser/src/contiguous_lines.rs
index d32ea49..65c2725 100644
--- a/parser/src/contiguous_lines.rs
+++ b/parser/src/contiguous_lines.rs
@@ -220,9 +220,9 @@ impl<'arena> ContiguousLines<'arena> {
       return line.starts_nested_list(stack);
     }
     self
-      .nth(1)
-      .map(|line| line.starts_nested_list(stack))
-      .unwrap_or(false)
+      .iter()
+      .find(|line| !line.is_block_attr_list() && !line.is_chunk_title())
+      .is_some_and(|line| line.starts_nested_list(stack))
   }
 
   pub fn starts_list_continuation(&self) -> bool {
-- 
2.43.0


From c536ae06c6095e46b894208356be4c582784f714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:38 +0000
Subject: [PATCH 035/182] fix: html backends: caption numbers continue through
 AsciiDoc table cells

---
 backend-html5s/src/html5s.rs            | 9 ++++++++-
 dr-html-backend/src/asciidoctor_html.rs | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/backend-html5s/src/html5s.rs b/backend-html5s/src/html5s.rs
index ff4eaea..19f1c14 100644
--- a/backend-html5s/src/html5s.rs
+++ b/backend-html5s/src/html5s.rs
@@ -722,11 +722,18 @@ impl Backend for Html5s {
     let mut backend = Self::default();
     backend.state.footnotes = Rc::clone(&self.state.footnotes);
     backend.state.in_asciidoc_table_cell = true;
+    backend.fig_caption_num = self.fig_caption_num;
+    backend.table_caption_num = self.table_caption_num;
+    backend.example_caption_num = self.example_caption_num;
+    backend.listing_caption_num = self.listing_caption_num;
     backend
   }
 
   fn visit_asciidoc_table_cell_result(&mut self, cell_backend: Self) {
-    self.state.in_asciidoc_table_cell = false;
+    self.fig_caption_num = cell_backend.fig_caption_num;
+    self.table_caption_num = cell_backend.table_caption_num;
+    self.example_caption_num = cell_backend.example_caption_num;
+    self.listing_caption_num = cell_backend.listing_caption_num;
     self.html.push_str(&cell_backend.into_result().unwrap());
   }
 
diff --git a/dr-html-backend/src/asciidoctor_html.rs b/dr-html-backend/src/asciidoctor_html.rs
index d42784d..9abd5ca 100644
--- a/dr-html-backend/src/asciidoctor_html.rs
+++ b/dr-html-backend/src/asciidoctor_html.rs
@@ -777,12 +777,19 @@ impl Backend for AsciidoctorHtml {
     let mut backend = Self::default();
     backend.state.footnotes = Rc::clone(&self.state.footnotes);
     backend.state.in_asciidoc_table_cell = true;
+    backend.fig_caption_num = self.fig_caption_num;
+    backend.table_caption_num = self.table_caption_num;
+    backend.example_caption_num = self.example_caption_num;
+    backend.listing_caption_num = self.listing_caption_num;
     backend
   }
 
   #[instrument(skip_all)]
   fn visit_asciidoc_table_cell_result(&mut self, cell_backend: Self) {
-    self.state.in_asciidoc_table_cell = false;
+    self.fig_caption_num = cell_backend.fig_caption_num;
+    self.table_caption_num = cell_backend.table_caption_num;
+    self.example_caption_num = cell_backend.example_caption_num;
+    self.listing_caption_num = cell_backend.listing_caption_num;
     self.html.push_str(&cell_backend.into_result().unwrap());
   }
 
-- 
2.43.0


From 86be5e8d00936ca4edc0e841ba48582dd7b0bd7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:15 +0000
Subject: [PATCH 036/182] fix: nested list preceded by a block anchor

---
 parser/src/contiguous_lines.rs | 5 +++--
 parser/src/line.rs             | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/parser/src/contiguous_lines.rs b/parser/src/contiguous_lines.rs
index 65c2725..149fe24 100644
--- a/parser/src/contiguous_lines.rs
+++ b/parser/src/contiguous_lines.rs
@@ -216,12 +216,13 @@ impl<'arena> ContiguousLines<'arena> {
     let Some(line) = self.first() else {
       return false;
     };
-    if !allow_attrs || !line.is_block_attr_list() {
+    let is_attrs = |line: &Line| line.is_block_attr_list() || line.is_block_anchor();
+    if !allow_attrs || !is_attrs(line) {
       return line.starts_nested_list(stack);
     }
     self
       .iter()
-      .find(|line| !line.is_block_attr_list() && !line.is_chunk_title())
+      .find(|line| !is_attrs(line) && !line.is_chunk_title())
       .is_some_and(|line| line.starts_nested_list(stack))
   }
 
diff --git a/parser/src/line.rs b/parser/src/line.rs
index 9febabf..b69b7ec 100644
--- a/parser/src/line.rs
+++ b/parser/src/line.rs
@@ -840,7 +840,7 @@ impl<'arena> Line<'arena> {
     }
     match self.current_token().map(|t| t.kind) {
       None | Some(Plus) => false,
-      Some(OpenBracket) => !self.is_block_attr_list(),
+      Some(OpenBracket) => !self.is_block_attr_list() && !self.is_block_anchor(),
       _ => !self.starts_list_item() && !self.is_any_delimiter(),
     }
   }
-- 
2.43.0


From fc305429b1b83ffa582f3fd134bfa568a46aff5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:06 +0000
Subject: [PATCH 037/182] fix: the common indentation of literal paragraphs is
 removed

---
 parser/src/chunk.rs            |  1 +
 parser/src/contiguous_lines.rs | 34 ++++++++++++++++++++++++----------
 2 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/parser/src/chunk.rs b/parser/src/chunk.rs
index f451575..6b9dc7a 100644
--- a/parser/src/chunk.rs
+++ b/parser/src/chunk.rs
@@ -36,6 +36,7 @@ impl<'arena> ChunkMetaExt<'arena> for ChunkMeta<'arena> {
 
     // https://docs.asciidoctor.org/asciidoc/latest/verbatim/listing-blocks/#indent-method
     if uniform_indented || lines.current_satisfies(Line::is_indented) {
+      lines.trim_paragraph_indentation();
       BlockContext::Literal
     } else {
       BlockContext::Paragraph
diff --git a/parser/src/contiguous_lines.rs b/parser/src/contiguous_lines.rs
index 149fe24..2cf59da 100644
--- a/parser/src/contiguous_lines.rs
+++ b/parser/src/contiguous_lines.rs
@@ -289,22 +289,36 @@ impl<'arena> ContiguousLines<'arena> {
   }
 
   pub fn get_indentation(&self) -> usize {
-    let mut indent = usize::MAX;
-    for line in self.iter() {
-      let line_indent = line.get_indentation();
-      if line_indent < indent {
-        indent = line_indent;
-      }
-    }
-    if indent == usize::MAX { 0 } else { indent }
+    Self::min_indentation(self.lines.iter())
   }
 
   pub fn set_indentation(&mut self, indent: usize) {
-    let current = self.get_indentation();
+    self.reindent_first(self.len(), indent);
+  }
+
+  /// remove the indentation shared by the lines of an indented paragraph
+  pub fn trim_paragraph_indentation(&mut self) {
+    let len = self
+      .lines
+      .iter()
+      .take_while(|line| !line.is_any_delimiter() && !line.is_list_continuation())
+      .count();
+    self.reindent_first(len, 0);
+  }
+
+  fn min_indentation<'a>(lines: impl Iterator<Item = &'a Line<'arena>>) -> usize
+  where
+    'arena: 'a,
+  {
+    lines.map(Line::get_indentation).min().unwrap_or(0)
+  }
+
+  fn reindent_first(&mut self, len: usize, indent: usize) {
+    let current = Self::min_indentation(self.lines.iter().take(len));
     if current == indent {
       return;
     }
-    self.lines.iter_mut().for_each(|line| {
+    self.lines.iter_mut().take(len).for_each(|line| {
       let line_indent = line.get_indentation();
       if line_indent >= current {
         line.set_indentation(line_indent - current + indent);
-- 
2.43.0


From a8cc892bf836a267074f2b9dc6baf2dab7cc02bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:40 +0000
Subject: [PATCH 038/182] fix: source locations at the start of a file do not
 underflow

---
 ast/src/source_location.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ast/src/source_location.rs b/ast/src/source_location.rs
index dfbc0b3..15e26ff 100644
--- a/ast/src/source_location.rs
+++ b/ast/src/source_location.rs
@@ -63,7 +63,7 @@ impl SourceLocation {
 
   #[must_use]
   pub fn decr_start(&self) -> SourceLocation {
-    Self::new(self.start - 1, self.end, self.include_depth)
+    Self::new(self.start.saturating_sub(1), self.end, self.include_depth)
   }
 
   #[must_use]
-- 
2.43.0


From 6b2346a07519c6b9ab7328ea07d1c936f424bdd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:41 +0000
Subject: [PATCH 039/182] fix: callout numbers do not overflow

---
 dr-html-backend/src/asciidoctor_html.rs | 2 +-
 parser/src/parse_context.rs             | 2 +-
 parser/src/tasks/parse_list.rs          | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/dr-html-backend/src/asciidoctor_html.rs b/dr-html-backend/src/asciidoctor_html.rs
index 9abd5ca..f1502f3 100644
--- a/dr-html-backend/src/asciidoctor_html.rs
+++ b/dr-html-backend/src/asciidoctor_html.rs
@@ -701,7 +701,7 @@ impl Backend for AsciidoctorHtml {
     } else {
       self.push_str("<tr><td>");
       let n = item.marker.callout_num().unwrap_or(self.autogen_conum);
-      self.autogen_conum = n + 1;
+      self.autogen_conum = n.saturating_add(1);
       if self.doc_meta.icon_mode() == IconMode::Font {
         self.push_callout_number_font(n);
       } else {
diff --git a/parser/src/parse_context.rs b/parser/src/parse_context.rs
index a0eb786..00e4efc 100644
--- a/parser/src/parse_context.rs
+++ b/parser/src/parse_context.rs
@@ -150,7 +150,7 @@ impl<'arena> ParseContext<'arena> {
         callouts.push(Callout {
           list_idx: last.list_idx,
           callout_idx: last.callout_idx + 1,
-          number: num.unwrap_or(last.number + 1),
+          number: num.unwrap_or(last.number.saturating_add(1)),
           is_xml_wrapped,
         });
       }
diff --git a/parser/src/tasks/parse_list.rs b/parser/src/tasks/parse_list.rs
index 45f1d3d..b5a7aed 100644
--- a/parser/src/tasks/parse_list.rs
+++ b/parser/src/tasks/parse_list.rs
@@ -101,7 +101,7 @@ impl<'arena> Parser<'arena> {
         )?;
       }
       type_meta = ListItemTypeMeta::Callout(callouts);
-      *autogen_conum = conum + 1;
+      *autogen_conum = conum.saturating_add(1);
     }
 
     let mut item_lines = Deq::with_capacity(1, self.bump);
-- 
2.43.0


From f535416c9050d8aa31cb90978a14e2156843d46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:50 +0000
Subject: [PATCH 040/182] fix: extreme indent and lines values of includes and
 verbatim blocks

---
 parser/src/tasks/directives/includes/normalize_includes.rs | 4 ++--
 parser/src/tasks/directives/includes/process_includes.rs   | 4 ++--
 parser/src/tasks/parse_block.rs                            | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/parser/src/tasks/directives/includes/normalize_includes.rs b/parser/src/tasks/directives/includes/normalize_includes.rs
index 0ef2543..b9de942 100644
--- a/parser/src/tasks/directives/includes/normalize_includes.rs
+++ b/parser/src/tasks/directives/includes/normalize_includes.rs
@@ -166,10 +166,10 @@ fn parse_line_ranges(s: &str) -> Vec<Range<usize>> {
       } else if let Ok(high_n) = high.parse::<usize>()
         && low_n <= high_n
       {
-        ranges.push(low_n..high_n + 1);
+        ranges.push(low_n..high_n.saturating_add(1));
       }
     } else if let Ok(n) = part.parse::<usize>() {
-      ranges.push(n..n + 1);
+      ranges.push(n..n.saturating_add(1));
     }
   });
   ranges
diff --git a/parser/src/tasks/directives/includes/process_includes.rs b/parser/src/tasks/directives/includes/process_includes.rs
index 3811176..7f78554 100644
--- a/parser/src/tasks/directives/includes/process_includes.rs
+++ b/parser/src/tasks/directives/includes/process_includes.rs
@@ -218,8 +218,8 @@ impl<'arena> Parser<'arena> {
   }
 
   fn set_include_indentation(&self, attrs: &AttrList, buf: &mut BumpVec<'arena, u8>) {
-    if let Some(indent) = attrs.named("indent").and_then(|s| s.parse::<usize>().ok()) {
-      _set_indentation(indent, buf, self.bump);
+    if let Some(indent) = attrs.named("indent").and_then(|s| s.parse::<u16>().ok()) {
+      _set_indentation(indent as usize, buf, self.bump);
     };
   }
 
diff --git a/parser/src/tasks/parse_block.rs b/parser/src/tasks/parse_block.rs
index 5e651d5..e12594c 100644
--- a/parser/src/tasks/parse_block.rs
+++ b/parser/src/tasks/parse_block.rs
@@ -392,10 +392,10 @@ impl<'arena> Parser<'arena> {
       if let Some(indent) = meta
         .attrs
         .named("indent")
-        .and_then(|s| s.parse::<usize>().ok())
+        .and_then(|s| s.parse::<u16>().ok())
       {
         let delimiter = lines.pop();
-        lines.set_indentation(indent);
+        lines.set_indentation(indent as usize);
         delimiter.map(|d| lines.push(d));
       }
 
-- 
2.43.0


From 3e562283471989debb55d74e1d9491a756096f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:03 +0000
Subject: [PATCH 041/182] fix: anchors from attribute values at the start of a
 file do not underflow

---
 ast/src/source_location.rs          | 4 ++--
 parser/src/tasks/parse_attr_list.rs | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/ast/src/source_location.rs b/ast/src/source_location.rs
index 15e26ff..e406f8f 100644
--- a/ast/src/source_location.rs
+++ b/ast/src/source_location.rs
@@ -53,7 +53,7 @@ impl SourceLocation {
 
   #[must_use]
   pub fn decr_end(&self) -> SourceLocation {
-    Self::new(self.start, self.end - 1, self.include_depth)
+    Self::new(self.start, self.end.saturating_sub(1), self.include_depth)
   }
 
   #[must_use]
@@ -78,7 +78,7 @@ impl SourceLocation {
 
   #[must_use]
   pub fn decr(&self) -> SourceLocation {
-    Self::new(self.start - 1, self.end - 1, self.include_depth)
+    Self::new(self.start.saturating_sub(1), self.end.saturating_sub(1), self.include_depth)
   }
 
   #[must_use]
diff --git a/parser/src/tasks/parse_attr_list.rs b/parser/src/tasks/parse_attr_list.rs
index e79b66a..925e9a5 100644
--- a/parser/src/tasks/parse_attr_list.rs
+++ b/parser/src/tasks/parse_attr_list.rs
@@ -72,7 +72,7 @@ impl<'arena> Parser<'arena> {
     {
       return Ok(None);
     }
-    let start = current.loc.start - 2;
+    let start = current.loc.start.saturating_sub(2);
     let id = line.consume_to_string_until_one_of(&[Kind(Comma), Kind(CloseBracket)], self.bump);
     assert!(!id.is_empty());
     let mut anchor = AnchorSrc {
-- 
2.43.0


From 384a6e77d78006b3663a01ad2634ada99f6822ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:09 +0000
Subject: [PATCH 042/182] fix: table column repeat counts are bounded

---
 parser/src/tasks/table/parse_table_spec.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/src/tasks/table/parse_table_spec.rs b/parser/src/tasks/table/parse_table_spec.rs
index 6a106b8..ffe4350 100644
--- a/parser/src/tasks/table/parse_table_spec.rs
+++ b/parser/src/tasks/table/parse_table_spec.rs
@@ -55,7 +55,7 @@ fn parse_col_spec(col_attr: &str, specs: &mut BumpVec<ColSpec>) {
   }
 
   if let Some(repeat_match) = captures.get(1) {
-    let repeat = repeat_match.as_str().parse().unwrap_or(1);
+    let repeat = repeat_match.as_str().parse::<u16>().unwrap_or(1);
     if repeat > 1 {
       for _ in 1..repeat {
         specs.push(spec.clone());
@@ -75,7 +75,7 @@ impl<'arena> Parser<'arena> {
     // not documented (afaik), but if it's only a number
     // asciidoctor treats it as a repeat of the default colspec
     if cols_attr.bytes().all(|b| b.is_ascii_digit()) {
-      let repeat = cols_attr.parse().unwrap_or(1);
+      let repeat = cols_attr.parse::<u16>().unwrap_or(1);
       for _ in 0..repeat {
         specs.push(ColSpec::default());
       }
-- 
2.43.0


From 47227c14f15c9ac28dc2115fae0f07eef67c6a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:09 +0000
Subject: [PATCH 043/182] fix: escape attribute values, ids, roles and macro
 targets written to html

---
 backend-html5s/src/html5s.rs            |  90 ++++++++++++---------
 backend-html5s/src/lib.rs               |   2 +-
 backend/src/html/backend.rs             | 100 ++++++++++++++----------
 backend/src/html/htmlbuf.rs             |  48 +++++++++---
 backend/src/html/mod.rs                 |   1 +
 backend/src/html/open_tag.rs            |   8 +-
 backend/src/html/video.rs               |  48 +++++++-----
 dr-html-backend/src/asciidoctor_html.rs |  82 ++++++++++---------
 dr-html-backend/src/lib.rs              |   2 +-
 9 files changed, 232 insertions(+), 149 deletions(-)

diff --git a/backend-html5s/src/html5s.rs b/backend-html5s/src/html5s.rs
index 19f1c14..0ac3081 100644
--- a/backend-html5s/src/html5s.rs
+++ b/backend-html5s/src/html5s.rs
@@ -62,7 +62,7 @@ impl Backend for Html5s {
       self.open_body(document);
       if let Some(max_width) = document.meta.string("max-width") {
         self.html.pop();
-        self.push([r#" style="max-width: "#, &max_width, r#";">"#]);
+        self.push([r#" style="max-width: "#, &esc(&max_width), r#";">"#]);
       }
     }
   }
@@ -115,7 +115,7 @@ impl Backend for Html5s {
     self.push_str("<footer><div id=\"footer-text\">");
     if let Some(revnumber) = self.doc_meta.string("revnumber") {
       let label = self.doc_meta.string_or("version-label", "");
-      self.push([&label, " ", &revnumber]);
+      self.push([&label, " ", &esc(&revnumber)]);
     }
     // TODO: last-update-label
     self.push_str("</div>");
@@ -151,14 +151,20 @@ impl Backend for Html5s {
     let id = &macro_block
       .and_then(|b| b.meta.attrs.id().map(|id| id.to_string()))
       .unwrap_or("toc".to_string());
-    self.push([r#"<nav id=""#, id, r#"" class=""#]);
-    self.push_str(&self.doc_meta.string_or("toc-class", "toc"));
+    self.push([r#"<nav id=""#, &esc(id), r#"" class=""#]);
+    self.push_str(&esc(&self.doc_meta.string_or("toc-class", "toc")));
     self.push_str(r#"" role="doc-toc"#);
     if !self.doc_meta.embedded && matches!(toc.position, TocPosition::Left | TocPosition::Right) {
       self.push_ch('2'); // `toc2` roughly means "toc-aside", per dr src
     }
     let level = self.section_level_stack.last().copied().unwrap_or(0) + 2;
-    self.push([r#""><h"#, &num_str!(level), r#" id=""#, id, r#"-title">"#]);
+    self.push([
+      r#""><h"#,
+      &num_str!(level),
+      r#" id=""#,
+      &esc(id),
+      r#"-title">"#,
+    ]);
     self.push_str(&toc.title);
     self.push([r#"</h"#, &num_str!(level), ">"]);
   }
@@ -202,9 +208,9 @@ impl Backend for Html5s {
   fn enter_book_part_title(&mut self, title: &PartTitle) {
     self.push_str("<h1");
     if let Some(id) = &title.id {
-      self.push([r#" id=""#, id]);
+      self.push_verbatim_attr("id", id);
     }
-    self.push_str("\">");
+    self.push_ch('>');
     self.push_part_prefix();
   }
 
@@ -338,9 +344,9 @@ impl Backend for Html5s {
       html.push_str("\"><code");
       if let Some(lang) = block.meta.attrs.source_language().or(doc_lang) {
         html.push_str(" class=\"language-");
-        html.push_str(lang);
+        html.push_str(&esc(lang));
         html.push_str("\" data-lang=\"");
-        html.push_str(lang);
+        html.push_str(&esc(lang));
         html.push('"');
       }
       self.state.ephemeral.insert(IsSourceBlock);
@@ -1017,16 +1023,16 @@ impl Backend for Html5s {
 
   fn visit_inline_anchor(&mut self, id: &str) {
     if !self.state.ephemeral.contains(&InTableOfContents) {
-      self.push(["<a id=\"", id, "\" aria-hidden=\"true\"></a>"]);
+      self.push(["<a id=\"", &esc(id), "\" aria-hidden=\"true\"></a>"]);
     }
   }
 
   fn visit_biblio_anchor(&mut self, id: &str, reftext: Option<&str>) {
     self.push([
       "<a id=\"",
-      id,
+      &esc(id),
       "\" aria-hidden=\"true\"></a>[",
-      reftext.unwrap_or(id),
+      &esc(reftext.unwrap_or(id)),
       "]",
     ]);
   }
@@ -1041,7 +1047,7 @@ impl Backend for Html5s {
   }
 
   fn visit_callout_tuck(&mut self, comment: &str) {
-    self.push_str(comment);
+    self.push_str(&esc(comment));
   }
 
   fn visit_linebreak(&mut self) {
@@ -1049,7 +1055,7 @@ impl Backend for Html5s {
   }
 
   fn visit_button_macro(&mut self, text: &SourceString) {
-    self.push([r#"<kbd class="button"><samp>"#, text, "</samp></kbd>"])
+    self.push([r#"<kbd class="button"><samp>"#, &esc(text), "</samp></kbd>"])
   }
 
   fn visit_icon_macro(&mut self, target: &SourceString, attrs: &AttrList) {
@@ -1067,44 +1073,44 @@ impl Backend for Html5s {
         self.push_str(r#"<b class="icon"#);
         attrs.roles.iter().for_each(|role| {
           self.push_str(" ");
-          self.push_str(role);
+          self.push_str(&esc(role));
         });
         if let Some(title) = attrs.named("title") {
-          self.push([r#"" title=""#, title]);
+          self.push([r#"" title=""#, &esc(title)]);
         }
         self.push_str(r#"">["#);
-        self.push_str(attrs.named("alt").unwrap_or(target));
+        self.push_str(&esc(attrs.named("alt").unwrap_or(target)));
         self.push_str("]</b>");
       }
       IconMode::Image => {
         self.push_str(r#"<img src=""#);
         self.push_icon_uri(target, None);
         self.push_str(r#"" alt=""#);
-        self.push_str(attrs.named("alt").unwrap_or(target));
+        self.push_str(&esc(attrs.named("alt").unwrap_or(target)));
         self.push_ch('"');
         self.push_named_attr("width", attrs);
         self.push_named_attr("title", attrs);
         self.push_str(r#" class="icon"#);
         attrs.roles.iter().for_each(|role| {
           self.push_str(" ");
-          self.push_str(role);
+          self.push_str(&esc(role));
         });
         self.push_str(r#"">"#);
       }
       IconMode::Font => {
         self.push_str(r#"<i class="fa fa-"#);
-        self.push_str(target);
+        self.push_str(&esc(target));
         if let Some(size) = attrs.named("size").or(attrs.str_positional_at(0)) {
-          self.push([r#" fa-"#, size]);
+          self.push([r#" fa-"#, &esc(size)]);
         }
         if let Some(flip) = attrs.named("flip") {
-          self.push([r#" fa-flip-"#, flip]);
+          self.push([r#" fa-flip-"#, &esc(flip)]);
         } else if let Some(rotate) = attrs.named("rotate") {
-          self.push([r#" fa-rotate-"#, rotate]);
+          self.push([r#" fa-rotate-"#, &esc(rotate)]);
         }
         attrs.roles.iter().for_each(|role| {
           self.push_str(" ");
-          self.push_str(role);
+          self.push_str(&esc(role));
         });
         self.push_ch('"');
         self.push_named_attr("title", attrs);
@@ -1126,7 +1132,7 @@ impl Backend for Html5s {
         self.push_img_path(target);
         a_tag.push_str(&std::mem::replace(&mut self.html, html));
       } else {
-        a_tag.push_str_attr_escaped(link_href);
+        a_tag.push_str(&esc(link_href));
       }
       a_tag.push_ch('"');
       a_tag.opened_classes = false;
@@ -1263,11 +1269,11 @@ impl Backend for Html5s {
   fn visit_menu_macro(&mut self, items: &[SourceString]) {
     let mut items = items.iter();
     self.push_str(r#"<kbd class="menuseq"><kbd class="menu"><samp>"#);
-    self.push_str(items.next().unwrap());
+    self.push_str(&esc(items.next().unwrap()));
     self.push_str("</samp></kbd>");
     for item in items {
       self.push_str(r#"&#160;<span class="caret">&#8250;</span>&#32;<kbd class=""#);
-      self.push(["menu\"><samp>", item, "</samp></kbd>"]);
+      self.push(["menu\"><samp>", &esc(item), "</samp></kbd>"]);
     }
     self.push_str("</kbd>");
   }
@@ -1370,14 +1376,20 @@ impl Backend for Html5s {
         false
       };
       let href = if *href == "self" { &img_target.src } else { *href };
-      self.push([r#"" href=""#, href, r#"""#]);
+      self.push([r#"" href=""#, &esc(href), r#"""#]);
       self.append_link_constraint_attrs(img_attrs);
       if self_link {
         let label = self.doc_meta.string_or(
           "html5s-image-self-link-label",
           "Open the image in full size",
         );
-        self.push([r#" title=""#, &label, r#"" aria-label=""#, &label, r#"">"#]);
+        self.push([
+          r#" title=""#,
+          &esc(&label),
+          r#"" aria-label=""#,
+          &esc(&label),
+          r#"">"#,
+        ]);
       } else {
         self.push_ch('>');
       }
@@ -1570,14 +1582,20 @@ impl Html5s {
       self.push_str(&(index + 1).to_string());
     }
     self.push_str("\">");
-    self.push_str(&author.fullname());
+    self.push_str(&esc(&author.fullname()));
     self.push_str("</span><br>");
     if let Some(email) = &author.email {
       self.push_str(r#"<span class="email" id="email"#);
       if index > 0 {
         self.push_str(&(index + 1).to_string());
       }
-      self.push(["\"><a href=\"mailto:", email, "\">", email, "</a></span>"]);
+      self.push([
+        "\"><a href=\"mailto:",
+        &esc(email),
+        "\">",
+        &esc(email),
+        "</a></span>",
+      ]);
       if index == 0 {
         self.push_str("<br>");
       }
@@ -1596,7 +1614,7 @@ impl Html5s {
 
     if let Some(revnumber) = self.doc_meta.string("revnumber") {
       let label = self.doc_meta.string_or("version-label", "").to_lowercase();
-      self.push([r#"<span id="revnumber">"#, &label, " ", &revnumber]);
+      self.push([r#"<span id="revnumber">"#, &label, " ", &esc(&revnumber)]);
       if self.doc_meta.get("revdate").is_some() {
         self.push_str(",</span> ");
       } else {
@@ -1606,14 +1624,16 @@ impl Html5s {
     if let Some(revdate) = self.doc_meta.string("revdate") {
       self.push([
         r#"<time id="revdate" datetime=""#,
-        &backend::time::format_date_str(&revdate, "%Y-%m-%d").unwrap_or_else(|| revdate.clone()),
+        &esc(
+          &backend::time::format_date_str(&revdate, "%Y-%m-%d").unwrap_or_else(|| revdate.clone()),
+        ),
         r#"">"#,
-        &revdate,
+        &esc(&revdate),
         "</time>",
       ]);
     }
     if let Some(revremark) = self.doc_meta.string("revremark") {
-      self.push([r#"<br><span id="revremark">"#, &revremark, "</span>"]);
+      self.push([r#"<br><span id="revremark">"#, &esc(&revremark), "</span>"]);
     }
     self.push_str("</div>");
   }
diff --git a/backend-html5s/src/lib.rs b/backend-html5s/src/lib.rs
index a7c316c..55e596d 100644
--- a/backend-html5s/src/lib.rs
+++ b/backend-html5s/src/lib.rs
@@ -19,7 +19,7 @@ mod internal {
   pub use asciidork_core::*;
   pub use ast::prelude::*;
   pub use backend::html::backend::*;
-  pub use backend::html::{AltHtmlBuf, HtmlBuf, OpenTag};
+  pub use backend::html::{AltHtmlBuf, HtmlBuf, OpenTag, esc};
   pub use backend::prelude::*;
   pub use backend::utils;
 }
diff --git a/backend/src/html/backend.rs b/backend/src/html/backend.rs
index 071e27d..f316e52 100644
--- a/backend/src/html/backend.rs
+++ b/backend/src/html/backend.rs
@@ -7,7 +7,7 @@ use asciidork_core::{DocType, JobAttr, Path, SafeMode, file, iff, regx};
 use ast::{AttrValue, ReadAttr, SpecialSection, prelude::*};
 
 use crate::{
-  html::{HtmlBuf, OpenTag},
+  html::{HtmlBuf, OpenTag, esc},
   utils,
 };
 
@@ -42,37 +42,43 @@ pub trait HtmlBackend: HtmlBuf {
   fn open_doc_head(&mut self, meta: &DocumentMeta) {
     self.push_str(r#"<!DOCTYPE html><html"#);
     if !meta.is_true("nolang") {
-      self.push([r#" lang=""#, meta.str_or("lang", "en"), "\""]);
+      self.push_verbatim_attr("lang", meta.str_or("lang", "en"));
     }
     self.push_str("><head>");
   }
 
   fn meta_tags(&mut self, meta: &DocumentMeta) {
     let encoding = meta.str_or("encoding", "UTF-8");
-    self.push([r#"<meta charset=""#, encoding, r#"">"#]);
+    self.push([r#"<meta charset=""#, &esc(encoding), r#"">"#]);
     self.push_str(r#"<meta http-equiv="X-UA-Compatible" content="IE=edge">"#);
     self.push_str(r#"<meta name="viewport" content="width=device-width, initial-scale=1.0">"#);
     if !meta.is_true("reproducible") {
       self.push_str(r#"<meta name="generator" content="Asciidork">"#);
     }
     if let Some(appname) = meta.str("app-name") {
-      self.push([r#"<meta name="application-name" content=""#, appname, "\">"]);
+      self.push_meta("application-name", appname);
     }
     if let Some(desc) = meta.str("description") {
-      self.push([r#"<meta name="description" content=""#, desc, "\">"]);
+      self.push_meta("description", desc);
     }
     if let Some(keywords) = meta.str("keywords") {
-      self.push([r#"<meta name="keywords" content=""#, keywords, "\">"]);
+      self.push_meta("keywords", keywords);
     }
     if let Some(copyright) = meta.str("copyright") {
-      self.push([r#"<meta name="copyright" content=""#, copyright, "\">"]);
+      self.push_meta("copyright", copyright);
     }
   }
 
+  fn push_meta(&mut self, name: &str, content: &str) {
+    self.push([r#"<meta name=""#, name, "\""]);
+    self.push_html_attr("content", content);
+    self.push_ch('>');
+  }
+
   fn open_body(&mut self, document: &Document) {
     self.push_str("<body");
     if let Some(custom_id) = document.meta.str("css-signature") {
-      self.push([r#" id=""#, custom_id, "\""]);
+      self.push_html_attr("id", custom_id);
     }
     self.push([r#" class=""#, document.meta.get_doctype().to_str()]);
     match document.toc.as_ref().map(|toc| &toc.position) {
@@ -121,11 +127,10 @@ pub trait HtmlBackend: HtmlBuf {
     let state = self.state_mut();
     state.xref_depth += 1;
     if state.xref_depth == 1 {
-      self.push([
-        "<a href=\"",
-        &utils::xref::href(target, self.doc_meta(), kind, true),
-        "\">",
-      ]);
+      let href = utils::xref::href(target, self.doc_meta(), kind, true);
+      self.push_str("<a");
+      self.push_verbatim_attr("href", &href);
+      self.push_ch('>');
     }
   }
 
@@ -200,15 +205,15 @@ pub trait HtmlBackend: HtmlBuf {
     if !regx::URI_SNIFF.is_match(target)
       && let Some(imagesdir) = self.doc_meta().string("imagesdir")
     {
-      self.push([&imagesdir, "/"]);
+      self.push([&esc(&imagesdir), "/"]);
     }
-    self.push_str(target);
+    self.push_str(&esc(target));
     let start = attrs.named("start");
     let end = attrs.named("end");
     match (start, end) {
-      (None, Some(end)) => self.push(["#t=,", end, "\""]),
-      (Some(start), None) => self.push(["#t=", start, "\""]),
-      (Some(start), Some(end)) => self.push(["#t=", start, ",", end, "\""]),
+      (None, Some(end)) => self.push(["#t=,", &esc(end), "\""]),
+      (Some(start), None) => self.push(["#t=", &esc(start), "\""]),
+      (Some(start), Some(end)) => self.push(["#t=", &esc(start), ",", &esc(end), "\""]),
       (None, None) => self.push_ch('"'),
     }
     if attrs.has_option("autoplay") {
@@ -225,7 +230,7 @@ pub trait HtmlBackend: HtmlBuf {
 
   fn push_icon_uri(&mut self, name: &str, prefix: Option<&str>) {
     self.push_icon_img_path();
-    self.push([prefix.unwrap_or(""), name]);
+    self.push([prefix.unwrap_or(""), &esc(name)]);
     self.push_icon_inferred_img_ext();
   }
 
@@ -235,11 +240,11 @@ pub trait HtmlBackend: HtmlBuf {
     if let Some(iconsdir) = self.doc_meta().str("iconsdir")
       && !iconsdir.is_empty()
     {
-      s.push_str(iconsdir);
+      s.push_str(&esc(iconsdir));
     } else if let Some(imagesdir) = self.doc_meta().str("imagesdir")
       && !imagesdir.is_empty()
     {
-      s.push_str(imagesdir);
+      s.push_str(&esc(imagesdir));
     } else {
       s.push_str("./images/icons")
     }
@@ -254,13 +259,13 @@ pub trait HtmlBackend: HtmlBuf {
     if let Some(icontype) = self.doc_meta().str("icontype")
       && !icontype.is_empty()
     {
-      s.push_str(icontype);
+      s.push_str(&esc(icontype));
     } else if let Some(icons) = self.doc_meta().str("icons")
       && icons != "font"
       && icons != "image"
       && !icons.is_empty()
     {
-      s.push_str(icons);
+      s.push_str(&esc(icons));
     } else {
       s.push_str("png")
     }
@@ -287,10 +292,10 @@ pub trait HtmlBackend: HtmlBuf {
       ImageKind::InlineSvg(None) => {
         self.push_str(r#"<span class="alt">"#);
         if let Some(alt) = attrs.named("alt").or_else(|| attrs.str_positional_at(0)) {
-          self.push_str(alt);
+          self.push_str(&esc(alt));
         } else {
           let stem = asciidork_core::file::stem(target);
-          self.push_str(&stem.replace(['_', '-'], " "));
+          self.push_str(&esc(&stem.replace(['_', '-'], " ")));
         }
         self.push_str(r#"</span>"#);
       }
@@ -311,7 +316,7 @@ pub trait HtmlBackend: HtmlBuf {
       self.push_named_or_pos_attr("alt", 0, attrs);
       self.push_ch('>');
     } else if let Some(alt) = attrs.named("alt").or_else(|| attrs.str_positional_at(0)) {
-      self.push([r#"<span class="alt">"#, alt, "</span>"]);
+      self.push([r#"<span class="alt">"#, &esc(alt), "</span>"]);
     }
     self.push_str("</object>");
   }
@@ -340,9 +345,9 @@ pub trait HtmlBackend: HtmlBuf {
       self.push_str(&doctitle);
     } else if utils::xref::is_interdoc(target, kind) {
       let href = utils::xref::href(target, self.doc_meta(), kind, false);
-      self.push_str(utils::xref::remove_leading_hash(&href));
+      self.push_str(&esc(utils::xref::remove_leading_hash(&href)));
     } else {
-      self.push(["[", target.strip_prefix('#').unwrap_or(target), "]"]);
+      self.push(["[", &esc(target.strip_prefix('#').unwrap_or(target)), "]"]);
     }
   }
 
@@ -372,7 +377,7 @@ pub trait HtmlBackend: HtmlBuf {
     if matches!(scheme, Some(UrlScheme::Mailto)) {
       tag.push_str("mailto:");
     }
-    tag.push_specialchar_escaped(target);
+    tag.push_verbatim_attr_value(target);
     tag.push_ch('"');
 
     if let Some(attrs) = attrs {
@@ -420,7 +425,8 @@ pub trait HtmlBackend: HtmlBuf {
     } else {
       OpenTag::new("a", &NoAttrs)
     };
-    a_tag.push([" href=\"mailto:", address]);
+    a_tag.push_str(" href=\"mailto:");
+    a_tag.push_verbatim_attr_value(address);
     if let Some(subject) = subject {
       a_tag.push_str("?subject=");
       a_tag.push_url_encoded(subject);
@@ -432,7 +438,7 @@ pub trait HtmlBackend: HtmlBuf {
     a_tag.push_ch('"');
     self.push_open_tag(a_tag);
     if !has_link_text {
-      self.push_str(address);
+      self.push_specialchar_escaped(address);
     }
   }
 
@@ -655,14 +661,15 @@ pub trait HtmlBackend: HtmlBuf {
   fn push_enter_discrete_heading(&mut self, level: u8, id: Option<&str>, block: &Block) {
     let level_str = crate::num_str!(level + 1);
     if let Some(id) = id {
-      self.push(["<h", &level_str, r#" id=""#, id, "\""]);
+      self.push(["<h", &level_str]);
+      self.push_verbatim_attr("id", id);
     } else {
       self.push(["<h", &level_str]);
     }
     self.push_str(r#" class="discrete"#);
     for role in block.meta.attrs.roles() {
       self.push_ch(' ');
-      self.push_str(role);
+      self.push_str_attr_escaped(role);
     }
     self.push_str("\">");
   }
@@ -674,7 +681,7 @@ pub trait HtmlBackend: HtmlBuf {
   fn enter_toc_node(&mut self, node: &TocNode) {
     self.push_str("<li><a href=\"#");
     if let Some(id) = &node.id {
-      self.push_str(id);
+      self.push_verbatim_attr_value(id);
     }
     self.push_str("\">");
     if node.special_sect == Some(SpecialSection::Appendix) {
@@ -743,16 +750,21 @@ pub trait HtmlBackend: HtmlBuf {
   fn enter_section_heading(&mut self, section: &Section, accessible: bool) {
     let level_str = crate::num_str!(section.level + 1);
     if let Some(id) = &section.id {
-      self.push(["<h", &level_str, r#" id=""#, id, "\">"]);
+      self.push(["<h", &level_str]);
+      self.push_verbatim_attr("id", id);
+      self.push_ch('>');
       if self.doc_meta().is_true("sectanchors") {
-        self.push([r##"<a class="anchor" href="#"##, id]);
+        self.push_str(r##"<a class="anchor" href="#"##);
+        self.push_verbatim_attr_value(id);
         if accessible {
           self.push_str(r#"" aria-hidden="true"#);
         }
         self.push_str("\"></a>");
       }
       if self.doc_meta().is_true("sectlinks") {
-        self.push([r##"<a class="link" href="#"##, id, "\">"]);
+        self.push_str(r##"<a class="link" href="#"##);
+        self.push_verbatim_attr_value(id);
+        self.push_str("\">");
       }
     } else {
       self.push(["<h", &level_str, ">"]);
@@ -809,8 +821,7 @@ pub trait HtmlBackend: HtmlBuf {
       if index > 0 {
         self.push_str(", ");
       }
-      // TODO: escape/sanitize, w/ tests, see asciidoctor
-      self.push_str(&author.fullname());
+      self.push_str_attr_escaped(&author.fullname());
     }
     self.push_str(r#"">"#);
   }
@@ -820,7 +831,10 @@ pub trait HtmlBackend: HtmlBuf {
       Some(AttrValue::String(path)) => {
         let ext = crate::utils::file_ext(path).unwrap_or("ico");
         self.push_str(r#"<link rel="icon" type="image/"#);
-        self.push([ext, r#"" href=""#, path, "\">"]);
+        self.push_str_attr_escaped(ext);
+        self.push_ch('"');
+        self.push_verbatim_attr("href", path);
+        self.push_ch('>');
       }
       Some(AttrValue::Bool(true)) => {
         self.push_str(r#"<link rel="icon" type="image/x-icon" href="favicon.ico">"#);
@@ -847,18 +861,18 @@ fn render_inner_image<B: HtmlBackend + ?Sized>(
       backend.push_str("data:image/");
       if let Some(ext) = file::ext(target) {
         let mimetype = iff!(ext == "svg", "svg+xml", ext);
-        backend.push_str(mimetype);
+        backend.push_str(&esc(mimetype));
       } else {
         backend.push_str("application/octet-stream");
       }
       backend.push_str(";base64,");
       if let Some(data) = data_uri {
-        backend.push_str(data);
+        backend.push_str(&esc(data));
       }
     }
     None => {
       if target.starts_with("data:") {
-        backend.push_str(target);
+        backend.push_verbatim_attr_value(target);
       } else {
         backend.push_img_path(target);
       }
diff --git a/backend/src/html/htmlbuf.rs b/backend/src/html/htmlbuf.rs
index aaabde0..1138976 100644
--- a/backend/src/html/htmlbuf.rs
+++ b/backend/src/html/htmlbuf.rs
@@ -1,3 +1,5 @@
+use std::borrow::Cow;
+
 use lazy_static::lazy_static;
 use regex::Regex;
 
@@ -41,6 +43,17 @@ pub trait HtmlBuf {
     self.push_ch('"');
   }
 
+  /// like `push_html_attr`, but apostrophes are part of a url or an id
+  fn push_verbatim_attr(&mut self, name: &str, value: &str) {
+    self.push([" ", name, "=\""]);
+    self.push_verbatim_attr_value(value);
+    self.push_ch('"');
+  }
+
+  fn push_verbatim_attr_value(&mut self, value: &str) {
+    self.push_str(&esc(value));
+  }
+
   fn push_html_attr_nodes(&mut self, name: &'static str, nodes: &ast::InlineNodes<'_>) {
     self.push([" ", name, "=\""]);
     if let Some(single) = nodes.single_text() {
@@ -87,7 +100,8 @@ pub trait HtmlBuf {
 
   fn append_link_constraint_attrs(&mut self, attrs: &AttrList) {
     if let Some(window) = attrs.named("window") {
-      self.push([r#" target=""#, window]);
+      self.push_str(r#" target=""#);
+      self.push_str_attr_escaped(window);
       if window == "_blank" || attrs.has_option("noopener") {
         self.push_str("\" rel=\"noopener");
       }
@@ -148,18 +162,16 @@ pub trait AltHtmlBuf: HtmlBuf {
   }
 }
 
-fn push_escaped(src: &str, dest: &mut String, escape_quotes: bool) {
+pub(super) fn push_escaped(src: &str, dest: &mut String, escape_quotes: bool) {
   let mut it = src.chars().peekable();
   let mut pos = 0;
   while let Some(c) = it.next() {
     match c {
       '&' if it.peek() == Some(&'#') => {
-        if let Some(peek) = src.get(pos..src.len().min(pos + 6)) {
-          if NUMERIC_CHAR_REF.is_match(peek) {
-            dest.push(c);
-          } else {
-            dest.push_str("&amp;");
-          }
+        if NUMERIC_CHAR_REF.is_match(&src[pos..]) {
+          dest.push(c);
+        } else {
+          dest.push_str("&amp;");
         }
       }
       '&' => dest.push_str("&amp;"),
@@ -173,16 +185,34 @@ fn push_escaped(src: &str, dest: &mut String, escape_quotes: bool) {
   }
 }
 
+/// escape text for an attribute value or element content, leaving apostrophes alone
+pub fn esc(s: &str) -> Cow<'_, str> {
+  if !s.contains(['<', '>', '&', '"']) {
+    return Cow::Borrowed(s);
+  }
+  let mut escaped = String::with_capacity(s.len() + 8);
+  for (idx, part) in s.split('"').enumerate() {
+    if idx > 0 {
+      escaped.push_str("&quot;");
+    }
+    push_escaped(part, &mut escaped, false);
+  }
+  Cow::Owned(escaped)
+}
+
 fn push_url_encoded(buf: &mut String, s: &str) {
   for c in s.chars() {
     match c {
       ' ' => buf.push_str("%20"),
       ',' => buf.push_str("%2C"),
+      '<' => buf.push_str("&lt;"),
+      '>' => buf.push_str("&gt;"),
+      '"' => buf.push_str("&quot;"),
       _ => buf.push(c),
     }
   }
 }
 
 lazy_static! {
-  pub static ref NUMERIC_CHAR_REF: Regex = Regex::new(r"&#[0-9]+;|&#x[0-9a-fA-F]+;").unwrap();
+  pub static ref NUMERIC_CHAR_REF: Regex = Regex::new(r"^&#(?:[0-9]+|x[0-9a-fA-F]+);").unwrap();
 }
diff --git a/backend/src/html/mod.rs b/backend/src/html/mod.rs
index d02feaa..b431877 100644
--- a/backend/src/html/mod.rs
+++ b/backend/src/html/mod.rs
@@ -8,4 +8,5 @@ pub mod video;
 
 pub use htmlbuf::AltHtmlBuf;
 pub use htmlbuf::HtmlBuf;
+pub use htmlbuf::esc;
 pub use open_tag::OpenTag;
diff --git a/backend/src/html/open_tag.rs b/backend/src/html/open_tag.rs
index 954063d..87e635c 100644
--- a/backend/src/html/open_tag.rs
+++ b/backend/src/html/open_tag.rs
@@ -1,4 +1,4 @@
-use crate::html::htmlbuf::HtmlBuf;
+use crate::html::htmlbuf::{HtmlBuf, push_escaped};
 use ast::{AttrValue, DocumentMeta, prelude::*};
 use core::ReadAttr;
 
@@ -49,10 +49,10 @@ impl OpenTag {
     let mut roles = attrs.roles();
     if let Some(first_role) = roles.next() {
       let mut append = String::with_capacity(24);
-      append.push_str(first_role);
+      push_escaped(first_role, &mut append, true);
       for role in roles {
         append.push(' ');
-        append.push_str(role);
+        push_escaped(role, &mut append, true);
       }
       tag.append_classes = Some(append);
     }
@@ -97,7 +97,7 @@ impl OpenTag {
     if let Some(prefix) = prefix {
       self.buf.push_str(prefix);
     }
-    self.buf.push_str(class.as_ref());
+    push_escaped(class.as_ref(), &mut self.buf, true);
   }
 
   pub fn push_resolved_attr_class(
diff --git a/backend/src/html/video.rs b/backend/src/html/video.rs
index 9af92b4..49c5ae3 100644
--- a/backend/src/html/video.rs
+++ b/backend/src/html/video.rs
@@ -1,7 +1,7 @@
 use asciidork_core::{iff, regx};
 use ast::{AttrData, AttrList, ReadAttr};
 
-use crate::html::backend::HtmlBackend;
+use crate::html::{backend::HtmlBackend, esc};
 
 pub(crate) fn element<B: HtmlBackend + ?Sized>(backend: &mut B, target: &str, attrs: &AttrList) {
   let poster = attrs.str_positional_at(0);
@@ -28,26 +28,32 @@ fn service<B: HtmlBackend + ?Sized>(
   if let Some(param) = provider.slash_param()
     && let Some((id, hash)) = target_parts
   {
-    backend.push([id, "?", param, "=", hash]);
+    backend.push([&esc(id), "?", param, "=", &esc(hash)]);
     param_pushed = true;
   } else if provider == Provider::YouTube && target.contains(",") {
     for (index, id) in target.split(",").enumerate() {
       if index == 0 {
-        backend.push([id, "?playlist=", id]);
+        backend.push([&esc(id), "?playlist=", &esc(id)]);
         param_pushed = true;
       } else {
-        backend.push([",", id]);
+        backend.push([",", &esc(id)]);
       }
     }
   } else if provider == Provider::YouTube
     && let Some(playlist) = attrs.named("playlist")
   {
-    backend.push([target, "?playlist=", target, ",", playlist]);
+    backend.push([
+      &esc(target),
+      "?playlist=",
+      &esc(target),
+      ",",
+      &esc(playlist),
+    ]);
     param_pushed = true;
   } else {
-    backend.push_str(target);
+    backend.push_str(&esc(target));
     if let Some(hash) = attrs.named("hash") {
-      backend.push([iff!(param_pushed, "&amp;", "?"), "h=", hash]);
+      backend.push([iff!(param_pushed, "&amp;", "?"), "h=", &esc(hash)]);
       param_pushed = true;
     }
   }
@@ -66,9 +72,9 @@ fn service<B: HtmlBackend + ?Sized>(
   // start param (last because vimeo uses # frag not &)
   if let Some(start) = attrs.named("start") {
     match provider {
-      Provider::YouTube => backend.push([iff!(param_pushed, "&amp;", "?"), "start=", start]),
-      Provider::Wistia => backend.push([iff!(param_pushed, "&amp;", "?"), "time=", start]),
-      Provider::Vimeo => backend.push(["#at=", start]),
+      Provider::YouTube => backend.push([iff!(param_pushed, "&amp;", "?"), "start=", &esc(start)]),
+      Provider::Wistia => backend.push([iff!(param_pushed, "&amp;", "?"), "time=", &esc(start)]),
+      Provider::Vimeo => backend.push(["#at=", &esc(start)]),
     }
   }
 
@@ -96,15 +102,15 @@ fn native_element<B: HtmlBackend + ?Sized>(
   if !regx::URI_SNIFF.is_match(target)
     && let Some(ref imagesdir) = imagesdir
   {
-    backend.push([imagesdir, "/"]);
+    backend.push([&esc(imagesdir), "/"]);
   }
-  backend.push_str(target);
+  backend.push_str(&esc(target));
   let start = attrs.named("start");
   let end = attrs.named("end");
   match (start, end) {
-    (None, Some(end)) => backend.push(["#t=,", end, "\""]),
-    (Some(start), None) => backend.push(["#t=", start, "\""]),
-    (Some(start), Some(end)) => backend.push(["#t=", start, ",", end, "\""]),
+    (None, Some(end)) => backend.push(["#t=,", &esc(end), "\""]),
+    (Some(start), None) => backend.push(["#t=", &esc(start), "\""]),
+    (Some(start), Some(end)) => backend.push(["#t=", &esc(start), ",", &esc(end), "\""]),
     (None, None) => backend.push_ch('"'),
   }
   push_dims(backend, attrs);
@@ -112,7 +118,7 @@ fn native_element<B: HtmlBackend + ?Sized>(
     if !regx::URI_SNIFF.is_match(poster)
       && let Some(ref imagesdir) = imagesdir
     {
-      backend.push([" poster=\"", imagesdir, "/", poster, "\""]);
+      backend.push([" poster=\"", &esc(imagesdir), "/", &esc(poster), "\""]);
     } else {
       backend.push_html_attr("poster", poster);
     }
@@ -147,15 +153,15 @@ fn more_youtube_params<B: HtmlBackend + ?Sized>(
   ]);
   *param_pushed = true;
   if let Some(theme) = attrs.named("theme") {
-    backend.push([iff!(*param_pushed, "&amp;theme=", "?theme="), theme]);
+    backend.push([iff!(*param_pushed, "&amp;theme=", "?theme="), &esc(theme)]);
     *param_pushed = true;
   }
   if let Some(lang) = attrs.named("lang") {
-    backend.push([iff!(*param_pushed, "&amp;hl=", "?hl="), lang]);
+    backend.push([iff!(*param_pushed, "&amp;hl=", "?hl="), &esc(lang)]);
     *param_pushed = true;
   }
   if let Some(end) = attrs.named("end") {
-    backend.push([iff!(*param_pushed, "&amp;end=", "?end="), end]);
+    backend.push([iff!(*param_pushed, "&amp;end=", "?end="), &esc(end)]);
     *param_pushed = true;
   }
   if attrs.has_option("nofullscreen") {
@@ -167,10 +173,10 @@ fn more_youtube_params<B: HtmlBackend + ?Sized>(
     *param_pushed = true;
   }
   if let Some(list) = attrs.named("list") {
-    backend.push([iff!(*param_pushed, "&amp;list=", "?list="), list]);
+    backend.push([iff!(*param_pushed, "&amp;list=", "?list="), &esc(list)]);
     *param_pushed = true;
   } else if attrs.has_option("loop") && !target.contains(['/', ',']) {
-    backend.push([iff!(*param_pushed, "&amp;", "?"), "playlist=", target]);
+    backend.push([iff!(*param_pushed, "&amp;", "?"), "playlist=", &esc(target)]);
     *param_pushed = true;
   }
 }
diff --git a/dr-html-backend/src/asciidoctor_html.rs b/dr-html-backend/src/asciidoctor_html.rs
index f1502f3..fc65098 100644
--- a/dr-html-backend/src/asciidoctor_html.rs
+++ b/dr-html-backend/src/asciidoctor_html.rs
@@ -120,7 +120,13 @@ impl Backend for AsciidoctorHtml {
       self.render_division_start("footer");
       if let Some(rev) = self.doc_meta.string("revnumber") {
         let label = self.doc_meta.string_or("version-label", "");
-        self.push([r#"<div id="footer-text">"#, &label, " ", &rev, "<br></div>"]);
+        self.push([
+          r#"<div id="footer-text">"#,
+          &label,
+          " ",
+          &esc(&rev),
+          "<br></div>",
+        ]);
       }
       // TODO: last-update-label
     }
@@ -160,12 +166,12 @@ impl Backend for AsciidoctorHtml {
     let id = &macro_block
       .and_then(|b| b.meta.attrs.id().map(|id| id.to_string()))
       .unwrap_or("toc".to_string());
-    self.push([r#"<div id=""#, id, r#"" class=""#]);
-    self.push_str(&self.doc_meta.string_or("toc-class", "toc"));
+    self.push([r#"<div id=""#, &esc(id), r#"" class=""#]);
+    self.push_str(&esc(&self.doc_meta.string_or("toc-class", "toc")));
     if !self.doc_meta.embedded && matches!(toc.position, TocPosition::Left | TocPosition::Right) {
       self.push_ch('2'); // `toc2` roughly means "toc-aside", per dr src
     }
-    self.push([r#""><div id=""#, id, r#"title""#]);
+    self.push([r#""><div id=""#, &esc(id), r#"title""#]);
     if macro_block.is_some() {
       self.push_str(r#" class="title""#);
     }
@@ -218,11 +224,11 @@ impl Backend for AsciidoctorHtml {
   fn enter_book_part_title(&mut self, title: &PartTitle) {
     self.push_str("<h1");
     if let Some(id) = &title.id {
-      self.push([r#" id=""#, id, "\""]);
+      self.push_verbatim_attr("id", id);
     }
     self.push_str(r#" class="sect0"#);
     for role in title.meta.attrs.roles() {
-      self.push([" ", role]);
+      self.push([" ", &esc(role)]);
     }
     self.push_str("\">");
     self.push_part_prefix();
@@ -357,9 +363,11 @@ impl Backend for AsciidoctorHtml {
     if block.meta.attrs.is_source() || doc_lang.is_some() {
       self.push_str(r#" class="highlight"><code"#);
       if let Some(lang) = block.meta.attrs.source_language() {
+        let lang = &esc(lang);
         self.push([" class=\"language-", lang, "\" data-lang=\"", lang, "\""]);
       } else if let Some(lang) = doc_lang {
-        self.push([" class=\"language-", &lang, "\" data-lang=\"", &lang, "\""]);
+        let lang = &esc(&lang);
+        self.push([" class=\"language-", lang, "\" data-lang=\"", lang, "\""]);
       }
       self.push_ch('>');
       self.state.ephemeral.insert(IsSourceBlock);
@@ -1077,13 +1085,14 @@ impl Backend for AsciidoctorHtml {
   #[instrument(skip_all)]
   fn visit_inline_anchor(&mut self, id: &str) {
     if !self.state.ephemeral.contains(&InTableOfContents) {
-      self.push(["<a id=\"", id, "\"></a>"]);
+      self.push(["<a id=\"", &esc(id), "\"></a>"]);
     }
   }
 
   #[instrument(skip_all)]
   fn visit_biblio_anchor(&mut self, id: &str, reftext: Option<&str>) {
-    self.push(["<a id=\"", id, "\"></a>[", reftext.unwrap_or(id), "]"]);
+    let reftext = esc(reftext.unwrap_or(id));
+    self.push(["<a id=\"", &esc(id), "\"></a>[", &reftext, "]"]);
   }
 
   #[instrument(skip_all)]
@@ -1106,7 +1115,7 @@ impl Backend for AsciidoctorHtml {
   #[instrument(skip_all)]
   fn visit_callout_tuck(&mut self, comment: &str) {
     if self.doc_meta.icon_mode() != IconMode::Font {
-      self.push_str(comment);
+      self.push_str(&esc(comment));
     }
   }
 
@@ -1117,7 +1126,7 @@ impl Backend for AsciidoctorHtml {
 
   #[instrument(skip_all)]
   fn visit_button_macro(&mut self, text: &SourceString) {
-    self.push([r#"<b class="button">"#, text, "</b>"])
+    self.push([r#"<b class="button">"#, &esc(text), "</b>"])
   }
 
   #[instrument(skip_all)]
@@ -1125,7 +1134,7 @@ impl Backend for AsciidoctorHtml {
     self.push_str(r#"<span class="icon"#);
     attrs.roles.iter().for_each(|role| {
       self.push_str(" ");
-      self.push_str(role);
+      self.push_str(&esc(role));
     });
     self.push_str(r#"">"#);
     let has_link = if let Some(link) = attrs.named("link") {
@@ -1140,14 +1149,14 @@ impl Backend for AsciidoctorHtml {
     match self.doc_meta.icon_mode() {
       IconMode::Text => {
         self.push_ch('[');
-        self.push_str(attrs.named("alt").unwrap_or(target));
+        self.push_str(&esc(attrs.named("alt").unwrap_or(target)));
         self.push_str("&#93;");
       }
       IconMode::Image => {
         self.push_str(r#"<img src=""#);
         self.push_icon_uri(target, None);
         self.push_str(r#"" alt=""#);
-        self.push_str(attrs.named("alt").unwrap_or(target));
+        self.push_str(&esc(attrs.named("alt").unwrap_or(target)));
         self.push_ch('"');
         self.push_named_attr("width", attrs);
         self.push_named_attr("title", attrs);
@@ -1155,15 +1164,15 @@ impl Backend for AsciidoctorHtml {
       }
       IconMode::Font => {
         self.push_str(r#"<i class="fa fa-"#);
-        self.push_str(target);
+        self.push_str(&esc(target));
         if let Some(size) = attrs.named("size").or(attrs.str_positional_at(0)) {
-          self.push([r#" fa-"#, size]);
+          self.push([r#" fa-"#, &esc(size)]);
         }
         if let Some(flip) = attrs.named("flip") {
-          self.push([r#" fa-flip-"#, flip]);
+          self.push([r#" fa-flip-"#, &esc(flip)]);
         }
         if let Some(rotate) = attrs.named("rotate") {
-          self.push([r#" fa-rotate-"#, rotate]);
+          self.push([r#" fa-rotate-"#, &esc(rotate)]);
         }
         self.push_ch('"');
         self.push_named_attr("title", attrs);
@@ -1196,7 +1205,7 @@ impl Backend for AsciidoctorHtml {
         self.push_img_path(target);
         a_tag.push_str(&std::mem::replace(&mut self.html, html));
       } else {
-        a_tag.push_str_attr_escaped(link_href);
+        a_tag.push_str(&esc(link_href));
       }
       a_tag.push_ch('"');
       a_tag.opened_classes = false;
@@ -1314,16 +1323,16 @@ impl Backend for AsciidoctorHtml {
   fn visit_menu_macro(&mut self, items: &[SourceString]) {
     let mut items = items.iter();
     self.push_str(r#"<span class="menuseq"><b class="menu">"#);
-    self.push_str(items.next().unwrap());
+    self.push_str(&esc(items.next().unwrap()));
     self.push_str("</b>");
 
     let last_idx = items.len().saturating_sub(1);
     for (idx, item) in items.enumerate() {
       self.push_str(r#"&#160;<b class="caret">&#8250;</b><b class=""#);
       if idx == last_idx {
-        self.push(["menuitem\">", item, "</b>"]);
+        self.push(["menuitem\">", &esc(item), "</b>"]);
       } else {
-        self.push(["submenu\">", item, "</b>"]);
+        self.push(["submenu\">", &esc(item), "</b>"]);
       }
     }
     self.push_str("</span>");
@@ -1347,7 +1356,7 @@ impl Backend for AsciidoctorHtml {
     {
       self.push_str(r#"<img src=""#);
       self.push_icon_img_path();
-      self.push_str(custom_icon);
+      self.push_str(&esc(custom_icon));
       if !file::has_ext(custom_icon) {
         self.push_icon_inferred_img_ext();
       }
@@ -1412,7 +1421,7 @@ impl Backend for AsciidoctorHtml {
       let mut a_tag = OpenTag::new("a", &NoAttrs);
       a_tag.push_class("image");
       a_tag.push_str("\" href=\"");
-      a_tag.push_str(href);
+      a_tag.push_str(&esc(href));
       a_tag.push_ch('"');
       a_tag.opened_classes = false;
       a_tag.push_link_attrs(img_attrs, true, false);
@@ -1493,7 +1502,7 @@ impl Backend for AsciidoctorHtml {
     let nums = num.to_string();
     self.push_str(r#"<sup class="footnote""#);
     if let Some(id) = id {
-      self.push([r#" id="_footnote_"#, id, "\""]);
+      self.push([r#" id="_footnote_"#, &esc(id), "\""]);
     }
     self.push_str(r#">[<a id="_footnoteref_"#);
     self.push([&nums, r##"" class="footnote" href="#_footnotedef_"##, &nums]);
@@ -1564,7 +1573,10 @@ impl AsciidoctorHtml {
 /// A description list item with neither description text nor attached blocks.
 fn is_bare_term(item: &ListItem) -> bool {
   item.blocks.is_empty()
-    && !matches!(&item.type_meta, ListItemTypeMeta::DescList { description: Some(_), .. })
+    && !matches!(
+      &item.type_meta,
+      ListItemTypeMeta::DescList { description: Some(_), .. }
+    )
 }
 
 impl AsciidoctorHtml {
@@ -1648,7 +1660,7 @@ impl AsciidoctorHtml {
       };
       self.push([
         r#"<link rel="stylesheet" href="https://fonts.googleapis.com/css?family="#,
-        family,
+        &esc(family),
         "\" />",
       ]);
     }
@@ -1673,7 +1685,7 @@ impl AsciidoctorHtml {
   fn push_admonition_img(&mut self, kind: AdmonitionKind, data_uri: Option<&str>, block: &Block) {
     self.push_str(r#"<img src=""#);
     if let Some(data_uri) = data_uri {
-      self.push_str(data_uri);
+      self.push_str(&esc(data_uri));
     } else {
       self.push_icon_uri(kind.lowercase_str(), None);
     }
@@ -1685,7 +1697,7 @@ impl AsciidoctorHtml {
   fn render_division_start(&mut self, id: &str) {
     self.push([r#"<div id=""#, id, "\""]);
     if let Some(max_width) = self.doc_meta.string("max-width") {
-      self.push([r#" style="max-width: "#, &max_width, r#";">"#]);
+      self.push([r#" style="max-width: "#, &esc(&max_width), r#";">"#]);
     } else {
       self.push_str(">");
     }
@@ -1709,7 +1721,7 @@ impl AsciidoctorHtml {
 
     if let Some(revnumber) = self.doc_meta.string("revnumber") {
       let label = self.doc_meta.string_or("version-label", "").to_lowercase();
-      self.push([r#"<span id="revnumber">"#, &label, " ", &revnumber]);
+      self.push([r#"<span id="revnumber">"#, &label, " ", &esc(&revnumber)]);
       if self.doc_meta.get("revdate").is_some() {
         self.push_str(",</span>");
       } else {
@@ -1717,10 +1729,10 @@ impl AsciidoctorHtml {
       }
     }
     if let Some(revdate) = self.doc_meta.string("revdate") {
-      self.push([r#"<span id="revdate">"#, &revdate, "</span>"]);
+      self.push([r#"<span id="revdate">"#, &esc(&revdate), "</span>"]);
     }
     if let Some(revremark) = self.doc_meta.string("revremark") {
-      self.push([r#"<br><span id="revremark">"#, &revremark, "</span>"]);
+      self.push([r#"<br><span id="revremark">"#, &esc(&revremark), "</span>"]);
     }
     self.push_str("</div>");
   }
@@ -1731,7 +1743,7 @@ impl AsciidoctorHtml {
       self.push_str(&(index + 1).to_string());
     }
     self.push_str(r#"" class="author">"#);
-    self.push_str(&author.fullname());
+    self.push_str(&esc(&author.fullname()));
     self.push_str("</span><br>");
 
     if let Some(email) = &author.email {
@@ -1740,9 +1752,9 @@ impl AsciidoctorHtml {
         self.push_str(&(index + 1).to_string());
       }
       self.push_str(r#"" class="email"><a href="mailto:"#);
-      self.push_str(email);
+      self.push_str(&esc(email));
       self.push_str(r#"">"#);
-      self.push_str(email);
+      self.push_str(&esc(email));
       self.push_str("</a></span><br>");
     }
   }
diff --git a/dr-html-backend/src/lib.rs b/dr-html-backend/src/lib.rs
index 391542b..99db60c 100644
--- a/dr-html-backend/src/lib.rs
+++ b/dr-html-backend/src/lib.rs
@@ -24,7 +24,7 @@ mod internal {
   pub use asciidork_core::*;
   pub use ast::prelude::*;
   pub use backend::html::backend::*;
-  pub use backend::html::{AltHtmlBuf, HtmlBuf, OpenTag};
+  pub use backend::html::{AltHtmlBuf, HtmlBuf, OpenTag, esc};
   pub use backend::prelude::*;
   pub use backend::utils;
 }
-- 
2.43.0


From 2a63365fcbee2e70329b6bb1f244126740899105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:05 +0000
Subject: [PATCH 044/182] fix: escape special characters in text taken
 literally

---
 .../src/tasks/parse_inlines/inline_utils.rs   | 53 +++++++++++++++++--
 parser/src/tasks/parse_inlines/mod.rs         |  2 +-
 2 files changed, 51 insertions(+), 4 deletions(-)

diff --git a/parser/src/tasks/parse_inlines/inline_utils.rs b/parser/src/tasks/parse_inlines/inline_utils.rs
index 07328d9..5182f9d 100644
--- a/parser/src/tasks/parse_inlines/inline_utils.rs
+++ b/parser/src/tasks/parse_inlines/inline_utils.rs
@@ -70,17 +70,59 @@ impl<'arena> Parser<'arena> {
 pub struct Accum<'arena> {
   pub inlines: InlineNodes<'arena>,
   pub text: CollectText<'arena>,
+  special_chars: bool,
 }
 
 impl<'arena> Accum<'arena> {
-  pub const fn new(inlines: InlineNodes<'arena>, text: CollectText<'arena>) -> Self {
-    Self { inlines, text }
+  pub fn new(inlines: InlineNodes<'arena>, text: CollectText<'arena>, subs: Substitutions) -> Self {
+    Self {
+      inlines,
+      text,
+      special_chars: subs.special_chars(),
+    }
   }
 }
 
 impl<'arena> Accum<'arena> {
   pub fn commit(&mut self) {
+    if self.special_chars && self.text.str().contains(['<', '>', '&']) {
+      self.commit_special_chars();
+    } else {
+      self.text.commit_inlines(&mut self.inlines);
+    }
+  }
+
+  /// text taken literally (escaped, or part of an unused construct) can still
+  /// contain special characters
+  fn commit_special_chars(&mut self) {
+    let src = self.text.take_src();
+    // not exact if the text is the value of an attribute
+    let push_text = |part: &str, text: &mut CollectText<'arena>| {
+      text.push_str(part);
+      text.loc.end = text.loc.end.min(src.loc.end);
+    };
+    self.text.loc = src.loc.clamp_start();
+    let mut start = 0;
+    for (idx, c) in src.src.char_indices() {
+      let kind = match c {
+        // an escaped arrow, can't be mistaken for a tag
+        '<' if src.src[idx + 1..].starts_with(['-', '=']) => continue,
+        '<' => SpecialCharKind::LessThan,
+        '>' => SpecialCharKind::GreaterThan,
+        '&' if !starts_entity(&src.src[idx..]) => SpecialCharKind::Ampersand,
+        _ => continue,
+      };
+      push_text(&src.src[start..idx], &mut self.text);
+      self.text.commit_inlines(&mut self.inlines);
+      let mut loc = self.text.loc;
+      loc.end = (loc.end + 1).min(src.loc.end);
+      self.inlines.push(InlineNode::new(Inline::SpecialChar(kind), loc));
+      self.text.loc = loc.clamp_end();
+      start = idx + 1;
+    }
+    push_text(&src.src[start..], &mut self.text);
     self.text.commit_inlines(&mut self.inlines);
+    self.text.loc = src.loc.clamp_end();
   }
 
   pub fn push_node(&mut self, node: Inline<'arena>, loc: SourceLocation) {
@@ -163,7 +205,7 @@ impl<'arena> Accum<'arena> {
       self.text.push_token(token);
     } else {
       // happens when ifdefs cause lines to be skipped
-      self.text.commit_inlines(&mut self.inlines);
+      self.commit();
       self.text.push_token(token);
       self.text.loc = token.loc;
     }
@@ -229,6 +271,11 @@ pub fn finish_macro<'arena>(
   }
 }
 
+fn starts_entity(s: &str) -> bool {
+  let end = s.find(|c: char| c != '&' && c != '#' && !c.is_ascii_alphanumeric());
+  end.is_some_and(|end| end > 1 && s[end..].starts_with(';'))
+}
+
 fn is_word_char(c: char) -> bool {
   c.is_alphanumeric() || c == '_'
 }
diff --git a/parser/src/tasks/parse_inlines/mod.rs b/parser/src/tasks/parse_inlines/mod.rs
index 50b920d..27e7a13 100644
--- a/parser/src/tasks/parse_inlines/mod.rs
+++ b/parser/src/tasks/parse_inlines/mod.rs
@@ -28,7 +28,7 @@ impl<'arena> Parser<'arena> {
     let span_loc = first_loc.clamp_start();
     let text = CollectText::new_in(span_loc, self.bump);
     let subs = self.ctx.subs;
-    let mut acc = Accum::new(inlines, text);
+    let mut acc = Accum::new(inlines, text, subs);
     let mut inline_attrs: Option<AttrList> = None;
 
     while let Some(mut line) = lines.consume_current() {
-- 
2.43.0


From 65605180ea0c2f36b870c77db76233fc410784ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:34 +0000
Subject: [PATCH 045/182] fix: balanced tags for verses with only a citation or
 a title

---
 backend-html5s/src/html5s.rs            | 4 ++--
 dr-html-backend/src/asciidoctor_html.rs | 5 +++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/backend-html5s/src/html5s.rs b/backend-html5s/src/html5s.rs
index 0ac3081..e995f23 100644
--- a/backend-html5s/src/html5s.rs
+++ b/backend-html5s/src/html5s.rs
@@ -437,11 +437,11 @@ impl Backend for Html5s {
     self.push_str(r#"<pre class="verse">"#);
   }
 
-  fn exit_verse_block(&mut self, block: &Block, has_attribution: bool) {
+  fn exit_verse_block(&mut self, _block: &Block, has_attribution: bool) {
     if has_attribution {
       self.push_str("</blockquote>");
     }
-    self.push_str(if block.has_title() { "</section>" } else { "</div>" });
+    self.push_str("</div>");
   }
 
   fn enter_example_block(&mut self, block: &Block) {
diff --git a/dr-html-backend/src/asciidoctor_html.rs b/dr-html-backend/src/asciidoctor_html.rs
index fc65098..a75d99e 100644
--- a/dr-html-backend/src/asciidoctor_html.rs
+++ b/dr-html-backend/src/asciidoctor_html.rs
@@ -447,11 +447,12 @@ impl Backend for AsciidoctorHtml {
   }
 
   #[instrument(skip_all)]
-  fn enter_quote_cite(&mut self, _block: &Block, has_attribution: bool) {
+  fn enter_quote_cite(&mut self, block: &Block, has_attribution: bool) {
     if has_attribution {
       self.push_str(r#"<br><cite>"#);
     } else {
-      self.push_str(r#"</blockquote><div class="attribution">&#8212; "#);
+      let content = iff!(block.context == BlockContext::Verse, "pre", "blockquote");
+      self.push(["</", content, r#"><div class="attribution">&#8212; "#]);
     }
   }
 
-- 
2.43.0


From 0a8e83d1f968ff5be4ffa2da434d5eef418befea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:47 +0000
Subject: [PATCH 046/182] fix: toc after a preamble that has no wrapper

---
 backend/src/html/backend.rs             | 2 ++
 dr-html-backend/src/asciidoctor_html.rs | 6 ++++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/backend/src/html/backend.rs b/backend/src/html/backend.rs
index f316e52..71a8267 100644
--- a/backend/src/html/backend.rs
+++ b/backend/src/html/backend.rs
@@ -25,6 +25,8 @@ pub struct BackendState {
   pub footnotes: Rc<RefCell<Vec<(Option<String>, String)>>>,
   /// html preceding each footnote currently being rendered
   pub footnote_outer_html: Vec<String>,
+  /// the preamble has a wrapper, only when the document has a title
+  pub in_preamble_wrapper: bool,
 }
 
 pub trait HtmlBackend: HtmlBuf {
diff --git a/dr-html-backend/src/asciidoctor_html.rs b/dr-html-backend/src/asciidoctor_html.rs
index a75d99e..0ad7571 100644
--- a/dr-html-backend/src/asciidoctor_html.rs
+++ b/dr-html-backend/src/asciidoctor_html.rs
@@ -159,7 +159,7 @@ impl Backend for AsciidoctorHtml {
 
   #[instrument(skip_all)]
   fn enter_toc(&mut self, toc: &TableOfContents, macro_block: Option<&Block>) {
-    if toc.position == TocPosition::Preamble {
+    if toc.position == TocPosition::Preamble && self.state.in_preamble_wrapper {
       self.push_str("</div>"); // close preamble section body
     }
     self.state.ephemeral.insert(InTableOfContents);
@@ -182,7 +182,7 @@ impl Backend for AsciidoctorHtml {
 
   #[instrument(skip_all)]
   fn exit_toc(&mut self, toc: &TableOfContents) {
-    if toc.position != TocPosition::Preamble {
+    if toc.position != TocPosition::Preamble || !self.state.in_preamble_wrapper {
       self.push_str("</div>");
     }
     self.on_toc_exit();
@@ -270,6 +270,7 @@ impl Backend for AsciidoctorHtml {
     if doc_has_title {
       self.push_str(r#"<div id="preamble"><div class="sectionbody">"#);
     }
+    self.state.in_preamble_wrapper = doc_has_title;
   }
 
   #[instrument(skip_all)]
@@ -277,6 +278,7 @@ impl Backend for AsciidoctorHtml {
     if doc_has_title {
       self.push_str("</div></div>");
     }
+    self.state.in_preamble_wrapper = false;
   }
 
   #[instrument(skip_all)]
-- 
2.43.0


From 27bc86c23c3820b1dea5711e9f59d25a638ae43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:04 +0000
Subject: [PATCH 047/182] fix: bound column repeats where the table is parsed

---
 parser/src/tasks/table/parse_table.rs      | 11 +++++++++++
 parser/src/tasks/table/parse_table_spec.rs |  4 ++--
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/parser/src/tasks/table/parse_table.rs b/parser/src/tasks/table/parse_table.rs
index cb044fe..9097f6e 100644
--- a/parser/src/tasks/table/parse_table.rs
+++ b/parser/src/tasks/table/parse_table.rs
@@ -7,6 +7,16 @@ use super::{DataFormat, TableTokens, context::*};
 use crate::internal::*;
 use crate::variants::token::*;
 
+/// a column can't be repeated more than `u16::MAX` times
+fn bounded_repeats(cols_attr: &str) -> bool {
+  cols_attr.split([';', ',']).all(|col| {
+    let col = col.trim_start();
+    let num_digits = col.bytes().take_while(u8::is_ascii_digit).count();
+    let repeats = col[num_digits..].is_empty() || col[num_digits..].starts_with('*');
+    !repeats || num_digits == 0 || col[..num_digits].parse::<u16>().is_ok()
+  })
+}
+
 impl<'arena> Parser<'arena> {
   pub(crate) fn parse_table(
     &mut self,
@@ -21,6 +31,7 @@ impl<'arena> Parser<'arena> {
     let col_specs = meta
       .attrs
       .named("cols")
+      .filter(|cols_attr| bounded_repeats(cols_attr))
       .map(|cols_attr| self.parse_col_specs(cols_attr))
       .unwrap_or_else(|| bvec![in self.bump]);
 
diff --git a/parser/src/tasks/table/parse_table_spec.rs b/parser/src/tasks/table/parse_table_spec.rs
index ffe4350..6a106b8 100644
--- a/parser/src/tasks/table/parse_table_spec.rs
+++ b/parser/src/tasks/table/parse_table_spec.rs
@@ -55,7 +55,7 @@ fn parse_col_spec(col_attr: &str, specs: &mut BumpVec<ColSpec>) {
   }
 
   if let Some(repeat_match) = captures.get(1) {
-    let repeat = repeat_match.as_str().parse::<u16>().unwrap_or(1);
+    let repeat = repeat_match.as_str().parse().unwrap_or(1);
     if repeat > 1 {
       for _ in 1..repeat {
         specs.push(spec.clone());
@@ -75,7 +75,7 @@ impl<'arena> Parser<'arena> {
     // not documented (afaik), but if it's only a number
     // asciidoctor treats it as a repeat of the default colspec
     if cols_attr.bytes().all(|b| b.is_ascii_digit()) {
-      let repeat = cols_attr.parse::<u16>().unwrap_or(1);
+      let repeat = cols_attr.parse().unwrap_or(1);
       for _ in 0..repeat {
         specs.push(ColSpec::default());
       }
-- 
2.43.0


From 24012978d2b8a9afdb5d78a79cc0d7b7275998ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:04 +0000
Subject: [PATCH 048/182] fix: escape keyboard keys, captions and html document
 titles

---
 backend-html5s/src/html5s.rs            | 2 +-
 backend/src/html/backend.rs             | 8 ++++----
 backend/src/html/htmlbuf.rs             | 5 +----
 dr-html-backend/src/asciidoctor_html.rs | 6 +++---
 4 files changed, 9 insertions(+), 12 deletions(-)

diff --git a/backend-html5s/src/html5s.rs b/backend-html5s/src/html5s.rs
index e995f23..d80f9cd 100644
--- a/backend-html5s/src/html5s.rs
+++ b/backend-html5s/src/html5s.rs
@@ -1206,7 +1206,7 @@ impl Backend for Html5s {
       if idx > 0 {
         self.push_ch('+');
       }
-      self.push(["<kbd class=\"key\">", key, "</kbd>"]);
+      self.push(["<kbd class=\"key\">", &esc(key), "</kbd>"]);
     }
     if keys.len() > 1 {
       self.push_str("</kbd>");
diff --git a/backend/src/html/backend.rs b/backend/src/html/backend.rs
index 71a8267..dc4b350 100644
--- a/backend/src/html/backend.rs
+++ b/backend/src/html/backend.rs
@@ -560,7 +560,7 @@ pub trait HtmlBackend: HtmlBuf {
 
   fn push_admonition_block_textlabel(&mut self, kind: AdmonitionKind, block: &Block) {
     if let Some(caption) = block.meta.attrs.named("caption") {
-      self.push_str(caption);
+      self.push_str(&esc(caption));
       return;
     }
 
@@ -571,7 +571,7 @@ pub trait HtmlBackend: HtmlBuf {
     let mut s = String::new();
     self.swapbuf(&mut s);
     if let Some(caption) = self.doc_meta().str(kind.caption_name()) {
-      s.push_str(caption);
+      s.push_str(&esc(caption));
     } else {
       s.push_str(kind.str());
     }
@@ -795,10 +795,10 @@ pub trait HtmlBackend: HtmlBuf {
   fn render_title(&mut self, document: &Document, attrs: &DocumentMeta) {
     self.push_str(r#"<title>"#);
     if let Some(title) = attrs.str("title") {
-      self.push_str(title);
+      self.push_str(&esc(title));
     } else if let Some(title) = document.title() {
       for s in title.main.plain_text() {
-        self.push_str(s);
+        self.push_str(&esc(s));
       }
     } else {
       self.push_str("Untitled");
diff --git a/backend/src/html/htmlbuf.rs b/backend/src/html/htmlbuf.rs
index 1138976..4044a69 100644
--- a/backend/src/html/htmlbuf.rs
+++ b/backend/src/html/htmlbuf.rs
@@ -201,13 +201,10 @@ pub fn esc(s: &str) -> Cow<'_, str> {
 }
 
 fn push_url_encoded(buf: &mut String, s: &str) {
-  for c in s.chars() {
+  for c in esc(s).chars() {
     match c {
       ' ' => buf.push_str("%20"),
       ',' => buf.push_str("%2C"),
-      '<' => buf.push_str("&lt;"),
-      '>' => buf.push_str("&gt;"),
-      '"' => buf.push_str("&quot;"),
       _ => buf.push(c),
     }
   }
diff --git a/dr-html-backend/src/asciidoctor_html.rs b/dr-html-backend/src/asciidoctor_html.rs
index 0ad7571..f67330b 100644
--- a/dr-html-backend/src/asciidoctor_html.rs
+++ b/dr-html-backend/src/asciidoctor_html.rs
@@ -590,7 +590,7 @@ impl Backend for AsciidoctorHtml {
         if let Some(labelwidth) = labelwidth {
           self.push_str(&format!(
             r#"<col style="width: {}%;">"#,
-            labelwidth.trim_end_matches('%')
+            esc(labelwidth.trim_end_matches('%'))
           ));
         } else {
           self.push_str("<col>");
@@ -598,7 +598,7 @@ impl Backend for AsciidoctorHtml {
         if let Some(itemwidth) = itemwidth {
           self.push_str(&format!(
             r#"<col style="width: {}%;">"#,
-            itemwidth.trim_end_matches('%')
+            esc(itemwidth.trim_end_matches('%'))
           ));
         } else {
           self.push_str("<col>");
@@ -1258,7 +1258,7 @@ impl Backend for AsciidoctorHtml {
       if idx > 0 {
         self.push_ch('+');
       }
-      self.push(["<kbd>", key, "</kbd>"]);
+      self.push(["<kbd>", &esc(key), "</kbd>"]);
     }
     if keys.len() > 1 {
       self.push_str("</span>");
-- 
2.43.0


From caa2811bb63835b380c92bd95c718d63b2d19ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:10 +0000
Subject: [PATCH 049/182] fix: html5s image and description list attributes
 stay inside their tag

---
 backend-html5s/src/html5s.rs | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/backend-html5s/src/html5s.rs b/backend-html5s/src/html5s.rs
index d80f9cd..f977cdb 100644
--- a/backend-html5s/src/html5s.rs
+++ b/backend-html5s/src/html5s.rs
@@ -576,8 +576,7 @@ impl Backend for Html5s {
     self.push_str("<dl");
     if is_qanda {
       self.push_str(r#" class="qanda""#);
-    }
-    if block.meta.attrs.special_sect() == Some(SpecialSection::Glossary) {
+    } else if block.meta.attrs.special_sect() == Some(SpecialSection::Glossary) {
       self.push_str(r#" class="glossary""#);
     } else if is_horizontal {
       self.push_str(r#" class="horizontal""#);
@@ -1143,7 +1142,9 @@ impl Backend for Html5s {
       false
     };
 
+    let tag_start = self.html.len();
     self.render_image(target, attrs, kind, false);
+    let mut img_attrs = String::new();
     let mut style = String::new();
     if let Some(align) = attrs.named("align") {
       style.push_str("text-align: ");
@@ -1160,23 +1161,17 @@ impl Backend for Html5s {
       style.push(';');
     }
     if !style.is_empty() {
-      self.html.pop();
-      self.push([" style=\"", &style, "\">"]);
+      img_attrs.push_str(&format!(" style=\"{}\"", esc(&style)));
     }
     if !attrs.roles.is_empty() {
-      self.html.pop();
-      self.push_str(" class=\"");
-      for role in attrs.roles.iter() {
-        self.push_str(&role.src);
-        self.push_ch(' ');
-      }
-      self.html.pop();
-      self.push_str("\">");
+      let roles = attrs.roles.iter().map(|r| r.src.as_str());
+      let roles = roles.collect::<Vec<_>>().join(" ");
+      img_attrs.push_str(&format!(" class=\"{}\"", esc(&roles)));
     }
     if attrs.named("loading") == Some("lazy") {
-      self.html.pop();
-      self.push_str(r#" loading="lazy">"#);
+      img_attrs.push_str(r#" loading="lazy""#);
     }
+    self.extend_tag(tag_start, &img_attrs);
     if with_link {
       self.push_str("</a>");
     }
@@ -1395,10 +1390,10 @@ impl Backend for Html5s {
       }
       has_link = true;
     }
+    let tag_start = self.html.len();
     self.render_image(img_target, img_attrs, img_kind, true);
     if img_attrs.named("loading") == Some("lazy") {
-      self.html.pop();
-      self.push_str(r#" loading="lazy">"#);
+      self.extend_tag(tag_start, r#" loading="lazy""#);
     }
     if has_link {
       self.push_str("</a>");
@@ -1576,6 +1571,13 @@ impl Html5s {
     self.state.footnotes = footnotes;
   }
 
+  /// add attributes to the tag starting at `tag_start`
+  fn extend_tag(&mut self, tag_start: usize, attrs: &str) {
+    if let Some(len) = self.html[tag_start..].find('>') {
+      self.html.insert_str(tag_start + len, attrs);
+    }
+  }
+
   fn render_author_detail(&mut self, author: &Author, index: usize) {
     self.push_str(r#"<span class="author" id="author"#);
     if index > 0 {
-- 
2.43.0


From fc0812d089ea799b6d0ba298545d439831674eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:19 +0000
Subject: [PATCH 050/182] fix: escape version labels and list start numbers

---
 backend-html5s/src/html5s.rs                   | 4 ++--
 backend/src/html/backend.rs                    | 2 +-
 dr-html-backend/src/asciidoctor_html.rs        | 2 +-
 parser/src/tasks/parse_inlines/inline_utils.rs | 5 +++--
 4 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/backend-html5s/src/html5s.rs b/backend-html5s/src/html5s.rs
index f977cdb..c3f0800 100644
--- a/backend-html5s/src/html5s.rs
+++ b/backend-html5s/src/html5s.rs
@@ -115,7 +115,7 @@ impl Backend for Html5s {
     self.push_str("<footer><div id=\"footer-text\">");
     if let Some(revnumber) = self.doc_meta.string("revnumber") {
       let label = self.doc_meta.string_or("version-label", "");
-      self.push([&label, " ", &esc(&revnumber)]);
+      self.push([&esc(&label), " ", &esc(&revnumber)]);
     }
     // TODO: last-update-label
     self.push_str("</div>");
@@ -1616,7 +1616,7 @@ impl Html5s {
 
     if let Some(revnumber) = self.doc_meta.string("revnumber") {
       let label = self.doc_meta.string_or("version-label", "").to_lowercase();
-      self.push([r#"<span id="revnumber">"#, &label, " ", &esc(&revnumber)]);
+      self.push([r#"<span id="revnumber">"#, &esc(&label), " ", &esc(&revnumber)]);
       if self.doc_meta.get("revdate").is_some() {
         self.push_str(",</span> ");
       } else {
diff --git a/backend/src/html/backend.rs b/backend/src/html/backend.rs
index dc4b350..68ba3ef 100644
--- a/backend/src/html/backend.rs
+++ b/backend/src/html/backend.rs
@@ -610,7 +610,7 @@ pub trait HtmlBackend: HtmlBuf {
     }
 
     if let Some(attr_start) = block.meta.attrs.named("start") {
-      self.push([" start=\"", attr_start, "\""]);
+      self.push_html_attr("start", attr_start);
     } else {
       match items[0].marker {
         ListMarker::Digits(1) => {}
diff --git a/dr-html-backend/src/asciidoctor_html.rs b/dr-html-backend/src/asciidoctor_html.rs
index f67330b..5a32a11 100644
--- a/dr-html-backend/src/asciidoctor_html.rs
+++ b/dr-html-backend/src/asciidoctor_html.rs
@@ -1724,7 +1724,7 @@ impl AsciidoctorHtml {
 
     if let Some(revnumber) = self.doc_meta.string("revnumber") {
       let label = self.doc_meta.string_or("version-label", "").to_lowercase();
-      self.push([r#"<span id="revnumber">"#, &label, " ", &esc(&revnumber)]);
+      self.push([r#"<span id="revnumber">"#, &esc(&label), " ", &esc(&revnumber)]);
       if self.doc_meta.get("revdate").is_some() {
         self.push_str(",</span>");
       } else {
diff --git a/parser/src/tasks/parse_inlines/inline_utils.rs b/parser/src/tasks/parse_inlines/inline_utils.rs
index 5182f9d..0fa4361 100644
--- a/parser/src/tasks/parse_inlines/inline_utils.rs
+++ b/parser/src/tasks/parse_inlines/inline_utils.rs
@@ -272,8 +272,9 @@ pub fn finish_macro<'arena>(
 }
 
 fn starts_entity(s: &str) -> bool {
-  let end = s.find(|c: char| c != '&' && c != '#' && !c.is_ascii_alphanumeric());
-  end.is_some_and(|end| end > 1 && s[end..].starts_with(';'))
+  let name = s[1..].strip_prefix('#').unwrap_or(&s[1..]);
+  let end = name.find(|c: char| !c.is_ascii_alphanumeric());
+  end.is_some_and(|end| end > 0 && name[end..].starts_with(';'))
 }
 
 fn is_word_char(c: char) -> bool {
-- 
2.43.0


From 46809fc284939b25067f96ff241fe15f9cebe77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:38 +0000
Subject: [PATCH 051/182] fix: callout list tables keep item blocks in their
 cell and their icon mode

---
 dr-html-backend/src/asciidoctor_html.rs | 31 +++++++++++++++++--------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/dr-html-backend/src/asciidoctor_html.rs b/dr-html-backend/src/asciidoctor_html.rs
index 5a32a11..cfcd48f 100644
--- a/dr-html-backend/src/asciidoctor_html.rs
+++ b/dr-html-backend/src/asciidoctor_html.rs
@@ -23,6 +23,7 @@ pub struct AsciidoctorHtml {
   example_caption_num: usize,
   listing_caption_num: usize,
   desc_list_styles: Vec<Option<EphemeralState>>,
+  callout_list_icons: Vec<IconMode>,
   state: BackendState,
 }
 
@@ -564,12 +565,15 @@ impl Backend for AsciidoctorHtml {
   fn enter_callout_list(&mut self, block: &Block, _items: &[ListItem], _depth: u8) {
     self.autogen_conum = 1;
     self.open_element("div", &["colist arabic"], &block.meta.attrs);
-    self.push_str(if self.doc_meta.icon_mode() != IconMode::Text { "<table>" } else { "<ol>" });
+    let icon_mode = self.doc_meta.icon_mode();
+    self.push_str(if icon_mode != IconMode::Text { "<table>" } else { "<ol>" });
+    self.callout_list_icons.push(icon_mode);
   }
 
   #[instrument(skip_all)]
   fn exit_callout_list(&mut self, _block: &Block, _items: &[ListItem], _depth: u8) {
-    self.push_str(if self.doc_meta.icon_mode() != IconMode::Text {
+    let icon_mode = self.callout_list_icons.pop();
+    self.push_str(if icon_mode != Some(IconMode::Text) {
       "</table></div>"
     } else {
       "</ol></div>"
@@ -706,14 +710,14 @@ impl Backend for AsciidoctorHtml {
 
   #[instrument(skip_all)]
   fn enter_list_item_principal(&mut self, item: &ListItem, list_variant: ListVariant) {
-    if list_variant != ListVariant::Callout || self.doc_meta.icon_mode() == IconMode::Text {
+    if !self.is_callout_table(list_variant) {
       self.push_str("<li><p>");
       self.render_checklist_item(item);
     } else {
       self.push_str("<tr><td>");
       let n = item.marker.callout_num().unwrap_or(self.autogen_conum);
       self.autogen_conum = n.saturating_add(1);
-      if self.doc_meta.icon_mode() == IconMode::Font {
+      if self.callout_list_icons.last() == Some(&IconMode::Font) {
         self.push_callout_number_font(n);
       } else {
         self.push_callout_number_img(n);
@@ -724,10 +728,8 @@ impl Backend for AsciidoctorHtml {
 
   #[instrument(skip_all)]
   fn exit_list_item_principal(&mut self, _item: &ListItem, list_variant: ListVariant) {
-    if list_variant != ListVariant::Callout || self.doc_meta.icon_mode() == IconMode::Text {
+    if !self.is_callout_table(list_variant) {
       self.push_str("</p>");
-    } else {
-      self.push_str("</td>");
     }
   }
 
@@ -736,10 +738,10 @@ impl Backend for AsciidoctorHtml {
 
   #[instrument(skip_all)]
   fn exit_list_item_blocks(&mut self, _blocks: &[Block], _items: &ListItem, variant: ListVariant) {
-    if variant != ListVariant::Callout || self.doc_meta.icon_mode() == IconMode::Text {
+    if !self.is_callout_table(variant) {
       self.push_str("</li>");
     } else {
-      self.push_str("</tr>");
+      self.push_str("</td></tr>");
     }
   }
 
@@ -1671,6 +1673,10 @@ impl AsciidoctorHtml {
     self.render_embedded_stylesheet(crate::css::DEFAULT);
   }
 
+  fn is_callout_table(&self, list_variant: ListVariant) -> bool {
+    list_variant == ListVariant::Callout && self.callout_list_icons.last() != Some(&IconMode::Text)
+  }
+
   fn render_checklist_item(&mut self, item: &ListItem) {
     if let ListItemTypeMeta::Checklist(checked, _) = &item.type_meta {
       match (
@@ -1724,7 +1730,12 @@ impl AsciidoctorHtml {
 
     if let Some(revnumber) = self.doc_meta.string("revnumber") {
       let label = self.doc_meta.string_or("version-label", "").to_lowercase();
-      self.push([r#"<span id="revnumber">"#, &esc(&label), " ", &esc(&revnumber)]);
+      self.push([
+        r#"<span id="revnumber">"#,
+        &esc(&label),
+        " ",
+        &esc(&revnumber),
+      ]);
       if self.doc_meta.get("revdate").is_some() {
         self.push_str(",</span>");
       } else {
-- 
2.43.0


From 98c0a97ceb3a9d31669bf0c938e825e8ad195079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:38 +0000
Subject: [PATCH 052/182] fix: escape special characters of invalid index terms

---
 parser/src/tasks/parse_inlines/inline_utils.rs | 12 ++++++++++++
 parser/src/tasks/parse_inlines/mod.rs          |  4 ++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/parser/src/tasks/parse_inlines/inline_utils.rs b/parser/src/tasks/parse_inlines/inline_utils.rs
index 0fa4361..c4584f7 100644
--- a/parser/src/tasks/parse_inlines/inline_utils.rs
+++ b/parser/src/tasks/parse_inlines/inline_utils.rs
@@ -131,6 +131,18 @@ impl<'arena> Accum<'arena> {
     self.text.loc = loc.clamp_end();
   }
 
+  pub fn push_text_or_node(&mut self, node: Inline<'arena>, loc: SourceLocation) {
+    if let Inline::Text(text) = node {
+      self.commit();
+      self.text.loc = loc.clamp_start();
+      self.text.push_str(&text);
+      self.commit();
+      self.text.loc = loc.clamp_end();
+    } else {
+      self.push_node(node, loc);
+    }
+  }
+
   pub fn push_emdash(&mut self, token: Token, next_token: Option<&mut Token>) {
     let last_char = self.text.str().chars().next_back();
     let next_char = next_token.as_ref().and_then(|t| t.lexeme.chars().next());
diff --git a/parser/src/tasks/parse_inlines/mod.rs b/parser/src/tasks/parse_inlines/mod.rs
index 27e7a13..b137531 100644
--- a/parser/src/tasks/parse_inlines/mod.rs
+++ b/parser/src/tasks/parse_inlines/mod.rs
@@ -321,11 +321,11 @@ impl<'arena> Parser<'arena> {
               }
               "indexterm:" => {
                 let (node, loc) = self.parse_index_term_macro(false, &token, &mut line)?;
-                acc.push_node(node, loc);
+                acc.push_text_or_node(node, loc);
               }
               "indexterm2:" => {
                 let (node, loc) = self.parse_index_term_macro(true, &token, &mut line)?;
-                acc.push_node(node, loc);
+                acc.push_text_or_node(node, loc);
               }
               _ => {
                 let mut name = token.lexeme;
-- 
2.43.0


From 4506767bfa8d4995b29d40991493d2f5240c6f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:23 +0000
Subject: [PATCH 053/182] fix: escape version label in the footer, strict
 entities

---
 dr-html-backend/src/asciidoctor_html.rs        | 2 +-
 parser/src/tasks/parse_inlines/inline_utils.rs | 8 ++++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/dr-html-backend/src/asciidoctor_html.rs b/dr-html-backend/src/asciidoctor_html.rs
index cfcd48f..d5183e8 100644
--- a/dr-html-backend/src/asciidoctor_html.rs
+++ b/dr-html-backend/src/asciidoctor_html.rs
@@ -123,7 +123,7 @@ impl Backend for AsciidoctorHtml {
         let label = self.doc_meta.string_or("version-label", "");
         self.push([
           r#"<div id="footer-text">"#,
-          &label,
+          &esc(&label),
           " ",
           &esc(&rev),
           "<br></div>",
diff --git a/parser/src/tasks/parse_inlines/inline_utils.rs b/parser/src/tasks/parse_inlines/inline_utils.rs
index c4584f7..fe5cb4c 100644
--- a/parser/src/tasks/parse_inlines/inline_utils.rs
+++ b/parser/src/tasks/parse_inlines/inline_utils.rs
@@ -284,8 +284,12 @@ pub fn finish_macro<'arena>(
 }
 
 fn starts_entity(s: &str) -> bool {
-  let name = s[1..].strip_prefix('#').unwrap_or(&s[1..]);
-  let end = name.find(|c: char| !c.is_ascii_alphanumeric());
+  let (name, valid): (&str, fn(&char) -> bool) = match s[1..].strip_prefix('#') {
+    Some(hex) if hex.starts_with('x') => (&hex[1..], char::is_ascii_hexdigit),
+    Some(digits) => (digits, char::is_ascii_digit),
+    None => (&s[1..], char::is_ascii_alphanumeric),
+  };
+  let end = name.find(|c: char| !valid(&c));
   end.is_some_and(|end| end > 0 && name[end..].starts_with(';'))
 }
 
-- 
2.43.0


From ad2d02615654f877fef7604d3bc39425b1d098ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:46 +0000
Subject: [PATCH 054/182] fix: escape captions, signifiers, toc titles,
 document titles and unresolved includes

---
 backend-html5s/src/html5s.rs                             | 6 +++---
 backend/src/html/backend.rs                              | 8 ++++----
 dr-html-backend/src/asciidoctor_html.rs                  | 6 +++---
 parser/src/tasks/directives/includes/process_includes.rs | 9 ++++++++-
 4 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/backend-html5s/src/html5s.rs b/backend-html5s/src/html5s.rs
index c3f0800..a673650 100644
--- a/backend-html5s/src/html5s.rs
+++ b/backend-html5s/src/html5s.rs
@@ -165,7 +165,7 @@ impl Backend for Html5s {
       &esc(id),
       r#"-title">"#,
     ]);
-    self.push_str(&toc.title);
+    self.push_str(&esc(&toc.title));
     self.push([r#"</h"#, &num_str!(level), ">"]);
   }
 
@@ -1528,13 +1528,13 @@ impl Html5s {
       _ => ("", ""),
     };
     if let Some(custom_caption) = block.meta.attrs.named("caption") {
-      self.push([open, custom_caption, title, close]);
+      self.push([open, &esc(custom_caption), title, close]);
     } else if let Some(caption) = block
       .context
       .caption_attr_name()
       .and_then(|attr_name| self.doc_meta.string(attr_name))
     {
-      self.push([open, &caption, " "]);
+      self.push([open, &esc(&caption), " "]);
       let num = match block.context {
         BlockContext::Table => incr(&mut self.table_caption_num),
         BlockContext::Image => incr(&mut self.fig_caption_num),
diff --git a/backend/src/html/backend.rs b/backend/src/html/backend.rs
index 68ba3ef..5ae54b0 100644
--- a/backend/src/html/backend.rs
+++ b/backend/src/html/backend.rs
@@ -344,7 +344,7 @@ pub trait HtmlBackend: HtmlBuf {
         .and_then(|t| t.attrs.named("reftext"))
         .unwrap_or_else(|| self.doc_meta().str("doctitle").unwrap_or("[^top]"))
         .to_string();
-      self.push_str(&doctitle);
+      self.push_str(&esc(&doctitle));
     } else if utils::xref::is_interdoc(target, kind) {
       let href = utils::xref::href(target, self.doc_meta(), kind, false);
       self.push_str(&esc(utils::xref::remove_leading_hash(&href)));
@@ -460,7 +460,7 @@ pub trait HtmlBackend: HtmlBuf {
 
   fn push_appendix_caption(&mut self) {
     if let Some(appendix_caption) = self.doc_meta().string("appendix-caption") {
-      self.push([&appendix_caption, " "]);
+      self.push([&*esc(&appendix_caption), " "]);
     }
 
     let letter = (self.state().appendix_caption_num + b'A') as char;
@@ -508,7 +508,7 @@ pub trait HtmlBackend: HtmlBuf {
         && self.doc_meta().get_doctype() == DocType::Book
         && let Some(chapter_signifier) = self.doc_meta().string("chapter-signifier")
       {
-        self.push([&chapter_signifier, " "]);
+        self.push([&*esc(&chapter_signifier), " "]);
       }
       self.push_section_number_prefix(level);
     }
@@ -549,7 +549,7 @@ pub trait HtmlBackend: HtmlBuf {
       let largest_representable_roman = 3999;
       if part_num <= largest_representable_roman {
         if let Some(part_signifier) = self.doc_meta().string("part-signifier") {
-          self.push([&part_signifier, " "]);
+          self.push([&*esc(&part_signifier), " "]);
         }
         let roman = &to_roman_numeral(part_num as u16).unwrap();
         self.push_str(roman);
diff --git a/dr-html-backend/src/asciidoctor_html.rs b/dr-html-backend/src/asciidoctor_html.rs
index d5183e8..c97b7bc 100644
--- a/dr-html-backend/src/asciidoctor_html.rs
+++ b/dr-html-backend/src/asciidoctor_html.rs
@@ -177,7 +177,7 @@ impl Backend for AsciidoctorHtml {
       self.push_str(r#" class="title""#);
     }
     self.push_ch('>');
-    self.push_str(&toc.title);
+    self.push_str(&esc(&toc.title));
     self.push_str("</div>");
   }
 
@@ -1607,13 +1607,13 @@ impl AsciidoctorHtml {
       self.push_str(r#"<div class="title">"#);
     }
     if let Some(custom_caption) = block.meta.attrs.named("caption") {
-      self.push_str(custom_caption);
+      self.push_str(&esc(custom_caption));
     } else if let Some(caption) = block
       .context
       .caption_attr_name()
       .and_then(|attr_name| self.doc_meta.string(attr_name))
     {
-      self.push_str(&caption);
+      self.push_str(&esc(&caption));
       self.push_ch(' ');
       let num = match block.context {
         BlockContext::Table => incr(&mut self.table_caption_num),
diff --git a/parser/src/tasks/directives/includes/process_includes.rs b/parser/src/tasks/directives/includes/process_includes.rs
index 7f78554..8d97300 100644
--- a/parser/src/tasks/directives/includes/process_includes.rs
+++ b/parser/src/tasks/directives/includes/process_includes.rs
@@ -124,7 +124,14 @@ impl<'arena> Parser<'arena> {
         msg.push_str(self.lexer.source_file().file_name());
         msg.push_str(" - ");
         let offset = directive.first_token.loc.start + msg.len() as u32;
-        msg.push_str(directive.line_src.as_str());
+        for c in directive.line_src.chars() {
+          match c {
+            '<' => msg.push_str("&lt;"),
+            '>' => msg.push_str("&gt;"),
+            '&' => msg.push_str("&amp;"),
+            _ => msg.push(c),
+          }
+        }
         msg.push_str("+++\n");
         self.lexer.set_tmp_buf(&msg, BufLoc::Offset(offset));
         Ok(DirectiveAction::ReadNextLine)
-- 
2.43.0


From c606b0f8c285839440f5ed01e0fe17babad6b3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:05 +0000
Subject: [PATCH 055/182] fix: emit unresolved include directives as ordinary
 text

---
 .../tasks/directives/includes/process_includes.rs   | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/parser/src/tasks/directives/includes/process_includes.rs b/parser/src/tasks/directives/includes/process_includes.rs
index 8d97300..0c3e246 100644
--- a/parser/src/tasks/directives/includes/process_includes.rs
+++ b/parser/src/tasks/directives/includes/process_includes.rs
@@ -120,19 +120,12 @@ impl<'arena> Parser<'arena> {
       }
       Err(err @ ResolveError::NotFound | err @ ResolveError::Io(..)) => {
         self.target_err(format!("Include error: {err}"), &directive)?;
-        let mut msg = self.string("+++Unresolved directive in ");
+        let mut msg = self.string("Unresolved directive in ");
         msg.push_str(self.lexer.source_file().file_name());
         msg.push_str(" - ");
         let offset = directive.first_token.loc.start + msg.len() as u32;
-        for c in directive.line_src.chars() {
-          match c {
-            '<' => msg.push_str("&lt;"),
-            '>' => msg.push_str("&gt;"),
-            '&' => msg.push_str("&amp;"),
-            _ => msg.push(c),
-          }
-        }
-        msg.push_str("+++\n");
+        msg.push_str(directive.line_src.as_str());
+        msg.push('\n');
         self.lexer.set_tmp_buf(&msg, BufLoc::Offset(offset));
         Ok(DirectiveAction::ReadNextLine)
       }
-- 
2.43.0


From d6efe34bb5abe4e25647b48ab805c0d038481f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:00 +0000
Subject: [PATCH 056/182] fix: inline passthroughs, anchors, xrefs and hard
 breaks honour the block's substitutions

---
 parser/src/tasks/parse_inlines/mod.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/parser/src/tasks/parse_inlines/mod.rs b/parser/src/tasks/parse_inlines/mod.rs
index b137531..35e8413 100644
--- a/parser/src/tasks/parse_inlines/mod.rs
+++ b/parser/src/tasks/parse_inlines/mod.rs
@@ -65,7 +65,7 @@ impl<'arena> Parser<'arena> {
           return self.finish_inlines(acc, inline_attrs);
         }
 
-        if line.may_contain_inline_pass() {
+        if subs.macros() && line.may_contain_inline_pass() {
           self.replace_inline_pass(&mut line, lines)?;
           break;
         }
@@ -450,7 +450,7 @@ impl<'arena> Parser<'arena> {
             acc.push_node(SpecialChar(SpecialCharKind::GreaterThan), end);
           }
 
-          LessThan if line.continues_xref_shorthand() => {
+          LessThan if subs.macros() && line.continues_xref_shorthand() => {
             let mut loc = token.loc;
             line.discard_assert(LessThan);
             let mut inner = line.extract_line_before(&[Kind(GreaterThan), Kind(GreaterThan)]);
@@ -573,7 +573,8 @@ impl<'arena> Parser<'arena> {
           }
 
           OpenBracket
-            if line.starts_with_seq(&[Kind(OpenBracket); 2])
+            if subs.macros()
+              && line.starts_with_seq(&[Kind(OpenBracket); 2])
               && self.ctx.bibliography_ctx == BiblioContext::List
               && line.index_of_seq(&[Kind(CloseBracket); 3]).is_some_and(|end| {
                 line.index_of_seq(&[Kind(CloseBracket)]) == Some(end)
@@ -599,7 +600,7 @@ impl<'arena> Parser<'arena> {
             acc.push_text_token(&token);
           }
 
-          OpenBracket if line.continues_inline_anchor() => {
+          OpenBracket if subs.macros() && line.continues_inline_anchor() => {
             let second_bracket = line.consume_current().unwrap();
             if let Some(anchor) = self.parse_inline_anchor(&mut line)? {
               self.insert_anchor(
@@ -808,7 +809,8 @@ impl<'arena> Parser<'arena> {
           }
 
           Whitespace
-            if line.current_is(Plus)
+            if subs.post_replacement()
+              && line.current_is(Plus)
               && line
                 .peek_token()
                 .is_none_or(|t| t.kind == TokenKind::Newline) =>
-- 
2.43.0


From 5d76063c0a5cfe8a7b91962717f897753ad565aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:54 +0000
Subject: [PATCH 057/182] fix: keep backslashes in verbatim content

---
 parser/src/tasks/parse_inlines/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/parser/src/tasks/parse_inlines/mod.rs b/parser/src/tasks/parse_inlines/mod.rs
index 35e8413..1e5846a 100644
--- a/parser/src/tasks/parse_inlines/mod.rs
+++ b/parser/src/tasks/parse_inlines/mod.rs
@@ -834,7 +834,13 @@ impl<'arena> Parser<'arena> {
 
           AttrRef => {}
 
-          Backslash => {
+          Backslash
+            if subs.inline_formatting()
+              || subs.attr_refs()
+              || subs.char_replacement()
+              || subs.macros()
+              || (subs.callouts() && line.current_is(CalloutNumber)) =>
+          {
             match line.current_token().map(|t| (t.kind, t.len())) {
               Some((Word, _)) | None => acc.push_text_token(&token),
               // nothing left on the line to escape
-- 
2.43.0


From b0e5bd1e0e6a2af4a90fdb097eada960d95167af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:57 +0000
Subject: [PATCH 058/182] fix: the indent attribute reindents every line of a
 block

---
 parser/src/contiguous_lines.rs  | 6 +-----
 parser/src/tasks/parse_block.rs | 5 ++---
 2 files changed, 3 insertions(+), 8 deletions(-)

diff --git a/parser/src/contiguous_lines.rs b/parser/src/contiguous_lines.rs
index 2cf59da..625b5a0 100644
--- a/parser/src/contiguous_lines.rs
+++ b/parser/src/contiguous_lines.rs
@@ -292,10 +292,6 @@ impl<'arena> ContiguousLines<'arena> {
     Self::min_indentation(self.lines.iter())
   }
 
-  pub fn set_indentation(&mut self, indent: usize) {
-    self.reindent_first(self.len(), indent);
-  }
-
   /// remove the indentation shared by the lines of an indented paragraph
   pub fn trim_paragraph_indentation(&mut self) {
     let len = self
@@ -313,7 +309,7 @@ impl<'arena> ContiguousLines<'arena> {
     lines.map(Line::get_indentation).min().unwrap_or(0)
   }
 
-  fn reindent_first(&mut self, len: usize, indent: usize) {
+  pub fn reindent_first(&mut self, len: usize, indent: usize) {
     let current = Self::min_indentation(self.lines.iter().take(len));
     if current == indent {
       return;
diff --git a/parser/src/tasks/parse_block.rs b/parser/src/tasks/parse_block.rs
index e12594c..2d3d592 100644
--- a/parser/src/tasks/parse_block.rs
+++ b/parser/src/tasks/parse_block.rs
@@ -394,9 +394,8 @@ impl<'arena> Parser<'arena> {
         .named("indent")
         .and_then(|s| s.parse::<u16>().ok())
       {
-        let delimiter = lines.pop();
-        lines.set_indentation(indent as usize);
-        delimiter.map(|d| lines.push(d));
+        let len = lines.iter().take_while(|l| !l.is_delimiter(delimiter)).count();
+        lines.reindent_first(len, indent as usize);
       }
 
       if (context == Context::Listing || context == Context::Literal)
-- 
2.43.0


From dc00f189ad4c0c195e98cd04b0dcdca75af1edcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:57 +0000
Subject: [PATCH 059/182] fix: an indented paragraph is literal, even if it
 looks like an admonition

---
 parser/src/chunk.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/src/chunk.rs b/parser/src/chunk.rs
index 6b9dc7a..c7c9b9e 100644
--- a/parser/src/chunk.rs
+++ b/parser/src/chunk.rs
@@ -20,7 +20,8 @@ impl<'arena> ChunkMetaExt<'arena> for ChunkMeta<'arena> {
     }
 
     // handle inline admonitions, e.g. `TIP: never start a land war in asia`
-    if lines
+    if !uniform_indented
+      && lines
       .current()
       .map(|line| line.starts_with_seq(&[Kind(Word), Kind(Colon), Kind(Whitespace)]))
       .unwrap_or(false)
-- 
2.43.0


From fb3d241dd031e866652d61b7cf7d0bc2f62e7f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:57 +0000
Subject: [PATCH 060/182] fix: keep the newlines of raw passthrough blocks

---
 dr-html-backend/src/asciidoctor_html.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dr-html-backend/src/asciidoctor_html.rs b/dr-html-backend/src/asciidoctor_html.rs
index c97b7bc..443bcf8 100644
--- a/dr-html-backend/src/asciidoctor_html.rs
+++ b/dr-html-backend/src/asciidoctor_html.rs
@@ -333,7 +333,8 @@ impl Backend for AsciidoctorHtml {
 
   #[instrument(skip_all)]
   fn enter_simple_block_content(&mut self, block: &Block) {
-    if block.context == BlockContext::Verse {
+    let raw = block.context == BlockContext::Passthrough && block.meta.attrs.named("subs").is_none();
+    if block.context == BlockContext::Verse || raw {
       self.newlines = Newlines::Preserve;
     } else if block.meta.attrs.has_option("hardbreaks") {
       self.newlines = Newlines::JoinWithBreak;
-- 
2.43.0


From 5c2ff52394a2ec99304201086d86f5e9977edd86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:57 +0000
Subject: [PATCH 061/182] fix: escape entities and unescape directives in
 verbatim content

---
 parser/src/lexer/root_lexer.rs        |  4 ++++
 parser/src/tasks/parse_inlines/mod.rs | 14 ++++++++++++--
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/parser/src/lexer/root_lexer.rs b/parser/src/lexer/root_lexer.rs
index 0a27f66..3094ebf 100644
--- a/parser/src/lexer/root_lexer.rs
+++ b/parser/src/lexer/root_lexer.rs
@@ -158,6 +158,10 @@ impl<'arena> RootLexer<'arena> {
     self.sources[include_depth as usize].byte_at(pos)
   }
 
+  pub fn at_line_start(&self, loc: SourceLocation) -> bool {
+    matches!(self.char_before(loc), None | Some('\n'))
+  }
+
   pub fn char_before(&self, loc: SourceLocation) -> Option<char> {
     self.sources[loc.include_depth as usize].char_before(loc.start)
   }
diff --git a/parser/src/tasks/parse_inlines/mod.rs b/parser/src/tasks/parse_inlines/mod.rs
index 1e5846a..6429bf9 100644
--- a/parser/src/tasks/parse_inlines/mod.rs
+++ b/parser/src/tasks/parse_inlines/mod.rs
@@ -776,10 +776,19 @@ impl<'arena> Parser<'arena> {
           }
 
           // already encoded entities, eg: &#8212;
-          Ampersand if line.starts_with_seq(&[Kind(Hash), Kind(Digits), Kind(SemiColon)]) => {
+          Ampersand
+            if (subs.char_replacement() || !subs.special_chars())
+              && line.starts_with_seq(&[Kind(Hash), Kind(Digits), Kind(SemiColon)]) => {
             acc.push_text_token(&token);
           }
 
+          Entity if subs.special_chars() && !subs.char_replacement() => {
+            let mut amp_loc = token.loc;
+            amp_loc.end = amp_loc.start + 1;
+            acc.push_node(SpecialChar(SpecialCharKind::Ampersand), amp_loc);
+            acc.text.push_str(&token.lexeme[1..]);
+          }
+
           Ampersand | LessThan | GreaterThan if subs.special_chars() => {
             acc.push_node(
               SpecialChar(match token.kind {
@@ -839,7 +848,8 @@ impl<'arena> Parser<'arena> {
               || subs.attr_refs()
               || subs.char_replacement()
               || subs.macros()
-              || (subs.callouts() && line.current_is(CalloutNumber)) =>
+              || (subs.callouts() && line.current_is(CalloutNumber))
+              || (line.current_is(Directive) && self.lexer.at_line_start(token.loc)) =>
           {
             match line.current_token().map(|t| (t.kind, t.len())) {
               Some((Word, _)) | None => acc.push_text_token(&token),
-- 
2.43.0


From 262c1331c0d76102a68d974772ad6f535d18b686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:34 +0000
Subject: [PATCH 062/182] fix: attribute entries and comment lines are not
 recognised in verbatim blocks

---
 parser/src/delimiter.rs               | 12 ++++++++++++
 parser/src/parse_context.rs           |  4 ++++
 parser/src/parser.rs                  | 13 ++++++++++++-
 parser/src/tasks/parse_block.rs       |  1 +
 parser/src/tasks/parse_inlines/mod.rs |  2 +-
 parser/src/tasks/table/parse_table.rs |  1 +
 6 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/parser/src/delimiter.rs b/parser/src/delimiter.rs
index 01f315d..8a7a15a 100644
--- a/parser/src/delimiter.rs
+++ b/parser/src/delimiter.rs
@@ -18,6 +18,18 @@ pub struct Delimiter {
   pub len: u8,
 }
 
+impl Delimiter {
+  pub const fn is_verbatim(&self) -> bool {
+    matches!(
+      self.kind,
+      DelimiterKind::Listing
+        | DelimiterKind::Literal
+        | DelimiterKind::Passthrough
+        | DelimiterKind::Comment
+    )
+  }
+}
+
 impl From<DelimiterKind> for BlockContext {
   fn from(delimiter: DelimiterKind) -> Self {
     match delimiter {
diff --git a/parser/src/parse_context.rs b/parser/src/parse_context.rs
index 00e4efc..baf821d 100644
--- a/parser/src/parse_context.rs
+++ b/parser/src/parse_context.rs
@@ -23,6 +23,8 @@ pub struct ParseContext<'arena> {
   pub max_include_depth: u16,
   pub ifdef_stack: BumpVec<'arena, BumpString<'arena>>,
   pub comment_delim_in_lines: bool,
+  /// the delimiter of the verbatim block the last line read belongs to
+  pub verbatim_delim: Option<Delimiter>,
   pub in_header: bool,
   pub in_markdown_blockquote: bool,
   pub attr_defs: BumpVec<'arena, AttrDef>,
@@ -93,6 +95,7 @@ impl<'arena> ParseContext<'arena> {
       inline_ctx: InlineCtx::None,
       max_include_depth: 64,
       comment_delim_in_lines: false,
+      verbatim_delim: None,
       ifdef_stack: BumpVec::new_in(bump),
       attr_defs: BumpVec::new_in(bump),
       in_header: false,
@@ -121,6 +124,7 @@ impl<'arena> ParseContext<'arena> {
       inline_ctx: InlineCtx::None,
       max_include_depth: 64,
       comment_delim_in_lines: false,
+      verbatim_delim: None,
       ifdef_stack: BumpVec::new_in(bump),
       attr_defs: BumpVec::new_in(bump),
       in_header: false,
diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index 926686d..50a071c 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -134,7 +134,10 @@ impl<'arena> Parser<'arena> {
           )
         {
           self.ctx.in_header = false;
-        } else if token.kind == Colon && self.ctx.subs.attr_refs() {
+        } else if token.kind == Colon
+          && self.ctx.subs.attr_refs()
+          && self.ctx.verbatim_delim.is_none()
+        {
           self.try_parse_attr_def(&mut token)?;
         }
       }
@@ -144,6 +147,14 @@ impl<'arena> Parser<'arena> {
     if drop_line {
       return self._read_line(false);
     }
+    match self.ctx.verbatim_delim {
+      Some(delimiter) if line.is_delimiter(delimiter) => self.ctx.verbatim_delim = None,
+      Some(_) => {}
+      None => {
+        let delimiter = line.current_token().and_then(|token| token.to_delimiter());
+        self.ctx.verbatim_delim = delimiter.filter(Delimiter::is_verbatim);
+      }
+    }
     if line.starts(TokenKind::Directive) && !self.ctx.within_block_comment() {
       match self.try_process_directive(&mut line)? {
         DirectiveAction::Passthrough => Ok(Some((line, ignored_last))),
diff --git a/parser/src/tasks/parse_block.rs b/parser/src/tasks/parse_block.rs
index 2d3d592..4348c98 100644
--- a/parser/src/tasks/parse_block.rs
+++ b/parser/src/tasks/parse_block.rs
@@ -121,6 +121,7 @@ impl<'arena> Parser<'arena> {
         if !lines.is_empty() {
           // re-parse adjoining chunk, to resolve attr def
           self.lexer.rewind(def.loc);
+          self.ctx.verbatim_delim = None;
         }
         let decl_meta = ChunkMeta::empty(meta.start_loc, self.bump);
         // the metadata is for the block following the attr decl
diff --git a/parser/src/tasks/parse_inlines/mod.rs b/parser/src/tasks/parse_inlines/mod.rs
index 6429bf9..8d4f939 100644
--- a/parser/src/tasks/parse_inlines/mod.rs
+++ b/parser/src/tasks/parse_inlines/mod.rs
@@ -38,7 +38,7 @@ impl<'arena> Parser<'arena> {
         return self.finish_inlines(acc, inline_attrs);
       }
 
-      if line.is_comment() && !subs.callouts() {
+      if line.is_comment() && !subs.callouts() && self.ctx.can_nest_blocks {
         if lines.is_empty() {
           acc.inlines.discard_trailing_newline();
         }
diff --git a/parser/src/tasks/table/parse_table.rs b/parser/src/tasks/table/parse_table.rs
index 9097f6e..7f85d9c 100644
--- a/parser/src/tasks/table/parse_table.rs
+++ b/parser/src/tasks/table/parse_table.rs
@@ -100,6 +100,7 @@ impl<'arena> Parser<'arena> {
     }
 
     let (mut tokens, end_loc) = self.table_content(lines, &delim_line)?;
+    self.ctx.verbatim_delim = None;
     if ctx.counting_cols {
       if !matches!(ctx.format, DataFormat::Prefix(_)) {
         self.parse_dsv_implicit_first_row(&mut tokens, &mut ctx)?;
-- 
2.43.0


From f46753bbef117bff4770d2619aacf5970b351f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:37 +0000
Subject: [PATCH 063/182] fix: block substitution names may be spaced, verbatim
 includes callouts

---
 parser/src/substitutions.rs        | 2 +-
 parser/src/tasks/customize_subs.rs | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/parser/src/substitutions.rs b/parser/src/substitutions.rs
index b8d5732..f14936d 100644
--- a/parser/src/substitutions.rs
+++ b/parser/src/substitutions.rs
@@ -133,7 +133,7 @@ impl Substitutions {
       return;
     }
     self.flags |= sub.bitflag_pos();
-    for i in 0..6 {
+    for i in 0..7 {
       if self.order[i].is_none() {
         self.order[i] = Some(sub);
         return;
diff --git a/parser/src/tasks/customize_subs.rs b/parser/src/tasks/customize_subs.rs
index c728198..b5aa315 100644
--- a/parser/src/tasks/customize_subs.rs
+++ b/parser/src/tasks/customize_subs.rs
@@ -7,7 +7,7 @@ pub fn from_meta(current: Substitutions, attrs: &MultiAttrList) -> Substitutions
   };
 
   let mut next = iff!(subs.contains(['-', '+']), current, Substitutions::none());
-  for part in subs.split(',') {
+  for part in subs.split(',').map(str::trim) {
     let len = part.len();
     if len < 4 {
       // TODO: error? warning?
@@ -40,7 +40,7 @@ pub fn from_meta(current: Substitutions, attrs: &MultiAttrList) -> Substitutions
         }
         StepOrGroup::Verbatim => {
           next.insert(Subs::SpecialChars);
-          next.insert(Subs::CharReplacement);
+          next.insert(Subs::Callouts);
         }
         StepOrGroup::SpecialChars => next.insert(Subs::SpecialChars),
         StepOrGroup::Callouts => next.insert(Subs::Callouts),
@@ -69,7 +69,7 @@ pub fn from_meta(current: Substitutions, attrs: &MultiAttrList) -> Substitutions
           }
           StepOrGroup::Verbatim => {
             modify(&mut next, Subs::SpecialChars);
-            modify(&mut next, Subs::CharReplacement);
+            modify(&mut next, Subs::Callouts);
           }
           StepOrGroup::SpecialChars => {
             modify(&mut next, Subs::SpecialChars);
@@ -127,7 +127,7 @@ impl StepOrGroup {
       b"none" => Some(Self::None),
       b"normal" => Some(Self::Normal),
       b"verbatim" => Some(Self::Verbatim),
-      b"specialchars" => Some(Self::SpecialChars),
+      b"specialchars" | b"specialcharacters" => Some(Self::SpecialChars),
       b"callouts" => Some(Self::Callouts),
       b"quotes" => Some(Self::Quotes),
       b"attributes" => Some(Self::Attributes),
-- 
2.43.0


From 477be255de944bd766a5d894ae378a12f7226d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:58 +0000
Subject: [PATCH 064/182] fix: pass macros accept the specialcharacters
 substitution

---
 parser/src/tasks/parse_inlines/inline_utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/tasks/parse_inlines/inline_utils.rs b/parser/src/tasks/parse_inlines/inline_utils.rs
index fe5cb4c..c204cdb 100644
--- a/parser/src/tasks/parse_inlines/inline_utils.rs
+++ b/parser/src/tasks/parse_inlines/inline_utils.rs
@@ -232,7 +232,7 @@ impl Substitutions {
     };
     let mut subs = Self::none();
     target.split(',').for_each(|value| match value {
-      "c" | "specialchars" => subs.insert(Subs::SpecialChars),
+      "c" | "specialchars" | "specialcharacters" => subs.insert(Subs::SpecialChars),
       "a" | "attributes" => subs.insert(Subs::AttrRefs),
       "r" | "replacements" => subs.insert(Subs::CharReplacement),
       "m" | "macros" => subs.insert(Subs::Macros),
-- 
2.43.0


From 541bbf75c59171490fcb57964955c9439974906a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:47 +0000
Subject: [PATCH 065/182] fix: quotes and passthroughs are not matched inside
 attribute values

---
 parser/src/tasks/attr_refs.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/parser/src/tasks/attr_refs.rs b/parser/src/tasks/attr_refs.rs
index f9edc24..dfe5956 100644
--- a/parser/src/tasks/attr_refs.rs
+++ b/parser/src/tasks/attr_refs.rs
@@ -47,6 +47,19 @@ impl<'arena> Parser<'arena> {
   ) -> Result<()> {
     if self.ctx.replacing_attr {
       token.attr_replacement = true;
+      // quotes and passthroughs are matched before attribute references
+      let is_quote = match token.kind {
+        TokenKind::Plus => !line.last().is_whitespaceish(),
+        TokenKind::Star
+        | TokenKind::Backtick
+        | TokenKind::Hash
+        | TokenKind::Caret
+        | TokenKind::Tilde => true,
+        _ => false,
+      };
+      if is_quote && !line.contains(TokenKind::AttrPassDbl) {
+        token.kind = TokenKind::Word;
+      }
       if self.lexer.tmp_buf_is_empty() {
         self.ctx.replacing_attr = false;
       }
-- 
2.43.0


From 20c0bb19b57df03da0cbde9f275ab8f82499cca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:11 +0000
Subject: [PATCH 066/182] fix: the rest of a line can not start a block

---
 parser/src/tasks/parse_inlines/inline_preproc.rs | 5 ++++-
 parser/src/tasks/parse_inlines/mod.rs            | 5 +++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/parser/src/tasks/parse_inlines/inline_preproc.rs b/parser/src/tasks/parse_inlines/inline_preproc.rs
index 2a8507b..7c22028 100644
--- a/parser/src/tasks/parse_inlines/inline_preproc.rs
+++ b/parser/src/tasks/parse_inlines/inline_preproc.rs
@@ -72,8 +72,11 @@ impl<'arena> Parser<'arena> {
     };
     let restore_subs = self.ctx.subs;
     self.ctx.subs = subs;
-    let nodes = self.parse_inlines(&mut passlines)?;
+    let can_nest_blocks = std::mem::replace(&mut self.ctx.can_nest_blocks, false);
+    let nodes = self.parse_inlines(&mut passlines);
+    self.ctx.can_nest_blocks = can_nest_blocks;
     self.ctx.subs = restore_subs;
+    let nodes = nodes?;
     self.ctx.passthrus.push(Some(nodes));
     let index = self.ctx.passthrus.len() - 1;
     let mut lexeme = BumpString::with_capacity_in(6, self.bump);
diff --git a/parser/src/tasks/parse_inlines/mod.rs b/parser/src/tasks/parse_inlines/mod.rs
index 8d4f939..6c96a2d 100644
--- a/parser/src/tasks/parse_inlines/mod.rs
+++ b/parser/src/tasks/parse_inlines/mod.rs
@@ -1029,6 +1029,11 @@ impl<'arena> Parser<'arena> {
   }
 
   fn should_stop_at(&self, line: &Line<'arena>) -> bool {
+    // the rest of a line can't start a block
+    if line.is_partially_consumed() {
+      return false;
+    }
+
     // delimiter
     (line.current_is(DelimiterLine) && self.ctx.can_nest_blocks)
 
-- 
2.43.0


From f32c1cc67c8e7e4345498610d7b1db0d5a882b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:43 +0000
Subject: [PATCH 067/182] fix: passthroughs, literal monospace and constrained
 quotes end at their own mark

---
 parser/src/line.rs                               |  3 ++-
 parser/src/tasks/parse_inlines/inline_preproc.rs | 14 ++++++--------
 parser/src/tasks/parse_inlines/mod.rs            |  7 +++++--
 3 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/parser/src/line.rs b/parser/src/line.rs
index b69b7ec..7590ff6 100644
--- a/parser/src/line.rs
+++ b/parser/src/line.rs
@@ -544,7 +544,8 @@ impl<'arena> Line<'arena> {
       }
 
       if next.kind(Word) || prev.is_whitespaceish() {
-        return None;
+        search_from = n + 1;
+        continue;
       }
 
       // e.g: `_bar__` - the first _ after the `r` cannot end constrained pair
diff --git a/parser/src/tasks/parse_inlines/inline_preproc.rs b/parser/src/tasks/parse_inlines/inline_preproc.rs
index 7c22028..3f164aa 100644
--- a/parser/src/tasks/parse_inlines/inline_preproc.rs
+++ b/parser/src/tasks/parse_inlines/inline_preproc.rs
@@ -11,13 +11,7 @@ impl<'arena> Parser<'arena> {
   ) -> Result<()> {
     let mut replaced = Line::with_capacity(line.num_tokens(), self.bump);
     let mut prev_kind = None;
-    let mut skip_tokens = 0;
     while let Some(token) = line.consume_current() {
-      if skip_tokens > 0 {
-        replaced.push_nonpass(token);
-        skip_tokens -= 1;
-        continue;
-      }
       let kind = token.kind;
       match token.kind {
         MacroName if token.lexeme == "pass:" => {
@@ -33,8 +27,12 @@ impl<'arena> Parser<'arena> {
           if let Some(n) = self.terminates_plus(count, line, lines) {
             let subs = Substitutions::from_pass_plus_len(count);
             let placeholder = self.pass_placeholder(&token, count, line, lines, n, subs)?;
-            skip_tokens = count;
             replaced.push_nonpass(placeholder);
+            // leftovers of a longer run can't open another passthrough
+            while line.current_is(Plus) {
+              let plus = line.consume_current().unwrap();
+              replaced.push_nonpass(plus);
+            }
           } else {
             replaced.push_nonpass(token);
           }
@@ -254,7 +252,7 @@ fn could_be_plus_passthru(prev_kind: Option<TokenKind>, line: &Line) -> bool {
   if prev_kind == Some(Backtick) || line.starts_with_seq(&[TokenSpec::Kind(Plus); 3]) {
     false
   } else if !line.starts(Plus) {
-    prev_kind.is_none() || matches!(prev_kind, Some(Whitespace | Plus))
+    !line.current_token().is_whitespaceish() && (prev_kind.is_none() || matches!(prev_kind, Some(Whitespace | Plus)))
   } else {
     true
   }
diff --git a/parser/src/tasks/parse_inlines/mod.rs b/parser/src/tasks/parse_inlines/mod.rs
index 6c96a2d..14bda55 100644
--- a/parser/src/tasks/parse_inlines/mod.rs
+++ b/parser/src/tasks/parse_inlines/mod.rs
@@ -622,6 +622,9 @@ impl<'arena> Parser<'arena> {
           {
             self.ctx.subs.remove(Subs::InlineFormatting);
             self.ctx.subs.remove(Subs::AttrRefs);
+            self.ctx.subs.remove(Subs::CharReplacement);
+            self.ctx.subs.remove(Subs::Macros);
+            self.ctx.subs.remove(Subs::PostReplacement);
             self.parse_node(
               span(SpanKind::LitMono, inline_attrs.take()),
               ctx(
@@ -729,7 +732,7 @@ impl<'arena> Parser<'arena> {
           DoubleQuote
             if subs.inline_formatting()
               && line.current_is(Backtick)
-              && stop_tokens != [Kind(Backtick)] =>
+              && !stop_tokens.starts_with(&[Kind(Backtick)]) =>
           {
             push_simple(CurlyQuote(LeftDouble), &token, line, &mut acc, lines);
             break;
@@ -743,7 +746,7 @@ impl<'arena> Parser<'arena> {
           SingleQuote
             if subs.inline_formatting()
               && line.current_is(Backtick)
-              && stop_tokens != [Kind(Backtick)] =>
+              && !stop_tokens.starts_with(&[Kind(Backtick)]) =>
           {
             push_simple(CurlyQuote(LeftSingle), &token, line, &mut acc, lines);
             break;
-- 
2.43.0


From 98347fff2949b8041ab8b1d17df8b5f5c3808944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:08 +0000
Subject: [PATCH 068/182] fix: marks inside a constrained quote don't close it,
 and url macros have no spaces before the bracket

---
 parser/src/tasks/parse_inlines/inline_utils.rs | 17 +++++++++++++++++
 parser/src/tasks/parse_inlines/mod.rs          |  8 ++++++--
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/parser/src/tasks/parse_inlines/inline_utils.rs b/parser/src/tasks/parse_inlines/inline_utils.rs
index c204cdb..61ab1a5 100644
--- a/parser/src/tasks/parse_inlines/inline_utils.rs
+++ b/parser/src/tasks/parse_inlines/inline_utils.rs
@@ -39,6 +39,13 @@ impl<'arena> Parser<'arena> {
     if token.attr_replacement && self.ctx.attr_pass_subs.is_none() {
       return false;
     }
+    // e.g. `**foo**bar`: the unconstrained form takes precedence
+    if let [Kind(kind)] = stop_tokens
+      && line.current_is(*kind)
+      && line.contains_seq(&[Kind(*kind), Kind(*kind)])
+    {
+      return false;
+    }
     self.lexer.char_before(token.loc).is_none_or(|c| {
       !c.is_alphanumeric() && !matches!(c, '&' | ';' | ':' | '}' | '\\')
     }) && !line.starts(Whitespace)
@@ -47,6 +54,16 @@ impl<'arena> Parser<'arena> {
         || lines.terminates_constrained(stop_tokens, &self.ctx.inline_ctx))
   }
 
+  /// a constrained mark followed by a word or preceded by space is not a closing mark
+  pub(crate) fn inside_constrained(&self, stop_tokens: &[TokenSpec], line: &Line) -> bool {
+    matches!(stop_tokens, [Kind(Star | Underscore | Backtick | Hash)])
+      && (line.nth_token(1).kind(Word)
+        || line
+          .current_token()
+          .and_then(|token| self.lexer.char_before(token.loc))
+          .is_some_and(char::is_whitespace))
+  }
+
   pub(crate) fn starts_unconstrained(
     &self,
     stop_tokens: &[TokenSpec],
diff --git a/parser/src/tasks/parse_inlines/mod.rs b/parser/src/tasks/parse_inlines/mod.rs
index 14bda55..5d07e75 100644
--- a/parser/src/tasks/parse_inlines/mod.rs
+++ b/parser/src/tasks/parse_inlines/mod.rs
@@ -58,7 +58,7 @@ impl<'arena> Parser<'arena> {
       }
 
       loop {
-        if line.starts_with_seq(stop_tokens) {
+        if line.starts_with_seq(stop_tokens) && !self.inside_constrained(stop_tokens, &line) {
           line.discard(stop_tokens.len());
           acc.commit();
           lines.restore_if_nonempty(line);
@@ -365,7 +365,11 @@ impl<'arena> Parser<'arena> {
             acc.push_text_token(&next_token);
           }
 
-          UriScheme if subs.macros() && line.continues_inline_macro(&token) => {
+          UriScheme
+            if subs.macros()
+              && line.no_whitespace_until(OpenBracket)
+              && line.continues_inline_macro(&token) =>
+          {
             self.parse_uri_scheme_macro(&token, &mut line, &mut acc)?
           }
 
-- 
2.43.0


From 725fa73741bf5087b0c328562e540f1619765b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:32 +0000
Subject: [PATCH 069/182] fix: nested quotes look for a real closer, a hard
 break opens no passthrough, rest of a line with a passthrough stays inline

---
 parser/src/line.rs                            | 19 ++++++++++++++++++-
 .../src/tasks/parse_inlines/inline_preproc.rs |  7 ++++++-
 .../src/tasks/parse_inlines/inline_utils.rs   |  2 +-
 3 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/parser/src/line.rs b/parser/src/line.rs
index 7590ff6..ca5e521 100644
--- a/parser/src/line.rs
+++ b/parser/src/line.rs
@@ -563,7 +563,7 @@ impl<'arena> Line<'arena> {
       }
 
       return match ctx.specs() {
-        Some(specs) => self.index_of_seq(specs).map_or(Some(n), |m| {
+        Some(specs) => self.index_of_close(specs).map_or(Some(n), |m| {
           if m < n && !self.nth_token(m).is_attr_replacement() {
             None
           } else {
@@ -575,6 +575,19 @@ impl<'arena> Line<'arena> {
     }
   }
 
+  /// the first of `specs` which can close, a mark followed by a word can't
+  fn index_of_close(&self, specs: &[TokenSpec]) -> Option<usize> {
+    let mut index = self.index_of_seq(specs);
+    if matches!(specs, [Kind(Star | Underscore | Backtick | Hash)]) {
+      while let Some(n) = index
+        && self.nth_token(n + 1).kind(Word)
+      {
+        index = self.index_of_seq_from(specs, n + 1);
+      }
+    }
+    index
+  }
+
   pub fn terminates_index_term(&self) -> Option<usize> {
     if let Some(n) = self.index_of_seq(&[Kind(CloseParens)]) {
       let close_parens = self.nth_token(n).unwrap();
@@ -909,6 +922,10 @@ impl<'arena> Line<'arena> {
     self.tokens.len() < self.orig_len as usize
   }
 
+  pub fn set_partially_consumed(&mut self) {
+    self.orig_len = self.orig_len.max(self.tokens.len() as u32 + 1);
+  }
+
   pub fn is_fully_unconsumed(&self) -> bool {
     self.tokens.len() == self.orig_len as usize
   }
diff --git a/parser/src/tasks/parse_inlines/inline_preproc.rs b/parser/src/tasks/parse_inlines/inline_preproc.rs
index 3f164aa..5d05053 100644
--- a/parser/src/tasks/parse_inlines/inline_preproc.rs
+++ b/parser/src/tasks/parse_inlines/inline_preproc.rs
@@ -9,6 +9,7 @@ impl<'arena> Parser<'arena> {
     line: &mut Line<'arena>,
     lines: &mut ContiguousLines<'arena>,
   ) -> Result<()> {
+    let partial = line.is_partially_consumed();
     let mut replaced = Line::with_capacity(line.num_tokens(), self.bump);
     let mut prev_kind = None;
     while let Some(token) = line.consume_current() {
@@ -41,6 +42,9 @@ impl<'arena> Parser<'arena> {
       }
       prev_kind = Some(kind);
     }
+    if partial {
+      replaced.set_partially_consumed();
+    }
     lines.restore_if_nonempty(replaced);
     Ok(())
   }
@@ -252,7 +256,8 @@ fn could_be_plus_passthru(prev_kind: Option<TokenKind>, line: &Line) -> bool {
   if prev_kind == Some(Backtick) || line.starts_with_seq(&[TokenSpec::Kind(Plus); 3]) {
     false
   } else if !line.starts(Plus) {
-    !line.current_token().is_whitespaceish() && (prev_kind.is_none() || matches!(prev_kind, Some(Whitespace | Plus)))
+    // NB: a plus that ends its line (e.g. a hard break) opens nothing
+    line.current_token().is_some_and(|t| !t.is_whitespaceish()) && (prev_kind.is_none() || matches!(prev_kind, Some(Whitespace | Plus)))
   } else {
     true
   }
diff --git a/parser/src/tasks/parse_inlines/inline_utils.rs b/parser/src/tasks/parse_inlines/inline_utils.rs
index 61ab1a5..c25a85f 100644
--- a/parser/src/tasks/parse_inlines/inline_utils.rs
+++ b/parser/src/tasks/parse_inlines/inline_utils.rs
@@ -42,7 +42,7 @@ impl<'arena> Parser<'arena> {
     // e.g. `**foo**bar`: the unconstrained form takes precedence
     if let [Kind(kind)] = stop_tokens
       && line.current_is(*kind)
-      && line.contains_seq(&[Kind(*kind), Kind(*kind)])
+      && contains_seq(&[Kind(*kind), Kind(*kind)], line, lines)
     {
       return false;
     }
-- 
2.43.0


From a2ec6688b5ef0b229c88d8781ad6566bf27511ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:37 +0000
Subject: [PATCH 070/182] fix: attribute lists of formatted text contain no
 brackets

---
 parser/src/line.rs                    | 4 +++-
 parser/src/tasks/parse_inlines/mod.rs | 6 +++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/parser/src/line.rs b/parser/src/line.rs
index ca5e521..f051b7f 100644
--- a/parser/src/line.rs
+++ b/parser/src/line.rs
@@ -940,7 +940,9 @@ impl<'arena> Line<'arena> {
     ]) else {
       return false;
     };
-    idx != 0 && self.first_nonescaped(CloseBracket).map(|(_, i)| i) == Some(idx)
+    idx != 0
+      && self.first_nonescaped(CloseBracket).map(|(_, i)| i) == Some(idx)
+      && self.index_of_kind(OpenBracket).is_none_or(|open| open > idx)
   }
 
   pub fn continues_inline_anchor(&self) -> bool {
diff --git a/parser/src/tasks/parse_inlines/mod.rs b/parser/src/tasks/parse_inlines/mod.rs
index 5d07e75..11dd1c0 100644
--- a/parser/src/tasks/parse_inlines/mod.rs
+++ b/parser/src/tasks/parse_inlines/mod.rs
@@ -81,7 +81,11 @@ impl<'arena> Parser<'arena> {
         }
 
         match token.kind {
-          OpenBracket if subs.inline_formatting() && line.continues_formatted_text_attr_list() => {
+          OpenBracket
+            if subs.inline_formatting()
+              && !token.attr_replacement
+              && line.continues_formatted_text_attr_list() =>
+          {
             inline_attrs = Some(self.parse_formatted_text_attr_list(&mut line)?);
           }
 
-- 
2.43.0


From 8c3468991c6f3866c6f234442bc310b510f92bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:53 +0000
Subject: [PATCH 071/182] fix: ifeval compares integers with decimals, and
 decimals in full precision; its endif is always paired

---
 parser/src/tasks/directives/ifeval.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/parser/src/tasks/directives/ifeval.rs b/parser/src/tasks/directives/ifeval.rs
index edc9259..4eea4de 100644
--- a/parser/src/tasks/directives/ifeval.rs
+++ b/parser/src/tasks/directives/ifeval.rs
@@ -37,8 +37,8 @@ impl<'arena> Parser<'arena> {
 
     let lhs = self.coerce_eval_expr(&captures[2]);
     let rhs = self.coerce_eval_expr(&captures[4]);
+    self.ctx.ifdef_stack.push(self.string("[•ifeval•]"));
     if eval(lhs, op, rhs) {
-      self.ctx.ifdef_stack.push(self.string("[•ifeval•]"));
       Ok(DirectiveAction::ReadNextLine)
     } else {
       Ok(DirectiveAction::SkipLinesUntilEndIf)
@@ -55,7 +55,7 @@ impl<'arena> Parser<'arena> {
     }
     if let Ok(int) = expr.parse::<isize>() {
       return Value::Int(int);
-    } else if let Ok(float) = expr.parse::<f32>() {
+    } else if let Ok(float) = expr.parse::<f64>() {
       return Value::Float(float);
     }
     if expr.len() > 1
@@ -72,6 +72,11 @@ impl<'arena> Parser<'arena> {
 }
 
 fn eval(lhs: Value, op: Op, rhs: Value) -> bool {
+  let (lhs, rhs) = match (lhs, rhs) {
+    (Value::Int(lhs), Value::Float(rhs)) => (Value::Float(lhs as f64), Value::Float(rhs)),
+    (Value::Float(lhs), Value::Int(rhs)) => (Value::Float(lhs), Value::Float(rhs as f64)),
+    (lhs, rhs) => (lhs, rhs),
+  };
   match (lhs, op, rhs) {
     // string
     (Value::String(lhs), Op::Eq, Value::String(rhs)) => lhs == rhs,
@@ -110,7 +115,7 @@ fn eval(lhs: Value, op: Op, rhs: Value) -> bool {
 #[derive(Debug, PartialEq)]
 enum Value<'arena> {
   Int(isize),
-  Float(f32),
+  Float(f64),
   String(BumpString<'arena>),
   Boolean(bool),
   Nil,
-- 
2.43.0


From 89631ca2436409474f85b346676b2f5755b11fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:53 +0000
Subject: [PATCH 072/182] fix: an endif at the very end of the document is a
 directive

---
 parser/src/lexer/source_lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/lexer/source_lexer.rs b/parser/src/lexer/source_lexer.rs
index 404bb90..31cf8da 100644
--- a/parser/src/lexer/source_lexer.rs
+++ b/parser/src/lexer/source_lexer.rs
@@ -347,7 +347,7 @@ impl<'arena> SourceLexer<'arena> {
             lexeme,
             b"include" | b"ifdef" | b"ifndef" | b"endif" | b"ifeval" | b"asciidorkinclude"
           )
-          && self.remaining_len() > 4 =>
+          && self.remaining_len() > if lexeme == b"endif" { 3 } else { 4 } =>
       {
         if !self.peek_n(2).unwrap().is_ascii_whitespace() {
           self.advance();
-- 
2.43.0


From 43a82883a5072c408cf4e69cf77ea9bb14713f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:53 +0000
Subject: [PATCH 073/182] fix: attribute references in directives within
 verbatim blocks are replaced

---
 parser/src/tasks/attr_refs.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser/src/tasks/attr_refs.rs b/parser/src/tasks/attr_refs.rs
index dfe5956..2966495 100644
--- a/parser/src/tasks/attr_refs.rs
+++ b/parser/src/tasks/attr_refs.rs
@@ -69,7 +69,10 @@ impl<'arena> Parser<'arena> {
       // otherwise an attribute could (indirectly) refer to itself
       token.kind = TokenKind::Word;
       line.push(token);
-    } else if token.kind(TokenKind::AttrRef) && self.ctx.subs.attr_refs() {
+    } else if token.kind(TokenKind::AttrRef)
+      // directives are processed before any substitutions apply
+      && (self.ctx.subs.attr_refs() || line.starts(TokenKind::Directive))
+    {
       match self.document.meta.get(&token.lowercase_attr_name()) {
         Some(AttrValue::String(attr_val)) => {
           #[cfg(feature = "attr_ref_observation")]
-- 
2.43.0


From c251c392097f61b91dd18fc98d522627400487c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:53 +0000
Subject: [PATCH 074/182] fix: an attribute entry in a single line conditional
 ends before the closing bracket

---
 parser/src/lexer/root_lexer.rs      | 15 +++++++++++++++
 parser/src/tasks/parse_doc_attrs.rs | 26 ++++++++++++++++++++------
 2 files changed, 35 insertions(+), 6 deletions(-)

diff --git a/parser/src/lexer/root_lexer.rs b/parser/src/lexer/root_lexer.rs
index 3094ebf..80d233e 100644
--- a/parser/src/lexer/root_lexer.rs
+++ b/parser/src/lexer/root_lexer.rs
@@ -109,6 +109,21 @@ impl<'arena> RootLexer<'arena> {
     self.tmp_buf = Some((SourceLexer::from_str(buf, SourceFile::Tmp, self.bump), loc));
   }
 
+  /// the position in the source where a temporary buffer taken from it ends
+  pub fn tmp_buf_end(&self) -> Option<u32> {
+    match &self.tmp_buf {
+      Some((buf, BufLoc::Offset(offset))) => Some(offset + buf.raw_lines().next()?.len() as u32),
+      _ => None,
+    }
+  }
+
+  /// drop the temporary buffer, so that only its final newline is left
+  pub fn truncate_tmp_buf(&mut self) {
+    if let Some((_, loc)) = self.tmp_buf.take() {
+      self.tmp_buf = Some((SourceLexer::from_str("\n", SourceFile::Tmp, self.bump), loc));
+    }
+  }
+
   pub const fn tmp_buf_is_empty(&self) -> bool {
     self.tmp_buf.is_none()
   }
diff --git a/parser/src/tasks/parse_doc_attrs.rs b/parser/src/tasks/parse_doc_attrs.rs
index ba1b296..c47ed99 100644
--- a/parser/src/tasks/parse_doc_attrs.rs
+++ b/parser/src/tasks/parse_doc_attrs.rs
@@ -7,6 +7,15 @@ impl<'arena> Parser<'arena> {
     let start_loc = token.loc.start;
     let depth = token.loc.include_depth;
 
+    // the content of a single line conditional ends before its bracket
+    let buf_end = self.lexer.tmp_buf_end();
+    let byte_at = |parser: &Self, pos: u32| {
+      parser
+        .lexer
+        .byte_at(pos, depth)
+        .filter(|_| buf_end.is_none_or(|end| pos < end))
+    };
+
     // we need at least 4 bytes to have a valid attr def: `:a:\n`
     if self.lexer.byte_at(start_loc + 3, depth).is_none() {
       return Ok(());
@@ -28,11 +37,13 @@ impl<'arena> Parser<'arena> {
     // test attr def start, and bail early
     let mut pos = start_loc + 1;
     let mut negated = Negation::None;
-    if self.lexer.byte_at(pos, depth) == Some(b'!') {
+    if byte_at(self, pos) == Some(b'!') {
       negated = Negation::Leading;
       pos += 1;
     };
-    let first_char = self.lexer.byte_at(pos, depth).unwrap();
+    let Some(first_char) = byte_at(self, pos) else {
+      return Ok(());
+    };
     if !first_char.is_ascii_alphanumeric() && first_char != b'_' {
       return Ok(());
     }
@@ -45,7 +56,7 @@ impl<'arena> Parser<'arena> {
     let mut has_lbrace = false;
     let mut def_start = u32::MAX;
     loop {
-      match (state, self.lexer.byte_at(pos, depth)) {
+      match (state, byte_at(self, pos)) {
         (State::InName, Some(b)) if is_attr_word_char(b) => {}
         (State::InName, Some(b'!')) => {
           negated = Negation::Trailing;
@@ -66,7 +77,7 @@ impl<'arena> Parser<'arena> {
         (State::TrailingBang, _) => {
           return Ok(());
         }
-        (State::AfterName, Some(b'\r')) if self.lexer.byte_at(pos + 1, depth) == Some(b'\n') => {
+        (State::AfterName, Some(b'\r')) if byte_at(self, pos + 1) == Some(b'\n') => {
           break;
         }
         (State::AfterName, Some(b'\n') | None) => break,
@@ -94,7 +105,7 @@ impl<'arena> Parser<'arena> {
 
     // gather line continuations
     loop {
-      if attr_def_string.ends_with(" \\") {
+      if buf_end.is_none() && attr_def_string.ends_with(" \\") {
         attr_def_string.pop();
 
         // https://docs.asciidoctor.org/asciidoc/latest/attributes/wrap-values/#hard
@@ -196,7 +207,10 @@ impl<'arena> Parser<'arena> {
     token.kind = TokenKind::AttrDef;
     token.loc = attr_def_loc;
     token.lexeme = self.string(self.lexer.str_from_loc(attr_def_loc));
-    self.lexer.set_pos(pos);
+    match buf_end {
+      Some(_) => self.lexer.truncate_tmp_buf(),
+      None => self.lexer.set_pos(pos),
+    }
 
     Ok(())
   }
-- 
2.43.0


From 0c5e50d1899dd7a36b6a4426667a899c7c9a6b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:53 +0000
Subject: [PATCH 075/182] fix: conditionals, and the lines and delimiters
 around directives

Lines skipped by a false conditional are scanned line by line, conditionals
nest properly, and directives leave blank lines and delimiters after them alone.
A verbatim block right after a table does not hide later attribute entries.
---
 parser/src/parser.rs                  | 84 ++++++++++++++++++++-------
 parser/src/tasks/directives/ifdef.rs  | 62 +++++++++++---------
 parser/src/tasks/directives/mod.rs    |  1 +
 parser/src/tasks/table/parse_table.rs |  7 ++-
 4 files changed, 107 insertions(+), 47 deletions(-)

diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index 50a071c..285d65d 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -110,10 +110,35 @@ impl<'arena> Parser<'arena> {
   }
 
   pub(crate) fn read_line(&mut self) -> Result<Option<Line<'arena>>> {
-    Ok(self._read_line(false)?.map(|(line, _)| line))
+    Ok(self._read_line(false, false)?.map(|(line, _)| line))
   }
 
-  fn _read_line(&mut self, ignored_last: bool) -> Result<Option<(Line<'arena>, bool)>> {
+  /// keep track of whether the next line is within a verbatim block
+  pub(crate) fn update_verbatim_delim(&mut self, line: &Line<'arena>) {
+    match self.ctx.verbatim_delim {
+      Some(delimiter) if line.is_delimiter(delimiter) => self.ctx.verbatim_delim = None,
+      Some(_) => {}
+      None => {
+        let delimiter = line.current_token().and_then(|token| token.to_delimiter());
+        self.ctx.verbatim_delim = delimiter.filter(Delimiter::is_verbatim);
+      }
+    }
+  }
+
+  /// read the line following one that leaves no trace in the document (directives, etc.)
+  /// when reading a group of contiguous lines, an empty line is left to end the group
+  fn read_line_after_removed(&mut self, in_group: bool) -> Result<Option<(Line<'arena>, bool)>> {
+    if in_group && self.lexer.at_newline() {
+      return Ok(None);
+    }
+    self._read_line(false, in_group)
+  }
+
+  fn _read_line(
+    &mut self,
+    ignored_last: bool,
+    in_group: bool,
+  ) -> Result<Option<(Line<'arena>, bool)>> {
     assert!(self.peeked_lines.is_none());
     if self.lexer.is_eof() || self.quoted_lines.is_some() {
       return Ok(None);
@@ -145,27 +170,19 @@ impl<'arena> Parser<'arena> {
     }
     self.lexer.skip_newline();
     if drop_line {
-      return self._read_line(false);
-    }
-    match self.ctx.verbatim_delim {
-      Some(delimiter) if line.is_delimiter(delimiter) => self.ctx.verbatim_delim = None,
-      Some(_) => {}
-      None => {
-        let delimiter = line.current_token().and_then(|token| token.to_delimiter());
-        self.ctx.verbatim_delim = delimiter.filter(Delimiter::is_verbatim);
-      }
+      return self.read_line_after_removed(in_group);
     }
+    self.update_verbatim_delim(&line);
     if line.starts(TokenKind::Directive) && !self.ctx.within_block_comment() {
       match self.try_process_directive(&mut line)? {
         DirectiveAction::Passthrough => Ok(Some((line, ignored_last))),
         DirectiveAction::SubstituteLine(line) => Ok(Some((line, ignored_last))),
-        DirectiveAction::IgnoreNotIncluded => self._read_line(true),
-        DirectiveAction::ReadNextLine => self._read_line(false),
-        DirectiveAction::SkipLinesUntilEndIf => Ok(
-          self
-            .skip_lines_until_endif(&line)?
-            .map(|l| (l, ignored_last)),
-        ),
+        DirectiveAction::IgnoreNotIncluded => self._read_line(true, false),
+        DirectiveAction::ReadNextLine => self.read_line_after_removed(in_group),
+        DirectiveAction::SkipLinesUntilEndIf => {
+          self.skip_lines_until_endif(&line)?;
+          self.read_line_after_removed(in_group)
+        }
       }
     } else {
       Ok(Some((line, ignored_last)))
@@ -185,7 +202,19 @@ impl<'arena> Parser<'arena> {
       return Ok(None);
     }
     let mut lines = Deq::new(self.bump);
-    while let Some((line, ignored_removed_include_line)) = self._read_line(false)? {
+    let mut only_meta = true;
+    loop {
+      let Some((line, ignored_removed_include_line)) = self._read_line(false, true)? else {
+        if !lines.is_empty() {
+          break;
+        }
+        // so far we only saw lines that leave no trace
+        self.lexer.consume_empty_lines();
+        if self.lexer.is_eof() {
+          break;
+        }
+        continue;
+      };
       if line.is_emptyish() {
         if lines.is_empty() {
           // this case can happen if our first non-empty line was an include directive
@@ -201,8 +230,14 @@ impl<'arena> Parser<'arena> {
       if line.is_delimiter_kind(DelimiterKind::Comment) {
         self.ctx.comment_delim_in_lines = true;
       }
+      // an attribute entry ends the group, it affects how following lines are read
+      let is_attr_entry = only_meta && line.starts(TokenKind::AttrDef) && !self.ctx.in_header;
+      only_meta &= line.is_chunk_title()
+        || line.is_block_attr_list()
+        || line.is_block_anchor()
+        || line.is_comment();
       lines.push(line);
-      if self.lexer.at_newline() {
+      if is_attr_entry || self.lexer.at_newline() {
         break;
       }
     }
@@ -225,10 +260,16 @@ impl<'arena> Parser<'arena> {
     }
 
     let mut additional_lines = BumpVec::new_in(self.bump);
+    let mut delimiter_line = None;
     while !self.lexer.is_eof() && !self.at_delimiter(delimiter) {
       let Some(line) = self.read_line()? else {
         break;
       };
+      // we can't see the delimiter coming if it follows a directive
+      if line.is_delimiter(delimiter) {
+        delimiter_line = Some(line);
+        break;
+      }
       additional_lines.push(line);
     }
     lines.extend(additional_lines);
@@ -236,6 +277,9 @@ impl<'arena> Parser<'arena> {
     while lines.last().map(|l| l.is_empty()) == Some(true) {
       lines.pop();
     }
+    if let Some(line) = delimiter_line {
+      lines.push(line);
+    }
     Ok(Some(lines))
   }
 
diff --git a/parser/src/tasks/directives/ifdef.rs b/parser/src/tasks/directives/ifdef.rs
index bebc212..0578319 100644
--- a/parser/src/tasks/directives/ifdef.rs
+++ b/parser/src/tasks/directives/ifdef.rs
@@ -13,7 +13,9 @@ impl<'arena> Parser<'arena> {
 
     let attrs = captures.get(1).unwrap().as_str();
     let embedded_line = captures.get(2).unwrap();
-    self.ctx.ifdef_stack.push(self.string(attrs));
+    if embedded_line.is_empty() {
+      self.ctx.ifdef_stack.push(self.string(attrs));
+    }
 
     match (self.evaluate_ifdef(defined, attrs), embedded_line.as_str()) {
       (false, "") => Ok(DirectiveAction::SkipLinesUntilEndIf),
@@ -25,8 +27,7 @@ impl<'arena> Parser<'arena> {
         src.push('\n');
         let offset = line.first_loc().unwrap().start + embedded_line.start() as u32;
         self.lexer.set_tmp_buf(&src, BufLoc::Offset(offset));
-        let line = self.read_line()?.unwrap();
-        Ok(DirectiveAction::SubstituteLine(line))
+        Ok(DirectiveAction::ReadNextLine)
       }
     }
   }
@@ -56,35 +57,44 @@ impl<'arena> Parser<'arena> {
   pub(crate) fn skip_lines_until_endif(
     &mut self,
     start_line: &Line<'arena>,
-  ) -> Result<Option<Line<'arena>>> {
+  ) -> Result<()> {
     let mut depth = 1;
     loop {
-      let token = self.lexer.next_token();
-      if token.matches(TokenKind::Directive, "endif::") {
-        let mut line = Line::empty(self.bump);
+      if self.lexer.is_eof() {
+        // TODO: should probably not be a skippable/non-strict error
+        self.err_line("This ifdef directive was never closed", start_line)?;
+        return Ok(());
+      }
+      let mut line = Line::empty(self.bump);
+      while !self.lexer.at_newline() && !self.lexer.is_eof() {
+        let token = self.lexer.next_token();
         line.push(token);
-        while !self.lexer.at_newline() && !self.lexer.is_eof() {
-          line.push(self.lexer.next_token());
-        }
-        if line.is_directive_endif() {
-          depth -= 1;
-          if depth == 0 {
-            if self.lexer.at_newline() {
-              self.lexer.skip_newline();
-            }
-            break self.read_line();
-          }
+      }
+      self.lexer.skip_newline();
+      if !line.starts(TokenKind::Directive) {
+        continue;
+      }
+      let src = line.reassemble_src();
+      if line.is_directive_endif() {
+        depth -= 1;
+        if depth == 0 {
+          self.ctx.ifdef_stack.pop();
+          return Ok(());
         }
-      } else if token.kind(TokenKind::Directive)
-        && (token.lexeme == "ifdef::" || token.lexeme == "ifndef::")
-      {
-        // TODO: we should probably check if the directive is valid
+      } else if opens_conditional(&src) {
         depth += 1;
-      } else if self.lexer.is_eof() {
-        // TODO: should probably not be a skippable/non-strict error
-        self.err_line("This ifdef directive was never closed", start_line)?;
-        break Ok(None);
       }
     }
   }
 }
+
+/// `true` for a conditional directive which must be closed by an `endif` line
+fn opens_conditional(src: &str) -> bool {
+  if let Some(captures) = regx::DIRECTIVE_IFDEF.captures(src) {
+    captures[2].is_empty()
+  } else {
+    regx::DIRECTIVE_IFEVAL
+      .captures(src)
+      .is_some_and(|captures| captures[1].is_empty())
+  }
+}
diff --git a/parser/src/tasks/directives/mod.rs b/parser/src/tasks/directives/mod.rs
index 06e1540..5f7e5eb 100644
--- a/parser/src/tasks/directives/mod.rs
+++ b/parser/src/tasks/directives/mod.rs
@@ -39,6 +39,7 @@ impl<'arena> Parser<'arena> {
       )?;
       return Ok(DirectiveAction::Passthrough);
     }
+    self.ctx.ifdef_stack.pop();
     Ok(DirectiveAction::ReadNextLine)
   }
 }
diff --git a/parser/src/tasks/table/parse_table.rs b/parser/src/tasks/table/parse_table.rs
index 7f85d9c..bbfda63 100644
--- a/parser/src/tasks/table/parse_table.rs
+++ b/parser/src/tasks/table/parse_table.rs
@@ -100,7 +100,6 @@ impl<'arena> Parser<'arena> {
     }
 
     let (mut tokens, end_loc) = self.table_content(lines, &delim_line)?;
-    self.ctx.verbatim_delim = None;
     if ctx.counting_cols {
       if !matches!(ctx.format, DataFormat::Prefix(_)) {
         self.parse_dsv_implicit_first_row(&mut tokens, &mut ctx)?;
@@ -374,6 +373,10 @@ impl<'arena> Parser<'arena> {
     while let Some(line) = lines.consume_current() {
       // TODO(perf): src_eq is O(n), see if we can refactor
       if line.src_eq(start_delim) {
+        self.ctx.verbatim_delim = None;
+        for line in (0..lines.len()).filter_map(|n| lines.nth(n)) {
+          self.update_verbatim_delim(line);
+        }
         self.restore_lines(lines);
         return Ok((TableTokens::new(tokens), line.last_loc().unwrap()));
       }
@@ -399,6 +402,7 @@ impl<'arena> Parser<'arena> {
       }
       // TODO(perf): src_eq is O(n), see if we can refactor
       if next_line.src_eq(start_delim) {
+        self.ctx.verbatim_delim = None;
         return Ok((TableTokens::new(tokens), next_line.last_loc().unwrap()));
       }
       if let Some(loc) = next_line.last_loc() {
@@ -406,6 +410,7 @@ impl<'arena> Parser<'arena> {
       }
       next_line.drain_into(&mut tokens);
     }
+    self.ctx.verbatim_delim = None;
     self.err_line("Table never closed, started here", start_delim)?;
     Ok((TableTokens::new(tokens), self.lexer.loc()))
   }
-- 
2.43.0


From 2e6671229bbef0308137e371a4b58320d8a101a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:48 +0000
Subject: [PATCH 076/182] fix: accumulate the leveloffset of nested includes

---
 parser/src/tasks/directives/includes/process_includes.rs | 3 ++-
 parser/src/tasks/heading_level.rs                        | 8 ++++----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/parser/src/tasks/directives/includes/process_includes.rs b/parser/src/tasks/directives/includes/process_includes.rs
index 0c3e246..f9d5aef 100644
--- a/parser/src/tasks/directives/includes/process_includes.rs
+++ b/parser/src/tasks/directives/includes/process_includes.rs
@@ -89,7 +89,8 @@ impl<'arena> Parser<'arena> {
         }
         self.select_lines(&directive.attrs, &target_abspath, &mut buffer)?;
         self.set_include_indentation(&directive.attrs, &mut buffer);
-        let mut leveloffset = 0;
+        // the offsets of nested includes accumulate
+        let mut leveloffset = self.lexer.leveloffset(self.lexer.source_idx());
         if let Some(offset_attr) = directive
           .attrs
           .named("leveloffset")
diff --git a/parser/src/tasks/heading_level.rs b/parser/src/tasks/heading_level.rs
index e92fbaf..5b60dcd 100644
--- a/parser/src/tasks/heading_level.rs
+++ b/parser/src/tasks/heading_level.rs
@@ -3,11 +3,11 @@ use crate::internal::*;
 impl<'arena> Parser<'arena> {
   pub fn line_heading_level(&self, line: &Line) -> Option<u8> {
     let unadjusted = line.unadjusted_heading_level()?;
+    let include_depth = line.first_loc().unwrap().include_depth;
+    let leveloffset = self.lexer.leveloffset(include_depth);
     Some(adjusted_leveloffset(
-      self
-        .lexer
-        .leveloffset(line.first_loc().unwrap().include_depth),
-      adjusted_leveloffset(self.ctx.leveloffset, unadjusted),
+      leveloffset.saturating_add(self.ctx.leveloffset),
+      unadjusted,
     ))
   }
 
-- 
2.43.0


From 92a98955f4efc9e22e4c30ef33a0c529ba43e1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:48 +0000
Subject: [PATCH 077/182] fix: keep blank lines out of include indentation

---
 parser/src/tasks/directives/includes/process_includes.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/parser/src/tasks/directives/includes/process_includes.rs b/parser/src/tasks/directives/includes/process_includes.rs
index f9d5aef..502cf49 100644
--- a/parser/src/tasks/directives/includes/process_includes.rs
+++ b/parser/src/tasks/directives/includes/process_includes.rs
@@ -246,7 +246,7 @@ fn _set_indentation<'arena>(indent: usize, buf: &mut BumpVec<'arena, u8>, bump:
   let Some(min_indent) = trimmed
     .split(|&c| c == b'\n')
     .fold(Option::<usize>::None, |acc, line| {
-      if line == b"asciidorkinclude::[false]" {
+      if line.is_empty() || line == b"asciidorkinclude::[false]" {
         return acc;
       }
       let line_indent = line.iter().take_while(|&&c| c == b' ').count();
@@ -262,11 +262,13 @@ fn _set_indentation<'arena>(indent: usize, buf: &mut BumpVec<'arena, u8>, bump:
     let mut dest = BumpVec::with_capacity_in(buf.len(), bump);
     buf.split(|&c| c == b'\n').for_each(|line| {
       let line_indent = line.iter().take_while(|&&c| c == b' ').count();
-      if line_indent >= min_indent {
+      if line == b"asciidorkinclude::[false]" {
+        dest.extend(line);
+      } else if !line.is_empty() {
         dest.extend(std::iter::repeat_n(b' ', line_indent - min_indent + indent));
         dest.extend(line.iter().skip(line_indent));
-        dest.push(b'\n');
       }
+      dest.push(b'\n');
     });
     dest.pop();
     std::mem::swap(buf, &mut dest);
-- 
2.43.0


From 1c236e7a5dec7416adad9086d61a562eb1fa8911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:48 +0000
Subject: [PATCH 078/182] fix: keep the text of an include directive that is
 not processed

---
 parser/src/tasks/directives/includes/process_includes.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parser/src/tasks/directives/includes/process_includes.rs b/parser/src/tasks/directives/includes/process_includes.rs
index 502cf49..2f0400b 100644
--- a/parser/src/tasks/directives/includes/process_includes.rs
+++ b/parser/src/tasks/directives/includes/process_includes.rs
@@ -139,7 +139,7 @@ impl<'arena> Parser<'arena> {
 
   fn valid_include_directive(
     &mut self,
-    line: &mut Line<'arena>,
+    line: &Line<'arena>,
   ) -> Result<Option<IncludeDirective<'arena>>> {
     if line.num_tokens() < 4
       || !line.contains_nonescaped(OpenBracket)
@@ -149,6 +149,7 @@ impl<'arena> Parser<'arena> {
     }
     let src = line.reassemble_src();
     if let Some(captures) = VALID_INCLUDE.captures(&src) {
+      let mut line = line.clone();
       let target = captures.get(1).unwrap().as_str();
       let has_spaces = target.contains(' ');
       let target = self.string(target);
@@ -162,7 +163,7 @@ impl<'arena> Parser<'arena> {
         target,
         target_has_spaces: has_spaces,
         target_is_uri,
-        attrs: self.parse_block_macro_attr_list(line)?,
+        attrs: self.parse_block_macro_attr_list(&mut line)?,
       }))
     } else {
       Ok(None)
-- 
2.43.0


From 31913c22aaac3959295fb191930e79233071096b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:48 +0000
Subject: [PATCH 079/182] fix: limit the nesting of includes, not their number

---
 parser/src/lexer/root_lexer.rs                           | 9 ++++++++-
 parser/src/tasks/directives/includes/process_includes.rs | 2 +-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/parser/src/lexer/root_lexer.rs b/parser/src/lexer/root_lexer.rs
index 80d233e..c349c24 100644
--- a/parser/src/lexer/root_lexer.rs
+++ b/parser/src/lexer/root_lexer.rs
@@ -374,10 +374,17 @@ impl<'arena> RootLexer<'arena> {
     self.idx
   }
 
+  /// how many includes the current source is nested in
+  pub fn include_nesting(&self) -> u16 {
+    self.source_stack.len() as u16
+  }
+
   pub fn max_include_depth(&self) -> Option<(u16, u16)> {
     self
-      .sources
+      .source_stack
       .iter()
+      .chain(std::iter::once(&self.idx))
+      .map(|idx| &self.sources[*idx as usize])
       .enumerate()
       .fold(None, |current, (i, src)| {
         src.max_include_depth.map(|d| (d, i as u16)).or(current)
diff --git a/parser/src/tasks/directives/includes/process_includes.rs b/parser/src/tasks/directives/includes/process_includes.rs
index 2f0400b..8c8caa4 100644
--- a/parser/src/tasks/directives/includes/process_includes.rs
+++ b/parser/src/tasks/directives/includes/process_includes.rs
@@ -231,7 +231,7 @@ impl<'arena> Parser<'arena> {
       .max_include_depth()
       .unwrap_or((self.ctx.max_include_depth, 0));
     let abs_depth = u16::min(rel_depth + stack_depth, self.ctx.max_include_depth);
-    if self.lexer.include_depth() + 1 > abs_depth {
+    if self.lexer.include_nesting() + 1 > abs_depth {
       Some(rel_depth)
     } else {
       None
-- 
2.43.0


From d6174df1719a59cc544165323c8de628c944278d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:48 +0000
Subject: [PATCH 080/182] fix: select no empty line after the last one of an
 included file

---
 .../tasks/directives/includes/normalize_includes.rs   | 11 ++++++++++-
 parser/src/tasks/directives/includes/tags.rs          |  2 +-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/parser/src/tasks/directives/includes/normalize_includes.rs b/parser/src/tasks/directives/includes/normalize_includes.rs
index b9de942..23f22a3 100644
--- a/parser/src/tasks/directives/includes/normalize_includes.rs
+++ b/parser/src/tasks/directives/includes/normalize_includes.rs
@@ -47,6 +47,7 @@ impl<'arena> Parser<'arena> {
         dest.push(*b);
       }
     }
+    trim_trailing_whitespace(&mut dest);
     std::mem::swap(bytes, &mut dest);
   }
 
@@ -57,7 +58,7 @@ impl<'arena> Parser<'arena> {
     }
 
     let mut selected = BumpVec::with_capacity_in(bytes.len(), self.bump);
-    for (i, line) in bytes.split(|&b| b == b'\n').enumerate() {
+    for (i, line) in split_lines(bytes).enumerate() {
       if ranges.iter().any(|range| range.contains(&(i + 1))) {
         selected.extend(line);
         selected.push(b'\n');
@@ -134,6 +135,14 @@ impl<'arena> Parser<'arena> {
   }
 }
 
+/// a trailing newline ends the last line, it does not start another one
+pub(super) fn split_lines(bytes: &[u8]) -> impl Iterator<Item = &[u8]> {
+  bytes
+    .strip_suffix(b"\n")
+    .unwrap_or(bytes)
+    .split(|&b| b == b'\n')
+}
+
 fn trim_trailing_whitespace(bytes: &mut BumpVec<u8>) {
   let mut i = bytes.len();
   while i > 0 && (bytes[i - 1] == b' ' || bytes[i - 1] == b'\t') {
diff --git a/parser/src/tasks/directives/includes/tags.rs b/parser/src/tasks/directives/includes/tags.rs
index 91f4ebe..6335cf8 100644
--- a/parser/src/tasks/directives/includes/tags.rs
+++ b/parser/src/tasks/directives/includes/tags.rs
@@ -192,7 +192,7 @@ impl<'arena> Parser<'arena> {
   ) -> Result<()> {
     let mut dest = BumpVec::with_capacity_in(src.len(), self.bump);
     let mut tag_stack = TagStack::new();
-    let lines = src.split(|&c| c == b'\n');
+    let lines = super::normalize_includes::split_lines(src);
     let strategy = selection.strategy();
     let mut expected_tags = selection.expected_tags();
     let mut pushed_non_empty_line = false;
-- 
2.43.0


From 5a74f2f1cf0d912722a4a4661893525de2e989d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:48 +0000
Subject: [PATCH 081/182] fix: exclude only tagged regions nested in the
 included one

---
 parser/src/tasks/directives/includes/tags.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/parser/src/tasks/directives/includes/tags.rs b/parser/src/tasks/directives/includes/tags.rs
index 6335cf8..69e6619 100644
--- a/parser/src/tasks/directives/includes/tags.rs
+++ b/parser/src/tasks/directives/includes/tags.rs
@@ -35,7 +35,7 @@ impl Spec {
       Spec::Tag(tag) => stack.contains(tag),
       Spec::AllLinesExcl(tag) => !stack.contains(tag),
       Spec::TagExclAllNested(tag) => stack.last_is(tag),
-      Spec::TagExclNested(incl, excl) => stack.contains(incl) && !stack.contains(excl),
+      Spec::TagExclNested(incl, excl) => stack.contains(incl) && !stack.nests(excl, incl),
       Spec::AllTaggedExcl(tag) => !stack.is_empty() && !stack.contains(tag),
       Spec::AllUntaggedIncl(tag) => stack.is_empty() || stack.last_is(tag),
     }
@@ -317,6 +317,16 @@ impl TagStack {
   fn contains(&self, tag: &str) -> bool {
     self.0.iter().any(|(t, _)| t == tag)
   }
+
+  /// whether `tag` is open within the innermost `within`
+  fn nests(&self, tag: &str, within: &str) -> bool {
+    self
+      .0
+      .iter()
+      .rev()
+      .take_while(|(t, _)| t != within)
+      .any(|(t, _)| t == tag)
+  }
 }
 
 #[derive(Debug, PartialEq, Eq)]
-- 
2.43.0


From 1f3713cf4a71952646bfd564c414d981d7df7c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:49 +0000
Subject: [PATCH 082/182] fix: keep blank lines around includes as if inlined

---
 parser/src/parser.rs                          | 34 +++++++++----------
 .../directives/includes/process_includes.rs   |  3 ++
 2 files changed, 19 insertions(+), 18 deletions(-)

diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index 285d65d..3849c89 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -110,7 +110,7 @@ impl<'arena> Parser<'arena> {
   }
 
   pub(crate) fn read_line(&mut self) -> Result<Option<Line<'arena>>> {
-    Ok(self._read_line(false, false)?.map(|(line, _)| line))
+    self._read_line(false)
   }
 
   /// keep track of whether the next line is within a verbatim block
@@ -127,18 +127,14 @@ impl<'arena> Parser<'arena> {
 
   /// read the line following one that leaves no trace in the document (directives, etc.)
   /// when reading a group of contiguous lines, an empty line is left to end the group
-  fn read_line_after_removed(&mut self, in_group: bool) -> Result<Option<(Line<'arena>, bool)>> {
+  fn read_line_after_removed(&mut self, in_group: bool) -> Result<Option<Line<'arena>>> {
     if in_group && self.lexer.at_newline() {
       return Ok(None);
     }
-    self._read_line(false, in_group)
+    self._read_line(in_group)
   }
 
-  fn _read_line(
-    &mut self,
-    ignored_last: bool,
-    in_group: bool,
-  ) -> Result<Option<(Line<'arena>, bool)>> {
+  fn _read_line(&mut self, in_group: bool) -> Result<Option<Line<'arena>>> {
     assert!(self.peeked_lines.is_none());
     if self.lexer.is_eof() || self.quoted_lines.is_some() {
       return Ok(None);
@@ -175,17 +171,18 @@ impl<'arena> Parser<'arena> {
     self.update_verbatim_delim(&line);
     if line.starts(TokenKind::Directive) && !self.ctx.within_block_comment() {
       match self.try_process_directive(&mut line)? {
-        DirectiveAction::Passthrough => Ok(Some((line, ignored_last))),
-        DirectiveAction::SubstituteLine(line) => Ok(Some((line, ignored_last))),
-        DirectiveAction::IgnoreNotIncluded => self._read_line(true, false),
-        DirectiveAction::ReadNextLine => self.read_line_after_removed(in_group),
+        DirectiveAction::Passthrough => Ok(Some(line)),
+        DirectiveAction::SubstituteLine(line) => Ok(Some(line)),
+        DirectiveAction::IgnoreNotIncluded | DirectiveAction::ReadNextLine => {
+          self.read_line_after_removed(in_group)
+        }
         DirectiveAction::SkipLinesUntilEndIf => {
           self.skip_lines_until_endif(&line)?;
           self.read_line_after_removed(in_group)
         }
       }
     } else {
-      Ok(Some((line, ignored_last)))
+      Ok(Some(line))
     }
   }
 
@@ -204,7 +201,7 @@ impl<'arena> Parser<'arena> {
     let mut lines = Deq::new(self.bump);
     let mut only_meta = true;
     loop {
-      let Some((line, ignored_removed_include_line)) = self._read_line(false, true)? else {
+      let Some(line) = self._read_line(true)? else {
         if !lines.is_empty() {
           break;
         }
@@ -221,11 +218,12 @@ impl<'arena> Parser<'arena> {
           // that then resolved to an initial empty line, otherwise consume_empty_lines
           // would have skipped over it, so we keep going
           continue;
-        } else if !ignored_removed_include_line {
-          // this case can happen if our first non-empty line was an include directive
-          // this case happens only when we DROP a line
-          break;
         }
+        // a line of only whitespace
+        if self.ctx.verbatim_delim.is_some() {
+          lines.push(line);
+        }
+        break;
       }
       if line.is_delimiter_kind(DelimiterKind::Comment) {
         self.ctx.comment_delim_in_lines = true;
diff --git a/parser/src/tasks/directives/includes/process_includes.rs b/parser/src/tasks/directives/includes/process_includes.rs
index 8c8caa4..e761ac8 100644
--- a/parser/src/tasks/directives/includes/process_includes.rs
+++ b/parser/src/tasks/directives/includes/process_includes.rs
@@ -89,6 +89,9 @@ impl<'arena> Parser<'arena> {
         }
         self.select_lines(&directive.attrs, &target_abspath, &mut buffer)?;
         self.set_include_indentation(&directive.attrs, &mut buffer);
+        if buffer.is_empty() {
+          return Ok(DirectiveAction::ReadNextLine);
+        }
         // the offsets of nested includes accumulate
         let mut leveloffset = self.lexer.leveloffset(self.lexer.source_idx());
         if let Some(offset_attr) = directive
-- 
2.43.0


From 9691e25382d5cd3be57cdd41f2c2975acfa9f14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:01 +0000
Subject: [PATCH 083/182] fix: ignore trailing whitespace of source lines
 outside verbatim text

---
 parser/src/line.rs   | 19 +++++++++++++++++++
 parser/src/parser.rs |  4 ++++
 2 files changed, 23 insertions(+)

diff --git a/parser/src/line.rs b/parser/src/line.rs
index f051b7f..aec1ad6 100644
--- a/parser/src/line.rs
+++ b/parser/src/line.rs
@@ -336,6 +336,25 @@ impl<'arena> Line<'arena> {
     self.tokens.pop()
   }
 
+  /// discard trailing whitespace, except for incomplete markers (`* `) and in verbatim text
+  pub fn discard_insignificant_whitespace(&mut self, verbatim: bool) {
+    let num_tokens = self.num_tokens_before_trailing_whitespace();
+    if num_tokens == self.num_tokens() {
+      return;
+    }
+    let insignificant = match num_tokens {
+      0 => false,
+      1 => self
+        .current_token()
+        .is_some_and(|t| t.to_delimiter_kind().is_some() || t.is_kind_len(Plus, 1)),
+      _ => !verbatim,
+    };
+    if insignificant {
+      self.discard_last();
+      self.orig_len -= 1;
+    }
+  }
+
   pub fn discard_assert_last(&mut self, kind: TokenKind) {
     let token = self.discard_last();
     debug_assert!(token.unwrap().kind(kind));
diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index 3849c89..e3ac2ca 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -165,6 +165,10 @@ impl<'arena> Parser<'arena> {
       self.push_token_replacing_attr_ref(token, &mut line, &mut drop_line)?;
     }
     self.lexer.skip_newline();
+    // included lines are already normalized
+    if self.lexer.source_is_primary() {
+      line.discard_insignificant_whitespace(self.ctx.verbatim_delim.is_some());
+    }
     if drop_line {
       return self.read_line_after_removed(in_group);
     }
-- 
2.43.0


From 0497adb29f08c5ec011f6056603b31897182c1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:10 +0000
Subject: [PATCH 084/182] fix: report invalid cross references in source order

---
 parser/src/tasks/diagnose_document.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser/src/tasks/diagnose_document.rs b/parser/src/tasks/diagnose_document.rs
index 5215ac7..2af34ea 100644
--- a/parser/src/tasks/diagnose_document.rs
+++ b/parser/src/tasks/diagnose_document.rs
@@ -11,7 +11,10 @@ impl Parser<'_> {
     if self.ctx.table_cell_ctx != TableCellContext::None {
       return Ok(());
     }
-    for (ref_target, ref_loc) in self.ctx.xrefs.borrow().iter() {
+    let xrefs = self.ctx.xrefs.borrow();
+    let mut xrefs: Vec<_> = xrefs.iter().collect();
+    xrefs.sort_unstable_by_key(|(_, loc)| (loc.include_depth, loc.start));
+    for (ref_target, ref_loc) in xrefs {
       let Some((idx, id)) = self.target_data(ref_target, ref_loc.include_depth) else {
         // couldn't find source idx
         self.invalid_xref(ref_target, *ref_loc)?;
-- 
2.43.0


From 283615a8f82e7bd245ba7b93f1ade1ff3b33cc96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:38 +0000
Subject: [PATCH 085/182] fix: recognize delimiter lines with trailing
 whitespace

---
 parser/src/lexer/source_lexer.rs | 46 +++++++++++---------------------
 parser/src/line.rs               |  7 ++---
 parser/src/parser.rs             |  5 ++--
 3 files changed, 21 insertions(+), 37 deletions(-)

diff --git a/parser/src/lexer/source_lexer.rs b/parser/src/lexer/source_lexer.rs
index 31cf8da..d47e724 100644
--- a/parser/src/lexer/source_lexer.rs
+++ b/parser/src/lexer/source_lexer.rs
@@ -175,41 +175,25 @@ impl<'arena> SourceLexer<'arena> {
     {
       return None;
     }
-    let sequence = [
-      self.nth(0),
-      self.nth(1),
-      self.nth(2),
-      self.nth(3),
-      self.nth(4),
-    ];
-    match sequence {
-      [Some(b'`'), Some(b'`'), Some(b'`'), b, _] if b != Some(b'`') => Some((3, b'`')),
-      [Some(b'-'), Some(b'-'), Some(b'\n' | b'\r') | None, _, _] => Some((2, b'-')),
-      #[rustfmt::skip]
-        [Some(b'*'), Some(b'*'), Some(b'*'), Some(b'*'), Some(b'\n' | b'\r') | None]
-      | [Some(b'_'), Some(b'_'), Some(b'_'), Some(b'_'), Some(b'\n' | b'\r') | None]
-      | [Some(b'-'), Some(b'-'), Some(b'-'), Some(b'-'), Some(b'\n' | b'\r') | None]
-      | [Some(b'+'), Some(b'+'), Some(b'+'), Some(b'+'), Some(b'\n' | b'\r') | None]
-      | [Some(b'.'), Some(b'.'), Some(b'.'), Some(b'.'), Some(b'\n' | b'\r') | None]
-      | [Some(b'/'), Some(b'/'), Some(b'/'), Some(b'/'), Some(b'\n' | b'\r') | None]
-      | [Some(b'='), Some(b'='), Some(b'='), Some(b'='), Some(b'\n' | b'\r') | None] => {
-        Some((4, sequence[0].unwrap()))
-      },
-      [Some(b'='), Some(b'='), Some(b'='), Some(b'='), Some(b'=')] => {
-        let mut n = 5;
-        while self.nth(n) == Some(b'=') {
-          n += 1;
-        }
-        if matches!(self.nth(n), Some(b'\n' | b'\r') | None) {
-          Some((n, b'='))
-        } else {
-          None
-        }
-      }
+    let ch = self.peek()?;
+    let len = (1..).take_while(|n| self.nth(*n) == Some(ch)).count() as u32 + 1;
+    match (ch, len) {
+      (b'`', 3) => Some((3, ch)),
+      (b'`', _) => None,
+      (b'-', 2) | (_, 4) if self.blank_from(len) => Some((len, ch)),
+      (b'=', 5..) if self.blank_from(len) => Some((len, ch)),
       _ => None,
     }
   }
 
+  /// whether only whitespace follows on the line
+  fn blank_from(&self, mut n: u32) -> bool {
+    while matches!(self.nth(n), Some(b' ' | b'\t')) {
+      n += 1;
+    }
+    matches!(self.nth(n), Some(b'\n' | b'\r') | None)
+  }
+
   pub fn truncate(&mut self) {
     self.src.truncate(self.pos as usize);
   }
diff --git a/parser/src/line.rs b/parser/src/line.rs
index aec1ad6..1ac1461 100644
--- a/parser/src/line.rs
+++ b/parser/src/line.rs
@@ -336,8 +336,9 @@ impl<'arena> Line<'arena> {
     self.tokens.pop()
   }
 
-  /// discard trailing whitespace, except for incomplete markers (`* `) and in verbatim text
-  pub fn discard_insignificant_whitespace(&mut self, verbatim: bool) {
+  /// discard trailing whitespace, except for that of incomplete markers (`* `), and,
+  /// if `keep` is set, of all lines but delimiters
+  pub fn discard_insignificant_whitespace(&mut self, keep: bool) {
     let num_tokens = self.num_tokens_before_trailing_whitespace();
     if num_tokens == self.num_tokens() {
       return;
@@ -347,7 +348,7 @@ impl<'arena> Line<'arena> {
       1 => self
         .current_token()
         .is_some_and(|t| t.to_delimiter_kind().is_some() || t.is_kind_len(Plus, 1)),
-      _ => !verbatim,
+      _ => !keep,
     };
     if insignificant {
       self.discard_last();
diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index e3ac2ca..9dd1a6a 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -166,9 +166,8 @@ impl<'arena> Parser<'arena> {
     }
     self.lexer.skip_newline();
     // included lines are already normalized
-    if self.lexer.source_is_primary() {
-      line.discard_insignificant_whitespace(self.ctx.verbatim_delim.is_some());
-    }
+    let keep = self.ctx.verbatim_delim.is_some() || !self.lexer.source_is_primary();
+    line.discard_insignificant_whitespace(keep);
     if drop_line {
       return self.read_line_after_removed(in_group);
     }
-- 
2.43.0


From d2a5d5b6cb037f81ee88ae7a4c5b1074183acb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:09 +0000
Subject: [PATCH 086/182] fix: drop carriage returns in multi-line attribute
 entries kept as text

---
 parser/src/tasks/parse_doc_attrs.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parser/src/tasks/parse_doc_attrs.rs b/parser/src/tasks/parse_doc_attrs.rs
index c47ed99..7eb3078 100644
--- a/parser/src/tasks/parse_doc_attrs.rs
+++ b/parser/src/tasks/parse_doc_attrs.rs
@@ -206,7 +206,12 @@ impl<'arena> Parser<'arena> {
     // the token now represents the entire attr def
     token.kind = TokenKind::AttrDef;
     token.loc = attr_def_loc;
-    token.lexeme = self.string(self.lexer.str_from_loc(attr_def_loc));
+    let src = self.lexer.str_from_loc(attr_def_loc);
+    token.lexeme = if src.contains('\r') {
+      self.string(&src.replace("\r\n", "\n"))
+    } else {
+      self.string(src)
+    };
     match buf_end {
       Some(_) => self.lexer.truncate_tmp_buf(),
       None => self.lexer.set_pos(pos),
-- 
2.43.0


From 6b4b7453810eada0c93c0f45f5c05383d7213852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:09 +0000
Subject: [PATCH 087/182] fix: treat lines of only whitespace as blank outside
 verbatim text

---
 parser/src/lexer/root_lexer.rs        |  4 ++++
 parser/src/lexer/source_lexer.rs      |  4 ++++
 parser/src/parser.rs                  |  4 ++++
 parser/src/tasks/table/parse_table.rs | 11 ++++++++---
 4 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/parser/src/lexer/root_lexer.rs b/parser/src/lexer/root_lexer.rs
index c349c24..a6db8b9 100644
--- a/parser/src/lexer/root_lexer.rs
+++ b/parser/src/lexer/root_lexer.rs
@@ -301,6 +301,10 @@ impl<'arena> RootLexer<'arena> {
       .and_then(|source| source.at_delimiter_line())
   }
 
+  pub fn at_blank_line(&self) -> bool {
+    self.tmp_buf.is_none() && self.sources[self.idx as usize].at_blank_line()
+  }
+
   pub fn is_eof(&self) -> bool {
     self.peek().is_none()
   }
diff --git a/parser/src/lexer/source_lexer.rs b/parser/src/lexer/source_lexer.rs
index d47e724..d5fd13b 100644
--- a/parser/src/lexer/source_lexer.rs
+++ b/parser/src/lexer/source_lexer.rs
@@ -186,6 +186,10 @@ impl<'arena> SourceLexer<'arena> {
     }
   }
 
+  pub fn at_blank_line(&self) -> bool {
+    !self.is_eof() && self.at_line_start() && self.blank_from(0)
+  }
+
   /// whether only whitespace follows on the line
   fn blank_from(&self, mut n: u32) -> bool {
     while matches!(self.nth(n), Some(b' ' | b'\t')) {
diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index 9dd1a6a..653e618 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -153,6 +153,7 @@ impl<'arena> Parser<'arena> {
             token.kind,
             Colon | EqualSigns | Word | ForwardSlashes | Directive | OpenBracket
           )
+          && !(token.kind == Whitespace && self.lexer.at_newline())
         {
           self.ctx.in_header = false;
         } else if token.kind == Colon
@@ -241,6 +242,9 @@ impl<'arena> Parser<'arena> {
       if is_attr_entry || self.lexer.at_newline() {
         break;
       }
+      if self.ctx.verbatim_delim.is_none() && self.lexer.at_blank_line() {
+        break;
+      }
     }
     if lines.is_empty() {
       Ok(None)
diff --git a/parser/src/tasks/table/parse_table.rs b/parser/src/tasks/table/parse_table.rs
index bbfda63..3c5ea5f 100644
--- a/parser/src/tasks/table/parse_table.rs
+++ b/parser/src/tasks/table/parse_table.rs
@@ -99,7 +99,7 @@ impl<'arena> Parser<'arena> {
       ctx.header_row = HeaderRow::FoundNone;
     }
 
-    let (mut tokens, end_loc) = self.table_content(lines, &delim_line)?;
+    let (mut tokens, end_loc) = self.table_content(lines, &delim_line, ctx.cell_separator)?;
     if ctx.counting_cols {
       if !matches!(ctx.format, DataFormat::Prefix(_)) {
         self.parse_dsv_implicit_first_row(&mut tokens, &mut ctx)?;
@@ -366,6 +366,7 @@ impl<'arena> Parser<'arena> {
     &mut self,
     mut lines: ContiguousLines<'arena>,
     start_delim: &Line<'arena>,
+    separator: char,
   ) -> Result<(TableTokens<'arena>, SourceLocation)> {
     let mut tokens = Deq::with_capacity(lines.num_tokens(), self.bump);
     let delim_loc = start_delim.last_loc().unwrap();
@@ -386,7 +387,9 @@ impl<'arena> Parser<'arena> {
       if let Some(loc) = line.last_loc() {
         end = loc.end;
       }
-      line.drain_into(&mut tokens);
+      if !line.is_emptyish() || separator.is_whitespace() {
+        line.drain_into(&mut tokens);
+      }
       if !lines.is_empty() {
         tokens.push(newline_token(end, delim_loc.include_depth, self.bump));
         end += 1;
@@ -408,7 +411,9 @@ impl<'arena> Parser<'arena> {
       if let Some(loc) = next_line.last_loc() {
         end = loc.end;
       }
-      next_line.drain_into(&mut tokens);
+      if !next_line.is_emptyish() || separator.is_whitespace() {
+        next_line.drain_into(&mut tokens);
+      }
     }
     self.ctx.verbatim_delim = None;
     self.err_line("Table never closed, started here", start_delim)?;
-- 
2.43.0


From f64516a4d5150b64de80c19dcb6b7bf5e088406d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:08 +0000
Subject: [PATCH 088/182] fix: don't let a formatted text attribute list span
 lines of a table cell

---
 parser/src/line.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/src/line.rs b/parser/src/line.rs
index 1ac1461..fccef37 100644
--- a/parser/src/line.rs
+++ b/parser/src/line.rs
@@ -963,6 +963,7 @@ impl<'arena> Line<'arena> {
     idx != 0
       && self.first_nonescaped(CloseBracket).map(|(_, i)| i) == Some(idx)
       && self.index_of_kind(OpenBracket).is_none_or(|open| open > idx)
+      && self.index_of_kind(Newline).is_none_or(|newline| newline > idx)
   }
 
   pub fn continues_inline_anchor(&self) -> bool {
-- 
2.43.0


From 25aaee3b9b55f87069c6c557612448cb08246b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:08 +0000
Subject: [PATCH 089/182] fix: don't take an incomplete directive for one at
 the end of a line

---
 parser/src/lexer/source_lexer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/src/lexer/source_lexer.rs b/parser/src/lexer/source_lexer.rs
index d5fd13b..7470b9a 100644
--- a/parser/src/lexer/source_lexer.rs
+++ b/parser/src/lexer/source_lexer.rs
@@ -337,7 +337,8 @@ impl<'arena> SourceLexer<'arena> {
           )
           && self.remaining_len() > if lexeme == b"endif" { 3 } else { 4 } =>
       {
-        if !self.peek_n(2).unwrap().is_ascii_whitespace() {
+        let n = if self.peek_n(2) == Some(b':') { 3 } else { 2 };
+        if self.peek_n(n).is_some_and(|c| !c.is_ascii_whitespace()) {
           self.advance();
           self.advance();
           return self.token(Directive, start, end + 2);
-- 
2.43.0


From 49552bee2fdef0b17af22aef6b27059ca5f9a05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:14 +0000
Subject: [PATCH 090/182] fix: restore the bibliography context after a
 bibliography list

---
 parser/src/tasks/parse_list.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/parser/src/tasks/parse_list.rs b/parser/src/tasks/parse_list.rs
index b5a7aed..8d9ab6b 100644
--- a/parser/src/tasks/parse_list.rs
+++ b/parser/src/tasks/parse_list.rs
@@ -23,6 +23,7 @@ impl<'arena> Parser<'arena> {
     let mut items = BumpVec::new_in(self.bump);
     let mut auto_conum = 1;
 
+    let prev_bibliography_ctx = self.ctx.bibliography_ctx;
     if variant == ListVariant::Unordered
       && (self.ctx.bibliography_ctx == BiblioContext::Section
         || meta
@@ -37,9 +38,7 @@ impl<'arena> Parser<'arena> {
       items.push(item);
     }
 
-    if self.ctx.bibliography_ctx == BiblioContext::List {
-      self.ctx.bibliography_ctx = BiblioContext::Section;
-    }
+    self.ctx.bibliography_ctx = prev_bibliography_ctx;
     self.ctx.list.stack.pop();
     if variant == ListVariant::Callout {
       self.ctx.advance_callout_list(self.bump);
-- 
2.43.0


From c78699325edcf7a7efbe7a3449a1f3563868b136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:40 +0000
Subject: [PATCH 091/182] fix: resolve references to empty attributes, keep
 missing ones in verbatim text

---
 parser/src/tasks/attr_refs.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/parser/src/tasks/attr_refs.rs b/parser/src/tasks/attr_refs.rs
index 2966495..74b52cf 100644
--- a/parser/src/tasks/attr_refs.rs
+++ b/parser/src/tasks/attr_refs.rs
@@ -97,17 +97,22 @@ impl<'arena> Parser<'arena> {
           }
           line.push(token);
         }
+        Some(AttrValue::Bool(true)) => line.push(token),
         _ => {
           #[cfg(feature = "attr_ref_observation")]
           if let Some(ref mut observer) = self.attr_ref_observer.as_mut() {
             observer.attr_ref_missing(token.attr_name(), token.loc);
           }
+          // the first lines of a verbatim block are read before its substitutions are known
+          let in_verbatim =
+            self.ctx.verbatim_delim.is_some() && self.ctx.verbatim_delim != self.ctx.delimiter;
           match self.document.meta.str("attribute-missing") {
-            Some("drop") => {}
-            Some("drop-line") => *drop_line = true,
+            Some("drop") => line.push(token),
+            Some("drop-line") if !in_verbatim => *drop_line = true,
             val => {
               token.kind = TokenKind::Word;
-              if val == Some("warn") {
+              // the text of AsciiDoc cells was already read as part of the table
+              if val == Some("warn") && !in_verbatim && !self.ctx.parsing_adoc_cell() {
                 self.err_token_full("Skipping reference to missing attribute", &token)?;
               }
               line.push(token);
-- 
2.43.0


From b0c4c5ff510c764a82f6149d4465bb11f245a7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:40 +0000
Subject: [PATCH 092/182] fix: allow comment lines between the entries of the
 document header

---
 parser/src/tasks/parse_doc_header.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser/src/tasks/parse_doc_header.rs b/parser/src/tasks/parse_doc_header.rs
index e05c14c..99001b6 100644
--- a/parser/src/tasks/parse_doc_header.rs
+++ b/parser/src/tasks/parse_doc_header.rs
@@ -152,6 +152,9 @@ impl<'arena> Parser<'arena> {
       subtitle: None, // TODO: subtitle
     });
 
+    while lines.current_satisfies(Line::is_comment) {
+      lines.consume_current();
+    }
     if lines.starts(Word) {
       let author_line = lines.consume_current().unwrap();
       header.loc.extend(author_line.last_loc().unwrap());
@@ -192,7 +195,7 @@ impl<'arena> Parser<'arena> {
     lines: &mut ContiguousLines<'arena>,
     header: &mut DocHeader,
   ) -> Result<()> {
-    while lines.current_token().kind(AttrDef) {
+    while lines.current_token().kind(AttrDef) || lines.current_satisfies(Line::is_comment) {
       let line = lines.consume_current().unwrap();
       header.loc.end = line.first_loc().unwrap().end;
     }
-- 
2.43.0


From 597d99962acf1854b249ee2154e9d2a80631a995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:40 +0000
Subject: [PATCH 093/182] fix: keep unresolved and escaped attribute references
 in attribute values

---
 core/src/regx.rs                      |  1 +
 parser/src/tasks/parse_block.rs       |  4 ++--
 parser/src/tasks/parse_doc_attrs.rs   | 20 +++++++++++++++++++-
 parser/src/tasks/parse_inlines/mod.rs |  2 +-
 4 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/core/src/regx.rs b/core/src/regx.rs
index 551fdec..b23fabd 100644
--- a/core/src/regx.rs
+++ b/core/src/regx.rs
@@ -4,6 +4,7 @@ use regex::{Regex, bytes::Regex as BytesRegex};
 // attrs
 lazy_static! {
   pub static ref ATTR_DECL: Regex = Regex::new(r"^:([^\s:]+):\s*([^\s].*)?$").unwrap();
+  pub static ref ESCAPABLE_ATTR_REF: Regex = Regex::new(r"\\?\{([A-Za-z0-9_-]+)\}").unwrap();
   pub static ref ATTR_VAL_REPLACE: Regex = Regex::new(r"\{([^\s}]+)\}").unwrap();
 }
 
diff --git a/parser/src/tasks/parse_block.rs b/parser/src/tasks/parse_block.rs
index 4348c98..544b696 100644
--- a/parser/src/tasks/parse_block.rs
+++ b/parser/src/tasks/parse_block.rs
@@ -104,9 +104,9 @@ impl<'arena> Parser<'arena> {
           .unwrap();
         // this should be fast because it's usually the last one, or very close
         let mut def = self.ctx.attr_defs.remove(pos);
-        if def.has_lbrace {
+        if def.has_lbrace && !def.in_header {
           let str_val = def.value.str().unwrap(); // only str type could have lbrace
-          let replaced = self.replace_attr_vals(str_val);
+          let replaced = self.replace_attr_refs(str_val);
           def.value = AttrValue::String(replaced.into_owned());
         }
         self.ctx.attr_defs.push(def.clone());
diff --git a/parser/src/tasks/parse_doc_attrs.rs b/parser/src/tasks/parse_doc_attrs.rs
index 7eb3078..c9d2d1e 100644
--- a/parser/src/tasks/parse_doc_attrs.rs
+++ b/parser/src/tasks/parse_doc_attrs.rs
@@ -154,7 +154,7 @@ impl<'arena> Parser<'arena> {
         self.err_line_starting("Cannot unset attr with `!` AND provide value", token.loc)?;
       }
       let mut value_string = if has_lbrace && self.ctx.in_header {
-        self.replace_attr_vals(value_str).into_owned()
+        self.replace_attr_refs(value_str).into_owned()
       } else {
         value_str.to_string()
       };
@@ -277,6 +277,24 @@ impl<'arena> Parser<'arena> {
       }
     })
   }
+
+  /// replace references in text, heeding escapes and the `attribute-missing` setting
+  pub(crate) fn replace_attr_refs<'h>(&self, haystack: &'h str) -> Cow<'h, str> {
+    regx::ESCAPABLE_ATTR_REF.replace_all(haystack, |caps: &regex::Captures| {
+      let reference = caps.get(0).unwrap().as_str();
+      if let Some(escaped) = reference.strip_prefix('\\') {
+        return escaped.to_string();
+      }
+      match self.document.meta.get(&caps[1].to_lowercase()) {
+        Some(AttrValue::String(value)) => value.to_string(),
+        Some(AttrValue::Bool(true)) => String::new(),
+        _ => match self.document.meta.str("attribute-missing") {
+          Some("drop" | "drop-line") => String::new(),
+          _ => reference.to_string(),
+        },
+      }
+    })
+  }
 }
 
 // https://docs.asciidoctor.org/asciidoc/latest/attributes/names-and-values/#user-defined
diff --git a/parser/src/tasks/parse_inlines/mod.rs b/parser/src/tasks/parse_inlines/mod.rs
index 11dd1c0..bac27f5 100644
--- a/parser/src/tasks/parse_inlines/mod.rs
+++ b/parser/src/tasks/parse_inlines/mod.rs
@@ -931,7 +931,7 @@ impl<'arena> Parser<'arena> {
   fn push_unused_inline_attrs(&self, acc: &mut Accum<'arena>, inline_attrs: &mut Option<AttrList>) {
     if let Some(unused_attrs) = inline_attrs.take() {
       let text = self.lexer.str_from_loc(unused_attrs.loc);
-      acc.text.push_str(&self.replace_attr_vals(text));
+      acc.text.push_str(&self.replace_attr_refs(text));
     }
   }
 
-- 
2.43.0


From 1a6a11358dbf3141f3520c97aea61fb1b992700a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:54 +0000
Subject: [PATCH 094/182] fix: keep section numbers across tables of contents
 and appendices

---
 backend-html5s/src/html5s.rs            |  1 +
 backend/src/html/backend.rs             | 58 +++++++++++++++----------
 dr-html-backend/src/asciidoctor_html.rs |  1 +
 3 files changed, 37 insertions(+), 23 deletions(-)

diff --git a/backend-html5s/src/html5s.rs b/backend-html5s/src/html5s.rs
index a673650..ab1091f 100644
--- a/backend-html5s/src/html5s.rs
+++ b/backend-html5s/src/html5s.rs
@@ -148,6 +148,7 @@ impl Backend for Html5s {
       self.preamble_outer_html = Some(std::mem::take(&mut self.html));
     }
     self.state.ephemeral.insert(InTableOfContents);
+    self.on_toc_enter();
     let id = &macro_block
       .and_then(|b| b.meta.attrs.id().map(|id| id.to_string()))
       .unwrap_or("toc".to_string());
diff --git a/backend/src/html/backend.rs b/backend/src/html/backend.rs
index 5ae54b0..beb68e4 100644
--- a/backend/src/html/backend.rs
+++ b/backend/src/html/backend.rs
@@ -27,6 +27,10 @@ pub struct BackendState {
   pub footnote_outer_html: Vec<String>,
   /// the preamble has a wrapper, only when the document has a title
   pub in_preamble_wrapper: bool,
+  /// section numbers to continue with after an appendix
+  pub outer_section_nums: [u16; 5],
+  /// section, appendix and part numbers to continue with after a toc
+  pub toc_outer_nums: ([u16; 5], u8, usize),
 }
 
 pub trait HtmlBackend: HtmlBuf {
@@ -191,11 +195,35 @@ pub trait HtmlBackend: HtmlBuf {
     &mut self.state_mut().book_part_num
   }
 
+  fn on_toc_enter(&mut self) {
+    let state = self.state_mut();
+    state.toc_outer_nums = (
+      std::mem::take(&mut state.section_nums),
+      std::mem::take(&mut state.appendix_caption_num),
+      std::mem::take(&mut state.book_part_num),
+    );
+  }
+
   fn on_toc_exit(&mut self) {
     let state = self.state_mut();
-    state.section_nums = [0; 5];
-    state.appendix_caption_num = 0;
-    state.book_part_num = 0;
+    (
+      state.section_nums,
+      state.appendix_caption_num,
+      state.book_part_num,
+    ) = state.toc_outer_nums;
+  }
+
+  fn enter_appendix(&mut self) {
+    let state = self.state_mut();
+    let index = state.appendix_caption_num.into();
+    state.outer_section_nums = std::mem::replace(&mut state.section_nums, [index, 0, 0, 0, 0]);
+    state.ephemeral.insert(EphemeralState::InAppendix);
+  }
+
+  fn exit_appendix(&mut self) {
+    let state = self.state_mut();
+    state.section_nums = state.outer_section_nums;
+    state.ephemeral.remove(&EphemeralState::InAppendix);
   }
 
   fn video_element(&mut self, target: &str, attrs: &AttrList) {
@@ -687,11 +715,7 @@ pub trait HtmlBackend: HtmlBuf {
     }
     self.push_str("\">");
     if node.special_sect == Some(SpecialSection::Appendix) {
-      self.state_mut().section_nums = [0; 5];
-      self
-        .state_mut()
-        .ephemeral
-        .insert(EphemeralState::InAppendix);
+      self.enter_appendix();
       self.push_appendix_caption();
     } else if node.level == 0 {
       self.push_part_prefix();
@@ -702,11 +726,7 @@ pub trait HtmlBackend: HtmlBuf {
 
   fn exit_toc_node(&mut self, node: &TocNode) {
     if node.special_sect == Some(SpecialSection::Appendix) {
-      self.state_mut().section_nums = [0; 5];
-      self
-        .state_mut()
-        .ephemeral
-        .remove(&EphemeralState::InAppendix);
+      self.exit_appendix();
     }
     self.push_str("</li>");
   }
@@ -714,11 +734,7 @@ pub trait HtmlBackend: HtmlBuf {
   fn enter_section_state(&mut self, section: &Section) {
     match section.meta.attrs.special_sect() {
       Some(SpecialSection::Appendix) => {
-        self.state_mut().section_nums = [0; 5];
-        self
-          .state_mut()
-          .ephemeral
-          .insert(EphemeralState::InAppendix);
+        self.enter_appendix();
       }
       Some(SpecialSection::Bibliography) => {
         self
@@ -733,11 +749,7 @@ pub trait HtmlBackend: HtmlBuf {
   fn exit_section_state(&mut self, section: &Section) {
     match section.meta.attrs.special_sect() {
       Some(SpecialSection::Appendix) => {
-        self.state_mut().section_nums = [0; 5];
-        self
-          .state_mut()
-          .ephemeral
-          .remove(&EphemeralState::InAppendix);
+        self.exit_appendix();
       }
       Some(SpecialSection::Bibliography) => {
         self
diff --git a/dr-html-backend/src/asciidoctor_html.rs b/dr-html-backend/src/asciidoctor_html.rs
index 443bcf8..af3b28b 100644
--- a/dr-html-backend/src/asciidoctor_html.rs
+++ b/dr-html-backend/src/asciidoctor_html.rs
@@ -164,6 +164,7 @@ impl Backend for AsciidoctorHtml {
       self.push_str("</div>"); // close preamble section body
     }
     self.state.ephemeral.insert(InTableOfContents);
+    self.on_toc_enter();
     let id = &macro_block
       .and_then(|b| b.meta.attrs.id().map(|id| id.to_string()))
       .unwrap_or("toc".to_string());
-- 
2.43.0


From af656b8b4d842f0bf97bf09f920154ec8f86b87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:23 +0000
Subject: [PATCH 095/182] fix: number special sections only with sectnums set
 to all, and never as parts

---
 backend/src/html/backend.rs | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/backend/src/html/backend.rs b/backend/src/html/backend.rs
index beb68e4..e272f37 100644
--- a/backend/src/html/backend.rs
+++ b/backend/src/html/backend.rs
@@ -31,6 +31,8 @@ pub struct BackendState {
   pub outer_section_nums: [u16; 5],
   /// section, appendix and part numbers to continue with after a toc
   pub toc_outer_nums: ([u16; 5], u8, usize),
+  /// depth of special sections, which are only numbered with `sectnums=all`
+  pub special_section_depth: u16,
 }
 
 pub trait HtmlBackend: HtmlBuf {
@@ -555,16 +557,7 @@ pub trait HtmlBackend: HtmlBuf {
     }
     match sectnums {
       AttrValue::String(val) if val == "all" => true,
-      AttrValue::Bool(true) => {
-        if let Some(special_sect) = special_sect {
-          self
-            .doc_meta()
-            .get_doctype()
-            .supports_special_section(special_sect)
-        } else {
-          true
-        }
-      }
+      AttrValue::Bool(true) => special_sect.is_none() && self.state().special_section_depth == 0,
       _ => false,
     }
   }
@@ -717,21 +710,34 @@ pub trait HtmlBackend: HtmlBuf {
     if node.special_sect == Some(SpecialSection::Appendix) {
       self.enter_appendix();
       self.push_appendix_caption();
-    } else if node.level == 0 {
+      return;
+    }
+    if node.special_sect.is_some() {
+      self.state_mut().special_section_depth += 1;
+    }
+    if node.level == 0 && node.special_sect.is_none() {
       self.push_part_prefix();
     } else {
-      self.push_section_heading_prefix(node.level, node.special_sect);
+      // special sections of a multi-part book can be written as level 0
+      self.push_section_heading_prefix(node.level.max(1), node.special_sect);
     }
   }
 
   fn exit_toc_node(&mut self, node: &TocNode) {
     if node.special_sect == Some(SpecialSection::Appendix) {
       self.exit_appendix();
+    } else if node.special_sect.is_some() {
+      self.state_mut().special_section_depth -= 1;
     }
     self.push_str("</li>");
   }
 
   fn enter_section_state(&mut self, section: &Section) {
+    if let Some(special_sect) = section.meta.attrs.special_sect()
+      && special_sect != SpecialSection::Appendix
+    {
+      self.state_mut().special_section_depth += 1;
+    }
     match section.meta.attrs.special_sect() {
       Some(SpecialSection::Appendix) => {
         self.enter_appendix();
@@ -747,6 +753,11 @@ pub trait HtmlBackend: HtmlBuf {
   }
 
   fn exit_section_state(&mut self, section: &Section) {
+    if let Some(special_sect) = section.meta.attrs.special_sect()
+      && special_sect != SpecialSection::Appendix
+    {
+      self.state_mut().special_section_depth -= 1;
+    }
     match section.meta.attrs.special_sect() {
       Some(SpecialSection::Appendix) => {
         self.exit_appendix();
-- 
2.43.0


From 949a7939ea08c8820bbf6baaa09737b16736b74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:42 +0000
Subject: [PATCH 096/182] fix: keep the lines after the title of a book part

---
 parser/src/tasks/parse_book_part.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/src/tasks/parse_book_part.rs b/parser/src/tasks/parse_book_part.rs
index f8d1b7e..4a361f9 100644
--- a/parser/src/tasks/parse_book_part.rs
+++ b/parser/src/tasks/parse_book_part.rs
@@ -48,6 +48,7 @@ impl<'arena> Parser<'arena> {
       );
     }
 
+    self.restore_lines(lines);
     let mut title = PartTitle { meta, text: heading, id };
     let Sectioned { mut preamble, sections } = self.parse_sectioned()?;
 
-- 
2.43.0


From b95255963133c71084d220e233f4cd6167243413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:30 +0000
Subject: [PATCH 097/182] fix: close the preamble of a multi-part book before
 its special sections

---
 eval/src/eval.rs | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/eval/src/eval.rs b/eval/src/eval.rs
index c690741..752510b 100644
--- a/eval/src/eval.rs
+++ b/eval/src/eval.rs
@@ -92,18 +92,13 @@ fn eval_book(book: &MultiPartBook, ctx: &Ctx, backend: &mut impl Backend) {
   if let Some(blocks) = &book.preamble {
     backend.enter_preamble(ctx.doc.title().is_some(), blocks);
     blocks.iter().for_each(|b| eval_block(b, ctx, backend));
-    book
-      .opening_special_sects
-      .iter()
-      .for_each(|sect| eval_section(sect, ctx, backend));
     eval_toc_at(&[TocPosition::Preamble], None, ctx, backend);
     backend.exit_preamble(ctx.doc.title().is_some(), blocks);
-  } else {
-    book
-      .opening_special_sects
-      .iter()
-      .for_each(|sect| eval_section(sect, ctx, backend));
   }
+  book
+    .opening_special_sects
+    .iter()
+    .for_each(|sect| eval_section(sect, ctx, backend));
   book
     .parts
     .iter()
-- 
2.43.0


From 72c2e18a50350b366b05980c1e50fdfa3156073e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:20 +0000
Subject: [PATCH 098/182] fix: keep the parts and chapters which follow special
 sections or chapters of a book

---
 parser/src/tasks/parse_book.rs | 53 +++++++++++++++++++++++++---------
 1 file changed, 39 insertions(+), 14 deletions(-)

diff --git a/parser/src/tasks/parse_book.rs b/parser/src/tasks/parse_book.rs
index 1fd269d..be91e22 100644
--- a/parser/src/tasks/parse_book.rs
+++ b/parser/src/tasks/parse_book.rs
@@ -18,20 +18,8 @@ impl<'arena> Parser<'arena> {
     }
 
     if let Some(part) = self.parse_book_part()? {
-      let mut parts = bvec![in self.bump; part];
-      while let Some(part) = self.parse_book_part()? {
-        parts.push(part);
-      }
-      let mut closing_special_sects = bvec![in self.bump];
-      while let Some(special) = self.parse_special_sect()? {
-        closing_special_sects.push(special);
-      }
-      return Ok(Some(DocContent::Parts(MultiPartBook {
-        preamble: None,
-        opening_special_sects,
-        parts,
-        closing_special_sects,
-      })));
+      let book = self.parse_multi_part_book(opening_special_sects, part)?;
+      return Ok(Some(DocContent::Parts(book)));
     }
 
     if let Some(peeked) = self.peek_section()? {
@@ -41,6 +29,11 @@ impl<'arena> Parser<'arena> {
         opening_special_sects.extend(sectioned.sections);
         sectioned.sections = opening_special_sects;
       }
+      // chapters can precede the first part
+      if let Some(part) = self.parse_book_part()? {
+        let book = self.parse_multi_part_book(sectioned.sections, part)?;
+        return Ok(Some(DocContent::Parts(book)));
+      }
       return Ok(Some(DocContent::Sections(sectioned)));
     }
 
@@ -81,6 +74,38 @@ impl<'arena> Parser<'arena> {
     }
   }
 
+  fn parse_multi_part_book(
+    &mut self,
+    opening_special_sects: BumpVec<'arena, Section<'arena>>,
+    part: Part<'arena>,
+  ) -> Result<MultiPartBook<'arena>> {
+    let mut parts = bvec![in self.bump; part];
+    let mut special_sects = bvec![in self.bump];
+    loop {
+      if let Some(special) = self.parse_special_sect()? {
+        special_sects.push(special);
+        continue;
+      }
+      // special sections followed by more parts or chapters are not the closing ones
+      if let Some(part) = self.parse_book_part()? {
+        parts.last_mut().unwrap().sections.append(&mut special_sects);
+        parts.push(part);
+      } else if let Some(section) = self.parse_section()? {
+        let sections = &mut parts.last_mut().unwrap().sections;
+        sections.append(&mut special_sects);
+        sections.push(section);
+      } else {
+        break;
+      }
+    }
+    Ok(MultiPartBook {
+      preamble: None,
+      opening_special_sects,
+      parts,
+      closing_special_sects: special_sects,
+    })
+  }
+
   fn parse_special_sect(&mut self) -> Result<Option<Section<'arena>>> {
     let Some(mut peeked) = self.peek_section()? else {
       return Ok(None);
-- 
2.43.0


From 93bf0dc49dacb0d40c3e84b6bb92375c738ab489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:38 +0000
Subject: [PATCH 099/182] fix: keep the explicit ids of sections when generated
 ids are disabled

---
 parser/src/tasks/section_id.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser/src/tasks/section_id.rs b/parser/src/tasks/section_id.rs
index ce523ed..ab64fc6 100644
--- a/parser/src/tasks/section_id.rs
+++ b/parser/src/tasks/section_id.rs
@@ -9,14 +9,14 @@ impl<'arena> Parser<'arena> {
     line: &Line<'arena>,
     attrs: &MultiAttrList<'arena>,
   ) -> Option<BumpString<'arena>> {
-    if self.document.meta.is_false("sectids") {
-      return None;
-    }
     if let Some(id) = attrs.id() {
       let custom_id = self.string(&id.src);
       self.ctx.anchor_ids.borrow_mut().insert(custom_id.clone());
       return Some(custom_id);
     }
+    if self.document.meta.is_false("sectids") {
+      return None;
+    }
     let id_sep = match self.document.meta.get("idseparator") {
       Some(AttrValue::Bool(true)) => None,
       Some(AttrValue::String(s)) => s.chars().next(),
-- 
2.43.0


From 4a440dd9e26bc07c031ec0a77b95345312c6bf6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:34 +0000
Subject: [PATCH 100/182] fix: keep a discrete heading at the start of a book
 or a book part

---
 parser/src/tasks/parse_section.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser/src/tasks/parse_section.rs b/parser/src/tasks/parse_section.rs
index b502abe..c3207a1 100644
--- a/parser/src/tasks/parse_section.rs
+++ b/parser/src/tasks/parse_section.rs
@@ -42,6 +42,11 @@ impl<'arena> Parser<'arena> {
       return Ok(None);
     };
 
+    if meta.attrs.has_str_positional("discrete") || meta.attrs.has_str_positional("float") {
+      self.restore_peeked(lines, meta);
+      return Ok(None);
+    }
+
     Ok(Some(PeekedSection {
       meta,
       lines,
-- 
2.43.0


From aa2d83f24b9aa47fa0877f3764227a3191b8415e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:03 +0000
Subject: [PATCH 101/182] fix: keep special sections written as level 0 after
 the chapters of a book

---
 parser/src/tasks/parse_book.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/parser/src/tasks/parse_book.rs b/parser/src/tasks/parse_book.rs
index be91e22..89a9a35 100644
--- a/parser/src/tasks/parse_book.rs
+++ b/parser/src/tasks/parse_book.rs
@@ -29,10 +29,18 @@ impl<'arena> Parser<'arena> {
         opening_special_sects.extend(sectioned.sections);
         sectioned.sections = opening_special_sects;
       }
-      // chapters can precede the first part
-      if let Some(part) = self.parse_book_part()? {
-        let book = self.parse_multi_part_book(sectioned.sections, part)?;
-        return Ok(Some(DocContent::Parts(book)));
+      // chapters can precede the first part, and special sections written as level 0
+      loop {
+        if let Some(special) = self.parse_special_sect()? {
+          sectioned.sections.push(special);
+        } else if let Some(part) = self.parse_book_part()? {
+          let book = self.parse_multi_part_book(sectioned.sections, part)?;
+          return Ok(Some(DocContent::Parts(book)));
+        } else if let Some(section) = self.parse_section()? {
+          sectioned.sections.push(section);
+        } else {
+          break;
+        }
       }
       return Ok(Some(DocContent::Sections(sectioned)));
     }
-- 
2.43.0


From e5efb5e59f66ced42c5b8dd586fa313305ef7f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:21 +0000
Subject: [PATCH 102/182] fix: list the chapters after a special section of a
 book next to it

---
 parser/src/tasks/parse_section.rs | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/parser/src/tasks/parse_section.rs b/parser/src/tasks/parse_section.rs
index c3207a1..bba61cf 100644
--- a/parser/src/tasks/parse_section.rs
+++ b/parser/src/tasks/parse_section.rs
@@ -191,9 +191,14 @@ impl<'arena> Parser<'arena> {
       children: BumpVec::new_in(self.bump),
     };
     let mut nodes: &mut BumpVec<'_, TocNode<'_>> = toc.nodes.as_mut();
-    let Some(last_level) = nodes.last().map(|n| n.level) else {
-      nodes.push(node);
-      return;
+    let last_level = match nodes.last() {
+      // book special sections written as level 0 are level 1 sections
+      Some(last) if last.special_sect.is_some() => last.level.max(1),
+      Some(last) => last.level,
+      None => {
+        nodes.push(node);
+        return;
+      }
     };
     if authored_level < last_level || authored_level == 0 {
       nodes.push(node);
@@ -202,14 +207,6 @@ impl<'arena> Parser<'arena> {
 
     let mut depth = semantic_level;
 
-    // special case: book special sections can go from 0 to 2
-    if last_level == 0
-      && semantic_level == 2
-      && !nodes.last().unwrap().children.iter().any(|n| n.level == 1)
-    {
-      depth = 1;
-    }
-
     // NB: out of sequence sections are pushed as deep as possible
     while depth > last_level && !nodes.is_empty() {
       nodes = nodes.last_mut().unwrap().children.as_mut();
-- 
2.43.0


From 018e492c898fcc0c946922ba1fc533ee1db53013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:21 +0000
Subject: [PATCH 103/182] fix: keep the appendix numbering after a table of
 contents within an appendix

---
 backend/src/html/backend.rs | 41 ++++++++++++++++++++++++++-----------
 1 file changed, 29 insertions(+), 12 deletions(-)

diff --git a/backend/src/html/backend.rs b/backend/src/html/backend.rs
index e272f37..d9e7856 100644
--- a/backend/src/html/backend.rs
+++ b/backend/src/html/backend.rs
@@ -29,10 +29,20 @@ pub struct BackendState {
   pub in_preamble_wrapper: bool,
   /// section numbers to continue with after an appendix
   pub outer_section_nums: [u16; 5],
-  /// section, appendix and part numbers to continue with after a toc
-  pub toc_outer_nums: ([u16; 5], u8, usize),
   /// depth of special sections, which are only numbered with `sectnums=all`
   pub special_section_depth: u16,
+  /// numbering to continue with after a toc
+  pub toc_outer: TocOuterState,
+}
+
+#[derive(Debug, Default)]
+pub struct TocOuterState {
+  section_nums: [u16; 5],
+  outer_section_nums: [u16; 5],
+  appendix_caption_num: u8,
+  book_part_num: usize,
+  special_section_depth: u16,
+  in_appendix: bool,
 }
 
 pub trait HtmlBackend: HtmlBuf {
@@ -199,20 +209,27 @@ pub trait HtmlBackend: HtmlBuf {
 
   fn on_toc_enter(&mut self) {
     let state = self.state_mut();
-    state.toc_outer_nums = (
-      std::mem::take(&mut state.section_nums),
-      std::mem::take(&mut state.appendix_caption_num),
-      std::mem::take(&mut state.book_part_num),
-    );
+    state.toc_outer = TocOuterState {
+      section_nums: std::mem::take(&mut state.section_nums),
+      outer_section_nums: std::mem::take(&mut state.outer_section_nums),
+      appendix_caption_num: std::mem::take(&mut state.appendix_caption_num),
+      book_part_num: std::mem::take(&mut state.book_part_num),
+      special_section_depth: std::mem::take(&mut state.special_section_depth),
+      in_appendix: state.ephemeral.remove(&EphemeralState::InAppendix),
+    };
   }
 
   fn on_toc_exit(&mut self) {
     let state = self.state_mut();
-    (
-      state.section_nums,
-      state.appendix_caption_num,
-      state.book_part_num,
-    ) = state.toc_outer_nums;
+    let outer = std::mem::take(&mut state.toc_outer);
+    state.section_nums = outer.section_nums;
+    state.outer_section_nums = outer.outer_section_nums;
+    state.appendix_caption_num = outer.appendix_caption_num;
+    state.book_part_num = outer.book_part_num;
+    state.special_section_depth = outer.special_section_depth;
+    if outer.in_appendix {
+      state.ephemeral.insert(EphemeralState::InAppendix);
+    }
   }
 
   fn enter_appendix(&mut self) {
-- 
2.43.0


From d74a2bc7959b18fc2bf6e1c01343b29465a8555a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:49 +0000
Subject: [PATCH 104/182] fix: make no preamble of just comments and attribute
 entries

---
 eval/src/eval.rs | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/eval/src/eval.rs b/eval/src/eval.rs
index 752510b..6ea83e1 100644
--- a/eval/src/eval.rs
+++ b/eval/src/eval.rs
@@ -71,10 +71,7 @@ fn eval_doc_content(ctx: &Ctx, backend: &mut impl Backend) {
     }
     DocContent::Sections(content) => {
       if let Some(blocks) = &content.preamble {
-        backend.enter_preamble(ctx.doc.title().is_some(), blocks);
-        blocks.iter().for_each(|b| eval_block(b, ctx, backend));
-        eval_toc_at(&[TocPosition::Preamble], None, ctx, backend);
-        backend.exit_preamble(ctx.doc.title().is_some(), blocks);
+        eval_preamble(blocks, ctx, backend);
       }
       content
         .sections
@@ -88,12 +85,27 @@ fn eval_doc_content(ctx: &Ctx, backend: &mut impl Backend) {
   backend.exit_content();
 }
 
+fn eval_preamble(blocks: &[Block], ctx: &Ctx, backend: &mut impl Backend) {
+  // comments and attribute entries don't make a preamble
+  let is_empty = blocks.iter().all(|b| {
+    matches!(
+      b.context,
+      BlockContext::Comment | BlockContext::DocumentAttributeDecl
+    )
+  });
+  if is_empty {
+    blocks.iter().for_each(|b| eval_block(b, ctx, backend));
+    return;
+  }
+  backend.enter_preamble(ctx.doc.title().is_some(), blocks);
+  blocks.iter().for_each(|b| eval_block(b, ctx, backend));
+  eval_toc_at(&[TocPosition::Preamble], None, ctx, backend);
+  backend.exit_preamble(ctx.doc.title().is_some(), blocks);
+}
+
 fn eval_book(book: &MultiPartBook, ctx: &Ctx, backend: &mut impl Backend) {
   if let Some(blocks) = &book.preamble {
-    backend.enter_preamble(ctx.doc.title().is_some(), blocks);
-    blocks.iter().for_each(|b| eval_block(b, ctx, backend));
-    eval_toc_at(&[TocPosition::Preamble], None, ctx, backend);
-    backend.exit_preamble(ctx.doc.title().is_some(), blocks);
+    eval_preamble(blocks, ctx, backend);
   }
   book
     .opening_special_sects
-- 
2.43.0


From c4cc0adcacb9114eb872479f8d001e80fbb0de4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:31 +0000
Subject: [PATCH 105/182] fix: keep the reference text of a block anchor apart
 from the block's style

---
 parser/src/parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index 653e618..77beeae 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -408,8 +408,11 @@ impl<'arena> Parser<'arena> {
             return Ok(ChunkMeta::new(attrs, title, start_loc));
           };
           let mut anchor_attrs = AttrList::new(anchor.loc, self.bump);
+          if let Some(reftext) = anchor.reftext {
+            let key = SourceString::new(self.string("reftext"), anchor.id.loc);
+            anchor_attrs.insert_named(key, reftext);
+          }
           anchor_attrs.id = Some(anchor.id);
-          anchor_attrs.positional.push(anchor.reftext);
           attrs.push(anchor_attrs);
         }
         // consume trailing comment lines for valid meta
-- 
2.43.0


From c5634caeca9ea4c2f1f2b09c547143ce9654532c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:47 +0000
Subject: [PATCH 106/182] fix: let blocks with an id be cross referenced

---
 parser/src/parser.rs                  |  1 +
 parser/src/tasks/anchors.rs           | 35 +++++++++++++++++++++++++++
 parser/src/tasks/parse_block.rs       |  4 +++
 parser/src/tasks/parse_book_part.rs   | 11 +--------
 parser/src/tasks/parse_image_block.rs |  1 +
 parser/src/tasks/parse_section.rs     | 16 +-----------
 6 files changed, 43 insertions(+), 25 deletions(-)

diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index 77beeae..47f9abe 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -423,6 +423,7 @@ impl<'arena> Parser<'arena> {
       }
       saw_meta = true;
     }
+    self.insert_block_anchor(&attrs, None, title.as_ref())?;
     Ok(ChunkMeta::new(attrs, title, start_loc))
   }
 
diff --git a/parser/src/tasks/anchors.rs b/parser/src/tasks/anchors.rs
index 8e7a1c3..3e863a2 100644
--- a/parser/src/tasks/anchors.rs
+++ b/parser/src/tasks/anchors.rs
@@ -27,6 +27,41 @@ impl<'arena> Parser<'arena> {
     Ok(())
   }
 
+  /// register the id of a block, if it has one, so that it can be cross referenced
+  pub(crate) fn insert_block_anchor(
+    &mut self,
+    attrs: &[AttrList<'arena>],
+    macro_attrs: Option<&AttrList<'arena>>,
+    title: Option<&InlineNodes<'arena>>,
+  ) -> Result<()> {
+    let all = attrs.iter().chain(macro_attrs);
+    let Some(id) = all.clone().find_map(|a| a.id.as_ref()) else {
+      return Ok(());
+    };
+    let named = |key| all.clone().find_map(|a| a.named.get(key));
+    let mut anchor = self.anchor_from(named("reftext").cloned(), Some(id.loc), false);
+    if let Some(title) = title.or_else(|| named("title")) {
+      anchor.title = title.clone();
+    }
+    self.insert_anchor(id, anchor)
+  }
+
+  pub(crate) fn insert_heading_anchor(
+    &mut self,
+    id: &BumpString<'arena>,
+    attrs: &[AttrList<'arena>],
+    heading: &InlineNodes<'arena>,
+  ) {
+    let reftext = attrs.iter().find_map(|a| a.named.get("reftext"));
+    let mut anchor = self.anchor_from(reftext.cloned(), None, false);
+    anchor.title = heading.clone();
+    self
+      .document
+      .anchors
+      .borrow_mut()
+      .insert(id.clone(), anchor);
+  }
+
   pub(crate) fn anchor_from(
     &self,
     reftext: Option<InlineNodes<'arena>>,
diff --git a/parser/src/tasks/parse_block.rs b/parser/src/tasks/parse_block.rs
index 544b696..cb93b6c 100644
--- a/parser/src/tasks/parse_block.rs
+++ b/parser/src/tasks/parse_block.rs
@@ -216,6 +216,9 @@ impl<'arena> Parser<'arena> {
     line.discard_assert(TokenKind::Whitespace);
     let id = self.section_id(&line, &meta.attrs);
     let content = self.parse_inlines(&mut line.into_lines())?;
+    if let Some(id) = &id {
+      self.insert_heading_anchor(id, &meta.attrs, &content);
+    }
     self.restore_lines(lines);
     Ok(Block {
       context: Context::DiscreteHeading,
@@ -584,6 +587,7 @@ impl<'arena> Parser<'arena> {
     line.discard(2);
     let target = line.consume_macro_target(self.bump);
     let attrs = self.parse_block_macro_attr_list(&mut line)?;
+    self.insert_block_anchor(&meta.attrs, Some(&attrs), meta.dot_line_title.as_ref())?;
     Ok(Block {
       context,
       content: Content::Empty(EmptyMetadata::AudioVideo { target, attrs }),
diff --git a/parser/src/tasks/parse_book_part.rs b/parser/src/tasks/parse_book_part.rs
index 4a361f9..eb8796a 100644
--- a/parser/src/tasks/parse_book_part.rs
+++ b/parser/src/tasks/parse_book_part.rs
@@ -36,16 +36,7 @@ impl<'arena> Parser<'arena> {
     );
 
     if let Some(id) = &id {
-      self.document.anchors.borrow_mut().insert(
-        id.clone(),
-        Anchor {
-          reftext: None,
-          title: heading.clone(),
-          source_loc: None,
-          source_idx: self.lexer.source_idx(),
-          is_biblio: false,
-        },
-      );
+      self.insert_heading_anchor(id, &meta.attrs, &heading);
     }
 
     self.restore_lines(lines);
diff --git a/parser/src/tasks/parse_image_block.rs b/parser/src/tasks/parse_image_block.rs
index a3bc290..9d80f17 100644
--- a/parser/src/tasks/parse_image_block.rs
+++ b/parser/src/tasks/parse_image_block.rs
@@ -15,6 +15,7 @@ impl<'arena> Parser<'arena> {
     let is_uri = line.current_token().kind(UriScheme);
     let target = line.consume_macro_target(self.bump);
     let attrs = self.parse_block_macro_attr_list(&mut line)?;
+    self.insert_block_anchor(&meta.attrs, Some(&attrs), meta.dot_line_title.as_ref())?;
     self.restore_lines(lines);
     let kind = self.parse_image_kind(&target, is_uri, &attrs, Some(&meta.attrs))?;
     Ok(Block {
diff --git a/parser/src/tasks/parse_section.rs b/parser/src/tasks/parse_section.rs
index bba61cf..25e3722 100644
--- a/parser/src/tasks/parse_section.rs
+++ b/parser/src/tasks/parse_section.rs
@@ -109,21 +109,7 @@ impl<'arena> Parser<'arena> {
     }
 
     if let Some(id) = &id {
-      let reftext = meta
-        .attrs
-        .iter()
-        .find_map(|a| a.named.get("reftext"))
-        .cloned();
-      self.document.anchors.borrow_mut().insert(
-        id.clone(),
-        Anchor {
-          reftext,
-          title: heading.clone(),
-          source_loc: None,
-          source_idx: self.lexer.source_idx(),
-          is_biblio: false,
-        },
-      );
+      self.insert_heading_anchor(id, &meta.attrs, &heading);
     }
 
     if meta.attrs.str_positional_at(0) == Some("bibliography") {
-- 
2.43.0


From da97c40bf875fb83ca9cf95c23bbee5fdd9af1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:31 +0000
Subject: [PATCH 107/182] fix: accept cross references to anchors of other
 included files

---
 parser/src/tasks/diagnose_document.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/parser/src/tasks/diagnose_document.rs b/parser/src/tasks/diagnose_document.rs
index 2af34ea..24e9e05 100644
--- a/parser/src/tasks/diagnose_document.rs
+++ b/parser/src/tasks/diagnose_document.rs
@@ -15,7 +15,7 @@ impl Parser<'_> {
     let mut xrefs: Vec<_> = xrefs.iter().collect();
     xrefs.sort_unstable_by_key(|(_, loc)| (loc.include_depth, loc.start));
     for (ref_target, ref_loc) in xrefs {
-      let Some((idx, id)) = self.target_data(ref_target, ref_loc.include_depth) else {
+      let Some((idx, id)) = self.target_data(ref_target) else {
         // couldn't find source idx
         self.invalid_xref(ref_target, *ref_loc)?;
         continue;
@@ -28,7 +28,7 @@ impl Parser<'_> {
         self.invalid_xref(ref_target, *ref_loc)?;
         continue;
       };
-      if anchor.source_idx != idx {
+      if idx.is_some_and(|idx| anchor.source_idx != idx) {
         // NB: here we could give a more precise error saying that
         // the anchor was found, but was in a different file
         self.invalid_xref(ref_target, *ref_loc)?;
@@ -44,11 +44,12 @@ impl Parser<'_> {
     )
   }
 
-  fn target_data<'a>(&self, target: &'a str, loc_depth: u16) -> Option<(u16, &'a str)> {
+  /// the id, and the source it must come from if the target names a document
+  fn target_data<'a>(&self, target: &'a str) -> Option<(Option<u16>, &'a str)> {
     if target == "#" {
-      Some((loc_depth, "__self__"))
+      Some((None, "__self__"))
     } else if target.starts_with('#') {
-      Some((loc_depth, target))
+      Some((None, target))
     } else if let Some(idx) = target.find('#') {
       let id = &target[idx + 1..];
       let prefix = &target[..idx];
@@ -56,16 +57,16 @@ impl Parser<'_> {
         self
           .lexer
           .source_idx_of_xref_target(prefix)
-          .map(|src_idx| (src_idx, id))
+          .map(|src_idx| (Some(src_idx), id))
       } else {
-        Some((loc_depth, id))
+        Some((None, id))
       }
     } else if file::has_adoc_ext(target)
       && self.lexer.source_file_at(0).file_name().ends_with(target)
     {
-      Some((0, "__self__"))
+      Some((None, "__self__"))
     } else {
-      Some((loc_depth, target))
+      Some((None, target))
     }
   }
 
-- 
2.43.0


From eaa8216cb4ac3081361b68765f66c0308b552858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:00 +0000
Subject: [PATCH 108/182] fix: prefer the text of a cross reference to the
 reference text of its target

---
 eval/src/eval.rs | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/eval/src/eval.rs b/eval/src/eval.rs
index 6ea83e1..edc91f7 100644
--- a/eval/src/eval.rs
+++ b/eval/src/eval.rs
@@ -541,22 +541,15 @@ fn eval_inline(inline: &InlineNode, ctx: &Ctx, backend: &mut impl Backend) {
       let was_resolving_xref = ctx.resolving_xref.replace(true);
       if was_resolving_xref {
         backend.visit_missing_xref(target, *kind, ctx.doc.title());
-      } else if let Some(text) = anchor
-        .map(|anchor| {
-          anchor
-            .reftext
-            .as_ref()
-            .unwrap_or(linktext.as_ref().unwrap_or(&anchor.title))
-        })
+      } else if let Some(text) = linktext
+        .as_ref()
+        .filter(|text| !text.is_empty())
+        .or_else(|| anchor.map(|anchor| anchor.reftext.as_ref().unwrap_or(&anchor.title)))
         .filter(|text| !text.is_empty())
       {
         backend.enter_xref_text(is_biblio);
         text.iter().for_each(|node| eval_inline(node, ctx, backend));
         backend.exit_xref_text(is_biblio);
-      } else if let Some(text) = linktext {
-        backend.enter_xref_text(is_biblio);
-        text.iter().for_each(|node| eval_inline(node, ctx, backend));
-        backend.exit_xref_text(is_biblio);
       } else {
         backend.visit_missing_xref(target, *kind, ctx.doc.title());
       }
-- 
2.43.0


From d815bbc93f3bcc8d5510a6a41744e2f5bfd9f5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:16 +0000
Subject: [PATCH 109/182] fix: put no brackets around the explicit text of a
 cross reference to a bibliography entry

---
 eval/src/eval.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eval/src/eval.rs b/eval/src/eval.rs
index edc91f7..c123e0a 100644
--- a/eval/src/eval.rs
+++ b/eval/src/eval.rs
@@ -536,7 +536,7 @@ fn eval_inline(inline: &InlineNode, ctx: &Ctx, backend: &mut impl Backend) {
     Macro(Xref { target, linktext, kind }) => {
       let anchors = ctx.doc.anchors.borrow();
       let anchor = anchors.get(utils::xref::get_id(&target.src));
-      let is_biblio = anchor.map(|a| a.is_biblio).unwrap_or(false);
+      let is_biblio = linktext.is_none() && anchor.is_some_and(|a| a.is_biblio);
       backend.enter_xref(target, linktext.is_some(), *kind);
       let was_resolving_xref = ctx.resolving_xref.replace(true);
       if was_resolving_xref {
-- 
2.43.0


From 90cca2272de8abe0c6220b4d3de31cacfb9433bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:20 +0000
Subject: [PATCH 110/182] fix: let formatted text with an id be cross
 referenced wherever it is

---
 parser/src/tasks/parse_inlines/mod.rs | 27 ++++++---------------------
 1 file changed, 6 insertions(+), 21 deletions(-)

diff --git a/parser/src/tasks/parse_inlines/mod.rs b/parser/src/tasks/parse_inlines/mod.rs
index bac27f5..2710a41 100644
--- a/parser/src/tasks/parse_inlines/mod.rs
+++ b/parser/src/tasks/parse_inlines/mod.rs
@@ -1010,32 +1010,17 @@ impl<'arena> Parser<'arena> {
     let inner = self.parse_inlines_until(lines, &stop_tokens)?;
     extend(&mut loc, &inner, stop_len);
     let node = wrap(inner);
-    let mut had_inline_attrs = false;
-    if let Inline::Span(_, Some(ref attr_list), _) = node {
+    if let Inline::Span(_, Some(ref attr_list), ref nodes) = node {
       loc.extend(attr_list.loc);
-      had_inline_attrs = true;
+      if let Some(id) = &attr_list.id {
+        let mut anchor = self.anchor_from(None, Some(id.loc), false);
+        anchor.title = nodes.clone();
+        self.insert_anchor(id, anchor)?;
+      }
     }
     acc.push_node(node, loc);
     push_newline_if_needed(acc, lines);
     self.ctx.inline_ctx = InlineCtx::None;
-    if had_inline_attrs
-      && let Some(InlineNode {
-        content: Span(SpanKind::Text, Some(attrs), nodes),
-        ..
-      }) = acc.inlines.last()
-      && let Some(id) = &attrs.id
-    {
-      self.insert_anchor(
-        id,
-        Anchor {
-          reftext: None,
-          title: nodes.clone(),
-          source_idx: self.lexer.source_idx(),
-          source_loc: Some(id.loc),
-          is_biblio: false,
-        },
-      )?;
-    }
     Ok(())
   }
 
-- 
2.43.0


From b8983a360907713b593df6ffc66b0b0e66456cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:40 +0000
Subject: [PATCH 111/182] fix: recognize inline anchors with an id starting
 with an underscore

---
 parser/src/line.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/line.rs b/parser/src/line.rs
index fccef37..48ea790 100644
--- a/parser/src/line.rs
+++ b/parser/src/line.rs
@@ -967,7 +967,7 @@ impl<'arena> Line<'arena> {
   }
 
   pub fn continues_inline_anchor(&self) -> bool {
-    if !self.starts_with_seq(&[Kind(OpenBracket), OneOf(&[Word, Colon])]) {
+    if !self.starts_with_seq(&[Kind(OpenBracket), OneOf(&[Word, Colon, Underscore])]) {
       return false;
     }
     let Some(close_idx) = self.index_of_seq(&[Kind(CloseBracket); 2]) else {
-- 
2.43.0


From c00d3c2ed9d1b859d17480989dee20b79d20cee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:03 +0000
Subject: [PATCH 112/182] fix: report no missing anchor for cross references to
 files of other formats

---
 parser/src/tasks/parse_inlines/mod.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/parser/src/tasks/parse_inlines/mod.rs b/parser/src/tasks/parse_inlines/mod.rs
index 2710a41..811e527 100644
--- a/parser/src/tasks/parse_inlines/mod.rs
+++ b/parser/src/tasks/parse_inlines/mod.rs
@@ -192,7 +192,9 @@ impl<'arena> Parser<'arena> {
               }
               "xref:" => {
                 let target = line.consume_macro_target(self.bump);
-                self.push_xref(&target);
+                if !is_path_of_other_format(&target) {
+                  self.push_xref(&target);
+                }
                 lines.restore_if_nonempty(line);
                 let nodes = self.parse_inlines_until(lines, &[Kind(CloseBracket)])?;
                 let linktext = if nodes.is_empty() {
@@ -1165,6 +1167,13 @@ fn link_macro_blank_window_shorthand(attr_list: &mut AttrList) -> bool {
   false
 }
 
+/// `xref:guide.pdf[]` links to a file that can't be known here
+fn is_path_of_other_format(xref_target: &str) -> bool {
+  !xref_target.contains('#')
+    && file::ext(xref_target).is_some()
+    && !file::has_adoc_ext(xref_target)
+}
+
 fn push_callout_tuck<'arena>(
   token: Token<'arena>,
   line: &mut Line<'arena>,
-- 
2.43.0


From 72b28451c0c1e030f64c5d8c26e5afc28b0b935a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:31 +0000
Subject: [PATCH 113/182] fix: know in table cells the files included elsewhere

---
 backend/src/utils.rs                                     | 2 ++
 core/src/document_meta.rs                                | 7 +++++--
 parser/src/tasks/directives/includes/process_includes.rs | 1 +
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/backend/src/utils.rs b/backend/src/utils.rs
index 79a8f76..2baf892 100644
--- a/backend/src/utils.rs
+++ b/backend/src/utils.rs
@@ -60,12 +60,14 @@ pub mod xref {
       } else {
         doc_meta
           .included_files
+          .borrow()
           .iter()
           .any(|included_file| included_file == path)
       }
     } else if !file::has_ext(path) {
       doc_meta
         .included_files
+        .borrow()
         .iter()
         .any(|included_file| file::remove_ext(included_file) == path)
     } else {
diff --git a/core/src/document_meta.rs b/core/src/document_meta.rs
index f262cfc..0a47a14 100644
--- a/core/src/document_meta.rs
+++ b/core/src/document_meta.rs
@@ -1,4 +1,6 @@
+use std::cell::RefCell;
 use std::collections::{HashMap, HashSet};
+use std::rc::Rc;
 
 use crate::internal::*;
 
@@ -12,7 +14,8 @@ pub struct DocumentMeta {
   header_attrs: Attrs,
   pub safe_mode: SafeMode,
   pub embedded: bool,
-  pub included_files: HashSet<String>,
+  /// shared with the documents of table cells
+  pub included_files: Rc<RefCell<HashSet<String>>>,
   pub data_admonition_icons: HashMap<u64, String>,
 }
 
@@ -27,7 +30,7 @@ impl Default for DocumentMeta {
       default_attrs: Attrs::defaults(),
       authors: Vec::new(),
       embedded: false,
-      included_files: HashSet::new(),
+      included_files: Rc::default(),
       data_admonition_icons: HashMap::new(),
     }
   }
diff --git a/parser/src/tasks/directives/includes/process_includes.rs b/parser/src/tasks/directives/includes/process_includes.rs
index e761ac8..95e62bf 100644
--- a/parser/src/tasks/directives/includes/process_includes.rs
+++ b/parser/src/tasks/directives/includes/process_includes.rs
@@ -115,6 +115,7 @@ impl<'arena> Parser<'arena> {
           .document
           .meta
           .included_files
+          .borrow_mut()
           .insert(directive.target.as_str().to_string());
         Ok(DirectiveAction::ReadNextLine)
       }
-- 
2.43.0


From 901d8e88c09c1a579505bc9f62cf18545b7ceaef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:24 +0000
Subject: [PATCH 114/182] fix: report no missing anchor for cross references
 into files of other formats

---
 parser/src/tasks/parse_inlines/mod.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/parser/src/tasks/parse_inlines/mod.rs b/parser/src/tasks/parse_inlines/mod.rs
index 811e527..9bfecc3 100644
--- a/parser/src/tasks/parse_inlines/mod.rs
+++ b/parser/src/tasks/parse_inlines/mod.rs
@@ -1167,11 +1167,10 @@ fn link_macro_blank_window_shorthand(attr_list: &mut AttrList) -> bool {
   false
 }
 
-/// `xref:guide.pdf[]` links to a file that can't be known here
+/// `xref:guide.pdf[]` and `xref:guide.pdf#ch1[]` link to a file that can't be known here
 fn is_path_of_other_format(xref_target: &str) -> bool {
-  !xref_target.contains('#')
-    && file::ext(xref_target).is_some()
-    && !file::has_adoc_ext(xref_target)
+  let path = xref_target.split('#').next().unwrap();
+  file::ext(path).is_some() && !file::has_adoc_ext(path)
 }
 
 fn push_callout_tuck<'arena>(
-- 
2.43.0


From 33447be895aa77ba60d194070360f53000502d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:40 +0000
Subject: [PATCH 115/182] fix: locate the content of a table cell in the
 included file the table is in

---
 parser/src/lexer/root_lexer.rs | 15 +++++++++++++--
 parser/src/parser.rs           |  2 +-
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/parser/src/lexer/root_lexer.rs b/parser/src/lexer/root_lexer.rs
index a6db8b9..ba1a7c2 100644
--- a/parser/src/lexer/root_lexer.rs
+++ b/parser/src/lexer/root_lexer.rs
@@ -128,8 +128,19 @@ impl<'arena> RootLexer<'arena> {
     self.tmp_buf.is_none()
   }
 
-  pub fn adjust_offset(&mut self, offset_adjustment: u32) {
-    self.sources[self.idx as usize].offset = offset_adjustment;
+  /// lex (the source of) a table cell, which starts at `offset` of the current source of `table`
+  pub fn nest_in(&mut self, table: &Self, offset: u32) {
+    let mut cell = self.sources.pop().unwrap();
+    cell.offset = offset;
+    cell.plugin_macros = Rc::clone(&table.plugin_macros);
+    self.plugin_macros = Rc::clone(&table.plugin_macros);
+    // so that locations in the cell refer to the source the table is in
+    for source in table.sources.iter().take(table.idx as usize) {
+      let file = source.file.clone();
+      self.sources.push(SourceLexer::from_str("", file, self.bump));
+    }
+    self.sources.push(cell);
+    self.idx = table.idx;
   }
 
   pub fn source_file(&self) -> &SourceFile {
diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index 47f9abe..60e1753 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -83,7 +83,7 @@ impl<'arena> Parser<'arena> {
     let mut cell_parser = Parser::new(src, self.lexer.source_file().clone(), self.bump);
     cell_parser.include_resolver = self.include_resolver.as_ref().map(|r| r.clone_box());
     cell_parser.strict = self.strict;
-    cell_parser.lexer.adjust_offset(offset);
+    cell_parser.lexer.nest_in(&self.lexer, offset);
     cell_parser.ctx = self.ctx.clone_for_cell(self.bump);
     cell_parser.document.meta = self.document.meta.clone_for_cell();
     cell_parser.document.anchors = Rc::clone(&self.document.anchors);
-- 
2.43.0


From b857e2ca3e70a1915a9070945d370db6cc5e9ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:32 +0000
Subject: [PATCH 116/182] fix: report a duplicate block id once

---
 parser/src/parser.rs        | 5 ++++-
 parser/src/tasks/anchors.rs | 3 +++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index 60e1753..22b5076 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -387,6 +387,7 @@ impl<'arena> Parser<'arena> {
       return Ok(ChunkMeta::new(attrs, title, start_loc));
     }
     let mut saw_meta = !attrs.is_empty() || title.is_some();
+    let num_peeked = attrs.len();
     loop {
       match lines.current() {
         Some(line) if line.is_chunk_title() => {
@@ -423,7 +424,9 @@ impl<'arena> Parser<'arena> {
       }
       saw_meta = true;
     }
-    self.insert_block_anchor(&attrs, None, title.as_ref())?;
+    if attrs.len() > num_peeked {
+      self.insert_block_anchor(&attrs, None, title.as_ref())?;
+    }
     Ok(ChunkMeta::new(attrs, title, start_loc))
   }
 
diff --git a/parser/src/tasks/anchors.rs b/parser/src/tasks/anchors.rs
index 3e863a2..c482c70 100644
--- a/parser/src/tasks/anchors.rs
+++ b/parser/src/tasks/anchors.rs
@@ -34,6 +34,9 @@ impl<'arena> Parser<'arena> {
     macro_attrs: Option<&AttrList<'arena>>,
     title: Option<&InlineNodes<'arena>>,
   ) -> Result<()> {
+    if macro_attrs.is_some_and(|m| m.id.is_none() && m.named.get("title").is_none()) {
+      return Ok(()); // nothing to add to the block attributes
+    }
     let all = attrs.iter().chain(macro_attrs);
     let Some(id) = all.clone().find_map(|a| a.id.as_ref()) else {
       return Ok(());
-- 
2.43.0


From b6f40c6aa6e7f9648aef290edb4d79757dcbc3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:33 +0000
Subject: [PATCH 117/182] fix: locate a table cell in the source it starts in

---
 parser/src/lexer/root_lexer.rs        | 17 ++++++++---------
 parser/src/parser.rs                  | 11 ++++++++---
 parser/src/tasks/table/parse_table.rs | 10 +++++++---
 3 files changed, 23 insertions(+), 15 deletions(-)

diff --git a/parser/src/lexer/root_lexer.rs b/parser/src/lexer/root_lexer.rs
index ba1a7c2..d56936a 100644
--- a/parser/src/lexer/root_lexer.rs
+++ b/parser/src/lexer/root_lexer.rs
@@ -128,19 +128,19 @@ impl<'arena> RootLexer<'arena> {
     self.tmp_buf.is_none()
   }
 
-  /// lex (the source of) a table cell, which starts at `offset` of the current source of `table`
-  pub fn nest_in(&mut self, table: &Self, offset: u32) {
+  /// lex (the source of) a cell starting at `loc` of a table lexed by `table`
+  pub fn nest_in(&mut self, table: &Self, loc: SourceLocation) {
     let mut cell = self.sources.pop().unwrap();
-    cell.offset = offset;
+    cell.offset = loc.start;
     cell.plugin_macros = Rc::clone(&table.plugin_macros);
     self.plugin_macros = Rc::clone(&table.plugin_macros);
-    // so that locations in the cell refer to the source the table is in
-    for source in table.sources.iter().take(table.idx as usize) {
+    // so that locations in the cell refer to the source the cell is in
+    for source in table.sources.iter().take(loc.include_depth as usize) {
       let file = source.file.clone();
       self.sources.push(SourceLexer::from_str("", file, self.bump));
     }
     self.sources.push(cell);
-    self.idx = table.idx;
+    self.idx = loc.include_depth;
   }
 
   pub fn source_file(&self) -> &SourceFile {
@@ -337,9 +337,8 @@ impl<'arena> RootLexer<'arena> {
     self.sources[loc.include_depth as usize].line_number_with_offset(loc.start)
   }
 
-  pub fn reline_diagnostics(&self, offset: u32, diagnostics: &mut [Diagnostic]) {
-    let offset_loc = SourceLocation::new(offset, offset, self.include_depth());
-    let before_offset = self.line_number(offset_loc) - 1;
+  pub fn reline_diagnostics(&self, start: SourceLocation, diagnostics: &mut [Diagnostic]) {
+    let before_offset = self.line_number(start) - 1;
     diagnostics
       .iter_mut()
       .for_each(|diag| diag.line_num += before_offset);
diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index 22b5076..01b9390 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -79,11 +79,16 @@ impl<'arena> Parser<'arena> {
     self.attr_ref_observer = Some(observer);
   }
 
-  pub fn cell_parser(&mut self, src: BumpVec<'arena, u8>, offset: u32) -> Parser<'arena> {
-    let mut cell_parser = Parser::new(src, self.lexer.source_file().clone(), self.bump);
+  pub fn cell_parser(
+    &mut self,
+    src: BumpVec<'arena, u8>,
+    start: SourceLocation,
+  ) -> Parser<'arena> {
+    let file = self.lexer.source_file_at(start.include_depth).clone();
+    let mut cell_parser = Parser::new(src, file, self.bump);
     cell_parser.include_resolver = self.include_resolver.as_ref().map(|r| r.clone_box());
     cell_parser.strict = self.strict;
-    cell_parser.lexer.nest_in(&self.lexer, offset);
+    cell_parser.lexer.nest_in(&self.lexer, start);
     cell_parser.ctx = self.ctx.clone_for_cell(self.bump);
     cell_parser.document.meta = self.document.meta.clone_for_cell();
     cell_parser.document.anchors = Rc::clone(&self.document.anchors);
diff --git a/parser/src/tasks/table/parse_table.rs b/parser/src/tasks/table/parse_table.rs
index 3c5ea5f..9c0d506 100644
--- a/parser/src/tasks/table/parse_table.rs
+++ b/parser/src/tasks/table/parse_table.rs
@@ -226,7 +226,11 @@ impl<'arena> Parser<'arena> {
       }
       cell_tokens.trim_for_cell(cell_style);
       cell_tokens.remove_resolved_attr_refs();
-      let cell_parser = self.cell_parser(cell_tokens.into_bytes(), loc.start);
+      let depth = cell_tokens
+        .first_loc()
+        .map_or(self.lexer.include_depth(), |loc| loc.include_depth);
+      let start = SourceLocation::new(loc.start, loc.start, depth);
+      let cell_parser = self.cell_parser(cell_tokens.into_bytes(), start);
       return match cell_parser.parse() {
         Ok(ParseResult {
           document,
@@ -238,7 +242,7 @@ impl<'arena> Parser<'arena> {
         }) => {
           self.ctx.attr_defs.extend(attr_defs);
           if !warnings.is_empty() {
-            self.lexer.reline_diagnostics(loc.start, &mut warnings);
+            self.lexer.reline_diagnostics(start, &mut warnings);
             self.errors.borrow_mut().extend(warnings);
           }
 
@@ -252,7 +256,7 @@ impl<'arena> Parser<'arena> {
           Ok(Some((cell, repeat)))
         }
         Err(mut diagnostics) => {
-          self.lexer.reline_diagnostics(loc.start, &mut diagnostics);
+          self.lexer.reline_diagnostics(start, &mut diagnostics);
           if !diagnostics.is_empty() && self.strict {
             Err(diagnostics.remove(0))
           } else {
-- 
2.43.0


From 6af4e2738a7e46cf79dbe26d4207155e4b611c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:43 +0000
Subject: [PATCH 118/182] fix: keep the text of a footnote referred to before
 its definition

---
 backend-html5s/src/html5s.rs            |  3 +--
 backend/src/html/backend.rs             | 17 +++++++++++++++++
 dr-html-backend/src/asciidoctor_html.rs |  3 +--
 3 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/backend-html5s/src/html5s.rs b/backend-html5s/src/html5s.rs
index ab1091f..39f14ca 100644
--- a/backend-html5s/src/html5s.rs
+++ b/backend-html5s/src/html5s.rs
@@ -1461,8 +1461,7 @@ impl Backend for Html5s {
   fn exit_footnote(&mut self, id: Option<&SourceString>) {
     let outer = self.state.footnote_outer_html.pop().unwrap_or_default();
     let footnote = mem::replace(&mut self.html, outer);
-    if self.prev_footnote_ref_num(id).is_some() {
-      // discard duplicate content, common when "externalizing" footnotes by attr ref
+    if self.finish_prev_footnote(id, &footnote) {
       return;
     }
     let num = self.state.footnotes.borrow().len() + 1;
diff --git a/backend/src/html/backend.rs b/backend/src/html/backend.rs
index d9e7856..ed74e6e 100644
--- a/backend/src/html/backend.rs
+++ b/backend/src/html/backend.rs
@@ -505,6 +505,23 @@ pub trait HtmlBackend: HtmlBuf {
       .next()
   }
 
+  /// discard the text of a footnote which has one (common when "externalizing" footnotes
+  /// by attr ref), but not if so far it has only been referred to
+  fn finish_prev_footnote(&mut self, id: Option<&SourceString>, text: &str) -> bool {
+    let state = self.state();
+    let mut footnotes = state.footnotes.borrow_mut();
+    let prev = footnotes
+      .iter_mut()
+      .find(|(prev, _)| prev.is_some() && prev.as_deref() == id.map(|id| &**id));
+    if let Some((_, prev_text)) = prev {
+      if prev_text.is_empty() {
+        prev_text.push_str(text);
+      }
+      return true;
+    }
+    false
+  }
+
   fn push_appendix_caption(&mut self) {
     if let Some(appendix_caption) = self.doc_meta().string("appendix-caption") {
       self.push([&*esc(&appendix_caption), " "]);
diff --git a/dr-html-backend/src/asciidoctor_html.rs b/dr-html-backend/src/asciidoctor_html.rs
index af3b28b..203d161 100644
--- a/dr-html-backend/src/asciidoctor_html.rs
+++ b/dr-html-backend/src/asciidoctor_html.rs
@@ -1501,8 +1501,7 @@ impl Backend for AsciidoctorHtml {
   fn exit_footnote(&mut self, id: Option<&SourceString>) {
     let outer = self.state.footnote_outer_html.pop().unwrap_or_default();
     let footnote = mem::replace(&mut self.html, outer);
-    if self.prev_footnote_ref_num(id).is_some() {
-      // discard duplicate content, common when "externalizing" footnotes by attr ref
+    if self.finish_prev_footnote(id, &footnote) {
       return;
     }
     let num = self.state.footnotes.borrow().len() + 1;
-- 
2.43.0


From 346db23200723075a32ea4bb7e4052949631d506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:43 +0000
Subject: [PATCH 119/182] fix: no links, anchors and footnotes in copies of
 titles, keep the text of bare links

---
 backend-html5s/src/html5s.rs            |  2 +-
 backend/src/html/backend.rs             | 27 +++++++++++++++++--------
 dr-html-backend/src/asciidoctor_html.rs |  2 +-
 eval/src/eval.rs                        | 14 +++++++++++--
 4 files changed, 33 insertions(+), 12 deletions(-)

diff --git a/backend-html5s/src/html5s.rs b/backend-html5s/src/html5s.rs
index 39f14ca..9d68a9b 100644
--- a/backend-html5s/src/html5s.rs
+++ b/backend-html5s/src/html5s.rs
@@ -1259,7 +1259,7 @@ impl Backend for Html5s {
     _attrs: Option<&AttrList>,
     _has_link_text: bool,
   ) {
-    self.push_str("</a>");
+    HtmlBackend::exit_mailto_macro(self);
   }
 
   fn visit_menu_macro(&mut self, items: &[SourceString]) {
diff --git a/backend/src/html/backend.rs b/backend/src/html/backend.rs
index ed74e6e..16c0bde 100644
--- a/backend/src/html/backend.rs
+++ b/backend/src/html/backend.rs
@@ -209,6 +209,7 @@ pub trait HtmlBackend: HtmlBuf {
 
   fn on_toc_enter(&mut self) {
     let state = self.state_mut();
+    state.xref_depth += 1; // entries are links themselves
     state.toc_outer = TocOuterState {
       section_nums: std::mem::take(&mut state.section_nums),
       outer_section_nums: std::mem::take(&mut state.outer_section_nums),
@@ -221,6 +222,7 @@ pub trait HtmlBackend: HtmlBuf {
 
   fn on_toc_exit(&mut self) {
     let state = self.state_mut();
+    state.xref_depth -= 1;
     let outer = std::mem::take(&mut state.toc_outer);
     state.section_nums = outer.section_nums;
     state.outer_section_nums = outer.outer_section_nums;
@@ -441,16 +443,15 @@ pub trait HtmlBackend: HtmlBuf {
   }
 
   fn exit_link_macro(&mut self, target: &SourceString, resolving_xref: bool, has_link_text: bool) {
-    if resolving_xref
+    let nested = resolving_xref
       || self
         .state()
         .ephemeral
-        .contains(&EphemeralState::InTableOfContents)
-    {
-      return;
-    }
+        .contains(&EphemeralState::InTableOfContents);
     if has_link_text {
-      self.push_str("</a>");
+      if !nested {
+        self.push_str("</a>");
+      }
       return;
     }
     if self.doc_meta().is_true("hide-uri-scheme") {
@@ -458,7 +459,9 @@ pub trait HtmlBackend: HtmlBuf {
     } else {
       self.push_specialchar_escaped(target);
     }
-    self.push_str("</a>");
+    if !nested {
+      self.push_str("</a>");
+    }
   }
 
   fn enter_mailto_macro(
@@ -485,12 +488,20 @@ pub trait HtmlBackend: HtmlBuf {
       a_tag.push_url_encoded(body);
     }
     a_tag.push_ch('"');
-    self.push_open_tag(a_tag);
+    if self.state().xref_depth == 0 {
+      self.push_open_tag(a_tag);
+    }
     if !has_link_text {
       self.push_specialchar_escaped(address);
     }
   }
 
+  fn exit_mailto_macro(&mut self) {
+    if self.state().xref_depth == 0 {
+      self.push_str("</a>");
+    }
+  }
+
   fn prev_footnote_ref_num(&self, id: Option<&SourceString>) -> Option<String> {
     self
       .state()
diff --git a/dr-html-backend/src/asciidoctor_html.rs b/dr-html-backend/src/asciidoctor_html.rs
index 203d161..bf934a5 100644
--- a/dr-html-backend/src/asciidoctor_html.rs
+++ b/dr-html-backend/src/asciidoctor_html.rs
@@ -1323,7 +1323,7 @@ impl Backend for AsciidoctorHtml {
     _attrs: Option<&AttrList>,
     _has_link_text: bool,
   ) {
-    self.push_str("</a>");
+    HtmlBackend::exit_mailto_macro(self);
   }
 
   #[instrument(skip_all)]
diff --git a/eval/src/eval.rs b/eval/src/eval.rs
index c123e0a..5188b4c 100644
--- a/eval/src/eval.rs
+++ b/eval/src/eval.rs
@@ -1,4 +1,4 @@
-use std::cell::RefCell;
+use std::cell::{Cell, RefCell};
 
 use crate::internal::*;
 use asciidork_ast::InlineNodes;
@@ -12,12 +12,15 @@ pub fn eval<B: Backend>(document: &Document, mut backend: B) -> Result<B::Output
 struct Ctx<'a, 'b> {
   doc: &'a Document<'b>,
   resolving_xref: RefCell<bool>,
+  /// evaluating a copy of nodes which are part of the document elsewhere
+  copying: Cell<bool>,
 }
 
 pub fn visit<B: Backend>(doc: &Document, backend: &mut B) {
   let ctx = Ctx {
     doc,
     resolving_xref: RefCell::new(false),
+    copying: Cell::new(false),
   };
   let render_docinfo = !ctx.doc.meta.embedded;
   backend.enter_document(ctx.doc);
@@ -509,6 +512,7 @@ fn eval_inline(inline: &InlineNode, ctx: &Ctx, backend: &mut impl Backend) {
     }
     CurlyQuote(kind) => backend.visit_curly_quote(*kind),
     MultiCharWhitespace(ws) => backend.visit_multichar_whitespace(ws),
+    Macro(Footnote { .. }) if ctx.copying.get() => {}
     Macro(Footnote { id, text }) => {
       backend.enter_footnote(id.as_ref());
       if let Some(text) = text {
@@ -519,7 +523,7 @@ fn eval_inline(inline: &InlineNode, ctx: &Ctx, backend: &mut impl Backend) {
     Macro(InlineImage { target, attrs, kind }) => backend.visit_image_macro(target, attrs, kind),
     Macro(Button(text)) => backend.visit_button_macro(text),
     Macro(Link { target, attrs, scheme, caret }) => {
-      let in_xref = *ctx.resolving_xref.borrow();
+      let in_xref = *ctx.resolving_xref.borrow() || ctx.copying.get();
       if let Some(Some(nodes)) = attrs.as_ref().and_then(|a| a.positional.first()) {
         backend.enter_link_macro(target, attrs.as_ref(), *scheme, in_xref, true, *caret);
         nodes.iter().for_each(|n| eval_inline(n, ctx, backend));
@@ -537,6 +541,7 @@ fn eval_inline(inline: &InlineNode, ctx: &Ctx, backend: &mut impl Backend) {
       let anchors = ctx.doc.anchors.borrow();
       let anchor = anchors.get(utils::xref::get_id(&target.src));
       let is_biblio = linktext.is_none() && anchor.is_some_and(|a| a.is_biblio);
+      let is_explicit = linktext.as_ref().is_some_and(|text| !text.is_empty());
       backend.enter_xref(target, linktext.is_some(), *kind);
       let was_resolving_xref = ctx.resolving_xref.replace(true);
       if was_resolving_xref {
@@ -548,7 +553,9 @@ fn eval_inline(inline: &InlineNode, ctx: &Ctx, backend: &mut impl Backend) {
         .filter(|text| !text.is_empty())
       {
         backend.enter_xref_text(is_biblio);
+        let was_copying = ctx.copying.replace(ctx.copying.get() || !is_explicit);
         text.iter().for_each(|node| eval_inline(node, ctx, backend));
+        ctx.copying.set(was_copying);
         backend.exit_xref_text(is_biblio);
       } else {
         backend.visit_missing_xref(target, *kind, ctx.doc.title());
@@ -583,6 +590,7 @@ fn eval_inline(inline: &InlineNode, ctx: &Ctx, backend: &mut impl Backend) {
         linktext.is_some(),
       );
     }
+    InlineAnchor(_) if ctx.copying.get() => {}
     InlineAnchor(id) => backend.visit_inline_anchor(id),
     BiblioAnchor(id) => {
       backend.visit_biblio_anchor(
@@ -707,7 +715,9 @@ fn eval_toc_level(nodes: &[TocNode], ctx: &Ctx, backend: &mut impl Backend) {
     nodes.iter().for_each(|node| {
       backend.enter_toc_node(node);
       backend.enter_toc_content();
+      ctx.copying.set(true);
       node.title.iter().for_each(|n| eval_inline(n, ctx, backend));
+      ctx.copying.set(false);
       backend.exit_toc_content();
       eval_toc_level(&node.children, ctx, backend);
       backend.exit_toc_node(node);
-- 
2.43.0


From 12c34e2db95d6f6cbb8a603a157746bb1b4b18e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:12 +0000
Subject: [PATCH 120/182] fix: report missing anchors of the same line in a
 fixed order

---
 parser/src/tasks/diagnose_document.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/tasks/diagnose_document.rs b/parser/src/tasks/diagnose_document.rs
index 24e9e05..f6aeecd 100644
--- a/parser/src/tasks/diagnose_document.rs
+++ b/parser/src/tasks/diagnose_document.rs
@@ -13,7 +13,7 @@ impl Parser<'_> {
     }
     let xrefs = self.ctx.xrefs.borrow();
     let mut xrefs: Vec<_> = xrefs.iter().collect();
-    xrefs.sort_unstable_by_key(|(_, loc)| (loc.include_depth, loc.start));
+    xrefs.sort_unstable_by_key(|(target, loc)| (loc.include_depth, loc.start, target.as_str()));
     for (ref_target, ref_loc) in xrefs {
       let Some((idx, id)) = self.target_data(ref_target) else {
         // couldn't find source idx
-- 
2.43.0


From 28e2556c442a6a20edab78dfa0132ee3786ff642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:20 +0000
Subject: [PATCH 121/182] fix: resolve formatted attribute values in AsciiDoc
 cells once

---
 parser/src/line.rs                             | 2 +-
 parser/src/tasks/parse_inlines/inline_utils.rs | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/src/line.rs b/parser/src/line.rs
index 48ea790..09f75ae 100644
--- a/parser/src/line.rs
+++ b/parser/src/line.rs
@@ -1001,7 +1001,7 @@ impl<'arena> Line<'arena> {
     for token in self.iter_mut() {
       if token.kind(AttrRef) {
         attr_loc = Some(token.loc);
-      } else if attr_loc.is_some_and(|loc| loc == token.loc) {
+      } else if token.attr_replacement || attr_loc.is_some_and(|loc| loc == token.loc) {
         token.lexeme = BumpString::from_str_in("", bump);
       } else {
         attr_loc = None;
diff --git a/parser/src/tasks/parse_inlines/inline_utils.rs b/parser/src/tasks/parse_inlines/inline_utils.rs
index c25a85f..5294c05 100644
--- a/parser/src/tasks/parse_inlines/inline_utils.rs
+++ b/parser/src/tasks/parse_inlines/inline_utils.rs
@@ -60,6 +60,8 @@ impl<'arena> Parser<'arena> {
       && (line.nth_token(1).kind(Word)
         || line
           .current_token()
+          // cells don't know where the values of attributes come from
+          .filter(|token| !token.attr_replacement || !self.ctx.parsing_adoc_cell())
           .and_then(|token| self.lexer.char_before(token.loc))
           .is_some_and(char::is_whitespace))
   }
-- 
2.43.0


From b24faef74424c2342bb2ebc6faba3ed7668d45fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:20 +0000
Subject: [PATCH 122/182] fix: recognize macros and cross references continuing
 on the next line

---
 parser/src/line.rs                    | 46 +++++++++++++++++++++
 parser/src/tasks/parse_inlines/mod.rs | 58 ++++++++++++++++++++++++++-
 2 files changed, 102 insertions(+), 2 deletions(-)

diff --git a/parser/src/line.rs b/parser/src/line.rs
index 09f75ae..416bdbd 100644
--- a/parser/src/line.rs
+++ b/parser/src/line.rs
@@ -506,6 +506,52 @@ impl<'arena> Line<'arena> {
     }
   }
 
+  pub fn index_of_unescaped(&self, kind: TokenKind, from: usize) -> Option<usize> {
+    (from..self.len()).find(|&i| {
+      self.tokens.get(i).unwrap().kind(kind)
+        && (i == 0 || self.tokens.get(i - 1).unwrap().not_kind(Backslash))
+    })
+  }
+
+  /// the bracket opening a macro the line ends within, and whether these contain text
+  pub fn ends_within_macro(&self, mut from: usize) -> Option<(usize, bool)> {
+    while let Some(open_idx) = self.index_of_unescaped(OpenBracket, from) {
+      if let Some(close_idx) = self.index_of_unescaped(CloseBracket, open_idx) {
+        from = close_idx + 1;
+        continue;
+      }
+      let prev = (0..open_idx)
+        .rev()
+        .map(|i| (i, self.tokens.get(i).unwrap()))
+        .take_while(|(_, token)| !token.is_whitespaceish())
+        .find(|(_, token)| matches!(token.kind, MacroName | UriScheme))
+        .filter(|(i, token)| {
+          self.nth_token(i + 1).not_kind(Colon) || token.lexeme.as_str() == "xref:"
+        });
+      match prev.map(|(_, token)| (token.kind, token.lexeme.as_str())) {
+        None | Some((_, "pass:")) => from = open_idx + 1,
+        Some((_, "footnote:" | "xref:" | "link:" | "mailto:")) => return Some((open_idx, true)),
+        Some((kind, _)) => return Some((open_idx, kind == UriScheme)),
+      }
+    }
+    None
+  }
+
+  /// the start of a cross reference the line ends within
+  pub fn ends_within_xref_shorthand(&self, mut from: usize) -> Option<usize> {
+    while let Some(open_idx) = self.index_of_seq_from(&[Kind(LessThan); 2], from) {
+      from = open_idx + 1;
+      if self.index_of_seq_from(&[Kind(GreaterThan); 2], from).is_none()
+        && self.nth_token(open_idx + 2).is_some()
+        && self.nth_token(open_idx + 2).not_kind(LessThan)
+        && self.nth_token(open_idx + 2).not_kind(Whitespace)
+      {
+        return Some(open_idx);
+      }
+    }
+    None
+  }
+
   pub fn continues_xref_shorthand(&self) -> bool {
     self.current_is(LessThan)
       && self.num_tokens() > 3
diff --git a/parser/src/tasks/parse_inlines/mod.rs b/parser/src/tasks/parse_inlines/mod.rs
index 9bfecc3..729281b 100644
--- a/parser/src/tasks/parse_inlines/mod.rs
+++ b/parser/src/tasks/parse_inlines/mod.rs
@@ -57,6 +57,10 @@ impl<'arena> Parser<'arena> {
         continue;
       }
 
+      if subs.macros() {
+        self.join_lines_of_macro(&mut line, lines);
+      }
+
       loop {
         if line.starts_with_seq(stop_tokens) && !self.inside_constrained(stop_tokens, &line) {
           line.discard(stop_tokens.len());
@@ -231,8 +235,8 @@ impl<'arena> Parser<'arena> {
                   Macro(Mailto {
                     address: target,
                     linktext,
-                    subject: subject_loc.map(|loc| self.lexer.src_string_from_loc(loc)),
-                    body: body_loc.map(|loc| self.lexer.src_string_from_loc(loc)),
+                    subject: subject_loc.map(|loc| self.single_line_src(loc)),
+                    body: body_loc.map(|loc| self.single_line_src(loc)),
                     attrs: if attrs.is_empty() { None } else { Some(Box::new(attrs)) },
                   }),
                   macro_loc,
@@ -930,6 +934,56 @@ impl<'arena> Parser<'arena> {
     self.finish_inlines(acc, inline_attrs)
   }
 
+  fn single_line_src(&self, loc: SourceLocation) -> SourceString<'arena> {
+    let lines: Vec<_> = self.lexer.str_from_loc(loc).lines().collect();
+    SourceString::new(self.string(&lines.join(" ")), loc)
+  }
+
+  /// continue a line ending within the brackets of a macro up to the line with the closing ones
+  fn join_lines_of_macro(&self, line: &mut Line<'arena>, lines: &mut ContiguousLines<'arena>) {
+    let (mut from, mut from_xref) = (0, 0);
+    loop {
+      if let Some((open_idx, is_text)) = line.ends_within_macro(from)
+        && self.join_lines(line, lines, is_text, |l| l.index_of_unescaped(CloseBracket, 0).is_some())
+      {
+        from = open_idx;
+      } else if let Some(open_idx) = line.ends_within_xref_shorthand(from_xref)
+        && self.join_lines(line, lines, true, |l| l.contains_seq(&[Kind(GreaterThan); 2]))
+      {
+        from_xref = open_idx + 1;
+      } else {
+        return;
+      }
+    }
+  }
+
+  fn join_lines(
+    &self,
+    line: &mut Line<'arena>,
+    lines: &mut ContiguousLines<'arena>,
+    is_text: bool,
+    is_last: impl Fn(&Line<'arena>) -> bool,
+  ) -> bool {
+    let Some(last_idx) = (0..lines.len())
+      .map(|idx| lines.nth(idx).unwrap())
+      .take_while(|l| !l.is_comment())
+      .position(is_last)
+    else {
+      return false;
+    };
+    for _ in 0..=last_idx {
+      let loc = line.last_loc().unwrap().clamp_end().incr_end();
+      line.push(if is_text && line.last().not_kind(Comma) {
+        Token::new(TokenKind::Newline, loc, self.string("\n"))
+      } else {
+        Token::new(Whitespace, loc, self.string(" "))
+      });
+      let next = lines.consume_current().unwrap();
+      next.into_iter().for_each(|token| line.push(token));
+    }
+    true
+  }
+
   fn push_unused_inline_attrs(&self, acc: &mut Accum<'arena>, inline_attrs: &mut Option<AttrList>) {
     if let Some(unused_attrs) = inline_attrs.take() {
       let text = self.lexer.str_from_loc(unused_attrs.loc);
-- 
2.43.0


From 013e649678d998be224b6708d0dce94c256c72a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:10 +0000
Subject: [PATCH 123/182] fix: locate diagnostics of table cells by the lines
 they are made of

---
 parser/src/lexer/root_lexer.rs        | 14 +++++++++-----
 parser/src/line.rs                    | 13 +++++++++++++
 parser/src/tasks/table/parse_table.rs |  5 +++--
 3 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/parser/src/lexer/root_lexer.rs b/parser/src/lexer/root_lexer.rs
index d56936a..903fe6c 100644
--- a/parser/src/lexer/root_lexer.rs
+++ b/parser/src/lexer/root_lexer.rs
@@ -337,11 +337,15 @@ impl<'arena> RootLexer<'arena> {
     self.sources[loc.include_depth as usize].line_number_with_offset(loc.start)
   }
 
-  pub fn reline_diagnostics(&self, start: SourceLocation, diagnostics: &mut [Diagnostic]) {
-    let before_offset = self.line_number(start) - 1;
-    diagnostics
-      .iter_mut()
-      .for_each(|diag| diag.line_num += before_offset);
+  /// move diagnostics of a table cell to the lines (starting at `starts`) it's made of
+  pub fn reline_diagnostics(&self, starts: &[SourceLocation], diagnostics: &mut [Diagnostic]) {
+    for diag in diagnostics {
+      let idx = diag.line_num.saturating_sub(1) as usize;
+      if let Some(start) = starts.get(idx).or(starts.last()) {
+        diag.line_num = self.line_number(*start);
+        diag.source_file = self.source_file_at(start.include_depth).clone();
+      }
+    }
   }
 
   pub fn next_token(&mut self) -> Token<'arena> {
diff --git a/parser/src/line.rs b/parser/src/line.rs
index 416bdbd..cdddac3 100644
--- a/parser/src/line.rs
+++ b/parser/src/line.rs
@@ -1055,6 +1055,19 @@ impl<'arena> Line<'arena> {
     }
   }
 
+  // the tokens of a cell can span lines, not all of them adjacent in the source
+  pub fn line_starts(&self, first: SourceLocation) -> SmallVec<[SourceLocation; 8]> {
+    let mut starts = SmallVec::from_elem(first, 1);
+    let mut prev: Option<&Token> = None;
+    for token in self.iter() {
+      if prev.is_some_and(|prev| prev.kind(Newline)) {
+        starts.push(token.loc);
+      }
+      prev = Some(token);
+    }
+    starts
+  }
+
   /// very fast, because underlying deq just bumps the pos
   pub fn remove_first_token(&mut self) {
     if !self.tokens.is_empty() {
diff --git a/parser/src/tasks/table/parse_table.rs b/parser/src/tasks/table/parse_table.rs
index 9c0d506..e7fddd6 100644
--- a/parser/src/tasks/table/parse_table.rs
+++ b/parser/src/tasks/table/parse_table.rs
@@ -230,6 +230,7 @@ impl<'arena> Parser<'arena> {
         .first_loc()
         .map_or(self.lexer.include_depth(), |loc| loc.include_depth);
       let start = SourceLocation::new(loc.start, loc.start, depth);
+      let line_starts = cell_tokens.line_starts(start);
       let cell_parser = self.cell_parser(cell_tokens.into_bytes(), start);
       return match cell_parser.parse() {
         Ok(ParseResult {
@@ -242,7 +243,7 @@ impl<'arena> Parser<'arena> {
         }) => {
           self.ctx.attr_defs.extend(attr_defs);
           if !warnings.is_empty() {
-            self.lexer.reline_diagnostics(start, &mut warnings);
+            self.lexer.reline_diagnostics(&line_starts, &mut warnings);
             self.errors.borrow_mut().extend(warnings);
           }
 
@@ -256,7 +257,7 @@ impl<'arena> Parser<'arena> {
           Ok(Some((cell, repeat)))
         }
         Err(mut diagnostics) => {
-          self.lexer.reline_diagnostics(start, &mut diagnostics);
+          self.lexer.reline_diagnostics(&line_starts, &mut diagnostics);
           if !diagnostics.is_empty() && self.strict {
             Err(diagnostics.remove(0))
           } else {
-- 
2.43.0


From 2efa084b3c7587656f42cbb5976d35064273e127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:10 +0000
Subject: [PATCH 124/182] fix: callout lists in table cells end the callouts of
 the document

---
 parser/src/parse_context.rs    | 12 ++++++------
 parser/src/tasks/parse_list.rs |  2 +-
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/parser/src/parse_context.rs b/parser/src/parse_context.rs
index baf821d..6d7bca3 100644
--- a/parser/src/parse_context.rs
+++ b/parser/src/parse_context.rs
@@ -162,12 +162,12 @@ impl<'arena> ParseContext<'arena> {
     *callouts.last().unwrap()
   }
 
-  pub fn advance_callout_list(&mut self, bump: &'arena Bump) {
-    let last = { self.callouts.borrow().last().copied() };
-    if let Some(last) = last {
-      self.callouts = Rc::new(RefCell::new(
-        bvec![in bump; Callout::new(last.list_idx + 1, 0, 0, false)],
-      ));
+  // NB: shared with the documents of AsciiDoc table cells
+  pub fn advance_callout_list(&mut self) {
+    let mut callouts = self.callouts.borrow_mut();
+    if let Some(last) = callouts.last().copied() {
+      callouts.clear();
+      callouts.push(Callout::new(last.list_idx + 1, 0, 0, false));
     }
   }
 
diff --git a/parser/src/tasks/parse_list.rs b/parser/src/tasks/parse_list.rs
index 8d9ab6b..3bc9874 100644
--- a/parser/src/tasks/parse_list.rs
+++ b/parser/src/tasks/parse_list.rs
@@ -41,7 +41,7 @@ impl<'arena> Parser<'arena> {
     self.ctx.bibliography_ctx = prev_bibliography_ctx;
     self.ctx.list.stack.pop();
     if variant == ListVariant::Callout {
-      self.ctx.advance_callout_list(self.bump);
+      self.ctx.advance_callout_list();
     }
 
     Ok(Block {
-- 
2.43.0


From ca13779cf9306e0926bd31f4d54a2a14bc8f5d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:12 +0000
Subject: [PATCH 125/182] fix: callouts can be tucked behind a -- comment

---
 parser/src/tasks/parse_inlines/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/tasks/parse_inlines/mod.rs b/parser/src/tasks/parse_inlines/mod.rs
index 729281b..03e87aa 100644
--- a/parser/src/tasks/parse_inlines/mod.rs
+++ b/parser/src/tasks/parse_inlines/mod.rs
@@ -438,7 +438,7 @@ impl<'arena> Parser<'arena> {
             push_callout_tuck(token, &mut line, &mut acc);
           }
 
-          ForwardSlashes
+          ForwardSlashes | Dashes
             if subs.callouts()
               && token.is_len(2)
               && line.current_is(Whitespace)
-- 
2.43.0


From 02236d193c4f8483f7a5715b8c01aefd1722e7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:17 +0000
Subject: [PATCH 126/182] fix: cell specs must be set off from the text before
 them

---
 parser/src/tasks/table/parse_psv_table.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/parser/src/tasks/table/parse_psv_table.rs b/parser/src/tasks/table/parse_psv_table.rs
index 02749d8..565eedf 100644
--- a/parser/src/tasks/table/parse_psv_table.rs
+++ b/parser/src/tasks/table/parse_psv_table.rs
@@ -109,14 +109,20 @@ impl<'arena> Parser<'arena> {
     let mut end = start;
     let mut cell_tokens = Line::empty(self.bump);
 
+    // a cell spec must be set off from the content of the cell before it
+    let mut after_space = false;
+
     // trim leading whitespace
     while tokens.current().kind(TokenKind::Whitespace) {
       let trimmed = tokens.consume_current().unwrap();
       start = trimmed.loc.end;
+      after_space = true;
     }
 
     loop {
-      if self.starts_psv_cell(tokens, ctx.cell_separator) {
+      if self.starts_psv_cell(tokens, ctx.cell_separator)
+        && (after_space || tokens.current().unwrap().lexeme.starts_with(ctx.cell_separator))
+      {
         if drop_invalid_cell {
           return self.parse_psv_table_cell(tokens, ctx, col_index);
         } else {
@@ -139,6 +145,7 @@ impl<'arena> Parser<'arena> {
       }
 
       end = token.loc.end;
+      after_space = token.is_whitespaceish();
       // NB: allow for escaping a delimiter, but other backslashes should pass thru
       if !token.kind(TokenKind::Backslash) || !self.starts_psv_cell(tokens, ctx.cell_separator) {
         cell_tokens.push(token);
-- 
2.43.0


From 0545ac34daed4f8cc09d2e68682ceb4081a63141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:17 +0000
Subject: [PATCH 127/182] fix: format=psv is the default table format

---
 parser/src/tasks/table/parse_table.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/tasks/table/parse_table.rs b/parser/src/tasks/table/parse_table.rs
index e7fddd6..4c0e729 100644
--- a/parser/src/tasks/table/parse_table.rs
+++ b/parser/src/tasks/table/parse_table.rs
@@ -37,7 +37,7 @@ impl<'arena> Parser<'arena> {
 
     let mut format = match (meta.attrs.named("format"), delim_ch) {
       (Some("psv"), b'!') if self.ctx.parsing_adoc_cell() => DataFormat::Prefix('!'),
-      (Some("psv"), _) => DataFormat::Csv('|'),
+      (Some("psv"), _) => DataFormat::Prefix('|'),
       (Some("csv"), _) => DataFormat::Csv(','),
       (Some("tsv"), _) => DataFormat::Csv('\t'),
       (Some("dsv"), _) => DataFormat::Delimited(':'),
-- 
2.43.0


From 70436bff7788db2d0eb111e64e5c87ca2318f06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:39 +0000
Subject: [PATCH 128/182] fix: find cell separators joined to other tokens, not
 those of attribute values

---
 parser/src/tasks/table/mod.rs             | 66 +++++++++++++++++++++++
 parser/src/tasks/table/parse_csv_table.rs |  7 +--
 parser/src/tasks/table/parse_dsv_table.rs |  9 +++-
 parser/src/tasks/table/parse_psv_table.rs |  4 +-
 parser/src/tasks/table/parse_table.rs     | 14 ++---
 5 files changed, 88 insertions(+), 12 deletions(-)

diff --git a/parser/src/tasks/table/mod.rs b/parser/src/tasks/table/mod.rs
index c341759..161dbe5 100644
--- a/parser/src/tasks/table/mod.rs
+++ b/parser/src/tasks/table/mod.rs
@@ -69,6 +69,18 @@ impl<'arena> TableTokens<'arena> {
     Self(Line::new(tokens))
   }
 
+  pub fn starts_with(&self, ch: char) -> bool {
+    self
+      .current()
+      .is_some_and(|token| token.lexeme.starts_with(ch))
+  }
+
+  pub fn starts_quote(&self) -> bool {
+    self
+      .current()
+      .is_some_and(|token| token.kind(TokenKind::DoubleQuote) && !token.attr_replacement)
+  }
+
   pub fn discard(&mut self, n: usize) {
     self.0.discard(n);
   }
@@ -130,3 +142,57 @@ impl<'arena> TableTokens<'arena> {
     self.0.is_empty()
   }
 }
+
+impl DataFormat {
+  /// whether the lexer may have taken a separator for a part of a longer token
+  pub fn may_join_separator(&self, kind: TokenKind) -> bool {
+    use TokenKind::*;
+    match kind {
+      Word | TermDelimiter => true,
+      Whitespace => self.separator().is_whitespace(),
+      // in a quoted csv value these are what they look like
+      MacroName | UriScheme => !matches!(self, DataFormat::Csv(_)),
+      _ => false,
+    }
+  }
+
+  /// makes a token of its own of each separator in the token
+  pub fn split_token<'arena>(
+    &self,
+    token: Token<'arena>,
+    tokens: &mut Deq<'arena, Token<'arena>>,
+    bump: &'arena Bump,
+  ) {
+    let sep = self.separator();
+    if token.attr_replacement || !self.may_join_separator(token.kind) || !token.lexeme.contains(sep)
+    {
+      tokens.push(token);
+      return;
+    }
+    let mut start = token.loc.start;
+    for piece in token.lexeme.split_inclusive(sep) {
+      let (text, end) = match piece.strip_suffix(sep) {
+        Some(text) => (text, &piece[text.len()..]),
+        None => (piece, ""),
+      };
+      for part in [text, end] {
+        if part.is_empty() {
+          continue;
+        }
+        let kind = match part {
+          ":" => TokenKind::Colon,
+          ";" => TokenKind::SemiColon,
+          _ if token.kind(TokenKind::Whitespace) => TokenKind::Whitespace,
+          _ => TokenKind::Word,
+        };
+        tokens.push(Token {
+          kind,
+          lexeme: BumpString::from_str_in(part, bump),
+          loc: SourceLocation::new(start, start + part.len() as u32, token.loc.include_depth),
+          attr_replacement: false,
+        });
+        start += part.len() as u32;
+      }
+    }
+  }
+}
diff --git a/parser/src/tasks/table/parse_csv_table.rs b/parser/src/tasks/table/parse_csv_table.rs
index fe539d1..8cd72e2 100644
--- a/parser/src/tasks/table/parse_csv_table.rs
+++ b/parser/src/tasks/table/parse_csv_table.rs
@@ -14,7 +14,7 @@ impl<'arena> Parser<'arena> {
     let mut end = start;
 
     let mut quote = {
-      if tokens.current().kind(TokenKind::DoubleQuote) {
+      if tokens.starts_quote() {
         let quote = tokens.consume_current().unwrap();
         start = quote.loc.end;
         while tokens.current().is_whitespaceish() {
@@ -48,16 +48,17 @@ impl<'arena> Parser<'arena> {
 
       end = token.loc.end;
       match token.kind {
+        _ if token.attr_replacement => cell_tokens.push(token),
         DoubleQuote if quote.is_none() => {
           self.err_at(
             "Double quote not allowed here, entire field must be quoted",
             token.loc,
           )?;
         }
-        DoubleQuote if quote.is_some() && tokens.current().not_kind(DoubleQuote) => {
+        DoubleQuote if quote.is_some() && !tokens.starts_quote() => {
           quote = None;
         }
-        DoubleQuote if quote.is_some() && tokens.current().kind(DoubleQuote) => {
+        DoubleQuote if quote.is_some() && tokens.starts_quote() => {
           cell_tokens.push(tokens.consume_current().unwrap());
         }
         _ => {
diff --git a/parser/src/tasks/table/parse_dsv_table.rs b/parser/src/tasks/table/parse_dsv_table.rs
index b8ce8cc..a1dbe1d 100644
--- a/parser/src/tasks/table/parse_dsv_table.rs
+++ b/parser/src/tasks/table/parse_dsv_table.rs
@@ -50,7 +50,7 @@ impl<'arena> Parser<'arena> {
     let mut start = tokens.current().unwrap().loc.start;
 
     let mut trimmed_newline = false;
-    while tokens.current().is_whitespaceish() {
+    while tokens.current().is_whitespaceish() && !tokens.starts_with(ctx.cell_separator) {
       let trimmed = tokens.consume_current().unwrap();
       start = trimmed.loc.end;
       if trimmed.kind(TokenKind::Newline) {
@@ -106,7 +106,8 @@ impl<'arena> Parser<'arena> {
         ctx.counting_cols = false
       }
       end = token.loc.end;
-      if !token.kind(TokenKind::Backslash) {
+      // NB: only a separator can be escaped, other backslashes pass thru
+      if !token.kind(TokenKind::Backslash) || !tokens.starts_with(ctx.cell_separator) {
         cell_tokens.push(token);
       } else if let Some(next) = tokens.consume_current() {
         end = next.loc.end;
@@ -128,6 +129,10 @@ impl<'arena> Parser<'arena> {
     }
 
     ctx.dsv_last_consumed = DsvLastConsumed::Other;
+    if tokens.current().is_some_and(|token| token.attr_replacement) {
+      return false;
+    }
+
     if let Some(tokenkind) = ctx.cell_separator_tokenkind {
       return if tokens.current().kind(tokenkind) {
         ctx.dsv_last_consumed = DsvLastConsumed::Delimiter;
diff --git a/parser/src/tasks/table/parse_psv_table.rs b/parser/src/tasks/table/parse_psv_table.rs
index 565eedf..33a19ca 100644
--- a/parser/src/tasks/table/parse_psv_table.rs
+++ b/parser/src/tasks/table/parse_psv_table.rs
@@ -113,7 +113,9 @@ impl<'arena> Parser<'arena> {
     let mut after_space = false;
 
     // trim leading whitespace
-    while tokens.current().kind(TokenKind::Whitespace) {
+    while tokens.current().kind(TokenKind::Whitespace)
+      && !tokens.starts_with(ctx.cell_separator)
+    {
       let trimmed = tokens.consume_current().unwrap();
       start = trimmed.loc.end;
       after_space = true;
diff --git a/parser/src/tasks/table/parse_table.rs b/parser/src/tasks/table/parse_table.rs
index 4c0e729..cb06a03 100644
--- a/parser/src/tasks/table/parse_table.rs
+++ b/parser/src/tasks/table/parse_table.rs
@@ -99,7 +99,7 @@ impl<'arena> Parser<'arena> {
       ctx.header_row = HeaderRow::FoundNone;
     }
 
-    let (mut tokens, end_loc) = self.table_content(lines, &delim_line, ctx.cell_separator)?;
+    let (mut tokens, end_loc) = self.table_content(lines, &delim_line, ctx.format)?;
     if ctx.counting_cols {
       if !matches!(ctx.format, DataFormat::Prefix(_)) {
         self.parse_dsv_implicit_first_row(&mut tokens, &mut ctx)?;
@@ -371,7 +371,7 @@ impl<'arena> Parser<'arena> {
     &mut self,
     mut lines: ContiguousLines<'arena>,
     start_delim: &Line<'arena>,
-    separator: char,
+    format: DataFormat,
   ) -> Result<(TableTokens<'arena>, SourceLocation)> {
     let mut tokens = Deq::with_capacity(lines.num_tokens(), self.bump);
     let delim_loc = start_delim.last_loc().unwrap();
@@ -392,8 +392,9 @@ impl<'arena> Parser<'arena> {
       if let Some(loc) = line.last_loc() {
         end = loc.end;
       }
-      if !line.is_emptyish() || separator.is_whitespace() {
-        line.drain_into(&mut tokens);
+      if !line.is_emptyish() || format.separator().is_whitespace() {
+        let line_tokens = line.into_iter();
+        line_tokens.for_each(|token| format.split_token(token, &mut tokens, self.bump));
       }
       if !lines.is_empty() {
         tokens.push(newline_token(end, delim_loc.include_depth, self.bump));
@@ -416,8 +417,9 @@ impl<'arena> Parser<'arena> {
       if let Some(loc) = next_line.last_loc() {
         end = loc.end;
       }
-      if !next_line.is_emptyish() || separator.is_whitespace() {
-        next_line.drain_into(&mut tokens);
+      if !next_line.is_emptyish() || format.separator().is_whitespace() {
+        let line_tokens = next_line.into_iter();
+        line_tokens.for_each(|token| format.split_token(token, &mut tokens, self.bump));
       }
     }
     self.ctx.verbatim_delim = None;
-- 
2.43.0


From 64d6a544fafbbd7a210426b7aebcf901e3420aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:55 +0000
Subject: [PATCH 129/182] fix: a repeated table cell takes the style and
 alignment of its own column

---
 parser/src/tasks/table/context.rs         | 12 +++-
 parser/src/tasks/table/parse_csv_table.rs |  4 +-
 parser/src/tasks/table/parse_dsv_table.rs |  8 +--
 parser/src/tasks/table/parse_psv_table.rs | 71 ++++++++++++-----------
 parser/src/tasks/table/parse_table.rs     |  7 +--
 5 files changed, 55 insertions(+), 47 deletions(-)

diff --git a/parser/src/tasks/table/context.rs b/parser/src/tasks/table/context.rs
index a32afeb..10a8b6e 100644
--- a/parser/src/tasks/table/context.rs
+++ b/parser/src/tasks/table/context.rs
@@ -1,4 +1,5 @@
 use std::collections::HashSet;
+use std::ops::Range;
 
 use super::DataFormat;
 use crate::internal::*;
@@ -20,7 +21,8 @@ pub struct TableContext<'arena> {
   pub effective_row_idx: usize,
   pub dsv_last_consumed: DsvLastConsumed,
   pub table: Table<'arena>,
-  pub spilled_cells: BumpVec<'arena, Cell<'arena>>,
+  /// repetitions of a cell that are still to be placed
+  pub spilled_cells: BumpVec<'arena, RepeatedCell<'arena>>,
 }
 
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
@@ -49,6 +51,14 @@ pub struct ParseCellData<'arena> {
   pub col_spec: Option<ColSpec>,
 }
 
+#[derive(Debug, Clone)]
+pub struct RepeatedCell<'arena> {
+  pub cell_tokens: Line<'arena>,
+  pub cell_spec: CellSpec,
+  pub loc: Range<u32>,
+  pub remaining: u8,
+}
+
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
 pub enum DsvLastConsumed {
   Delimiter,
diff --git a/parser/src/tasks/table/parse_csv_table.rs b/parser/src/tasks/table/parse_csv_table.rs
index 8cd72e2..1078dab 100644
--- a/parser/src/tasks/table/parse_csv_table.rs
+++ b/parser/src/tasks/table/parse_csv_table.rs
@@ -33,9 +33,7 @@ impl<'arena> Parser<'arena> {
         if let Some(loc) = quote {
           self.err_at("Unclosed CSV quote", loc.clamp_start().incr_end())?;
         }
-        return self
-          .finish_cell(CellSpec::default(), cell_tokens, col_index, ctx, start..end)
-          .map(|data| data.map(|(cell, _)| cell));
+        return self.finish_cell(CellSpec::default(), cell_tokens, col_index, ctx, start..end);
       }
 
       let token = tokens
diff --git a/parser/src/tasks/table/parse_dsv_table.rs b/parser/src/tasks/table/parse_dsv_table.rs
index a1dbe1d..037a344 100644
--- a/parser/src/tasks/table/parse_dsv_table.rs
+++ b/parser/src/tasks/table/parse_dsv_table.rs
@@ -62,9 +62,7 @@ impl<'arena> Parser<'arena> {
     // delimiter followed by newline is an empty cell
     if ctx.dsv_last_consumed == DsvLastConsumed::Delimiter && trimmed_newline {
       let spec = CellSpec::default();
-      return self
-        .finish_cell(spec, Line::empty(self.bump), col_index, ctx, start..start)
-        .map(|data| data.map(|(cell, _)| cell));
+      return self.finish_cell(spec, Line::empty(self.bump), col_index, ctx, start..start);
     }
 
     let maybe_cell = match ctx.format {
@@ -95,9 +93,7 @@ impl<'arena> Parser<'arena> {
     let mut end = start;
     loop {
       if tokens.current().is_none() || self.consume_dsv_delimiter(tokens, ctx) {
-        return self
-          .finish_cell(CellSpec::default(), cell_tokens, col_index, ctx, start..end)
-          .map(|data| data.map(|(cell, _)| cell));
+        return self.finish_cell(CellSpec::default(), cell_tokens, col_index, ctx, start..end);
       }
       let token = tokens
         .consume_splitting(ctx.embeddable_cell_separator)
diff --git a/parser/src/tasks/table/parse_psv_table.rs b/parser/src/tasks/table/parse_psv_table.rs
index 33a19ca..acd86e1 100644
--- a/parser/src/tasks/table/parse_psv_table.rs
+++ b/parser/src/tasks/table/parse_psv_table.rs
@@ -1,3 +1,5 @@
+use std::ops::Range;
+
 use super::{TableTokens, context::*};
 use crate::internal::*;
 
@@ -8,16 +10,10 @@ impl<'arena> Parser<'arena> {
     ctx: &mut TableContext<'arena>,
   ) -> Result<()> {
     let mut cells = bvec![in self.bump];
-    while let Some((cell, dupe)) = self.parse_psv_table_cell(tokens, ctx, cells.len())? {
-      if dupe > 1 {
-        for _ in 1..dupe {
-          ctx.add_phantom_cells(&cell, cells.len());
-          cells.push(cell.clone());
-        }
-      }
+    while let Some(cell) = self.parse_psv_table_cell(tokens, ctx, cells.len())? {
       ctx.add_phantom_cells(&cell, cells.len());
       cells.push(cell);
-      if !ctx.counting_cols {
+      if !ctx.counting_cols && ctx.spilled_cells.is_empty() {
         break;
       }
     }
@@ -35,29 +31,8 @@ impl<'arena> Parser<'arena> {
     ctx: &mut TableContext<'arena>,
   ) -> Result<Option<Row<'arena>>> {
     let mut cells = bvec![in self.bump];
-    std::mem::swap(&mut cells, &mut ctx.spilled_cells);
     let mut num_effective_cells = ctx.row_phantom_cells();
-
-    // check if we need to distrubute spilled cells from last row
-    let remaining_room = ctx.num_cols.saturating_sub(num_effective_cells);
-    ctx.spilled_cells = cells.split_off(remaining_room.min(cells.len()));
-    if cells.len() == remaining_room && ctx.num_cols > 0 {
-      ctx.effective_row_idx += 1;
-      return Ok(Some(Row::new(cells)));
-    }
-
-    while let Some((cell, dupe)) = self.parse_psv_table_cell(tokens, ctx, cells.len())? {
-      if dupe > 1 {
-        for _ in 1..dupe {
-          ctx.add_phantom_cells(&cell, num_effective_cells);
-          num_effective_cells += cell.col_span as usize;
-          if num_effective_cells < ctx.num_cols {
-            cells.push(cell.clone());
-          } else {
-            ctx.spilled_cells.push(cell.clone());
-          }
-        }
-      }
+    while let Some(cell) = self.parse_psv_table_cell(tokens, ctx, cells.len())? {
       ctx.add_phantom_cells(&cell, num_effective_cells);
       num_effective_cells += cell.col_span as usize;
       cells.push(cell);
@@ -78,7 +53,16 @@ impl<'arena> Parser<'arena> {
     tokens: &mut TableTokens<'arena>,
     ctx: &mut TableContext<'arena>,
     col_index: usize,
-  ) -> Result<Option<(Cell<'arena>, u8)>> {
+  ) -> Result<Option<Cell<'arena>>> {
+    if let Some(mut repeated) = ctx.spilled_cells.pop() {
+      let RepeatedCell { cell_spec, cell_tokens, loc, .. } = repeated.clone();
+      repeated.remaining -= 1;
+      if repeated.remaining > 0 {
+        ctx.spilled_cells.push(repeated);
+      }
+      return self.finish_cell(cell_spec, cell_tokens, col_index, ctx, loc);
+    }
+
     if tokens.is_empty() {
       return Ok(None);
     }
@@ -128,14 +112,14 @@ impl<'arena> Parser<'arena> {
         if drop_invalid_cell {
           return self.parse_psv_table_cell(tokens, ctx, col_index);
         } else {
-          return self.finish_cell(spec, cell_tokens, col_index, ctx, start..end);
+          return self.finish_psv_cell(spec, cell_tokens, col_index, ctx, start..end);
         }
       }
       let Some(token) = tokens.consume_splitting(ctx.embeddable_cell_separator) else {
         if drop_invalid_cell {
           return self.parse_psv_table_cell(tokens, ctx, col_index);
         } else {
-          return self.finish_cell(spec, cell_tokens, col_index, ctx, start..end);
+          return self.finish_psv_cell(spec, cell_tokens, col_index, ctx, start..end);
         }
       };
 
@@ -157,6 +141,27 @@ impl<'arena> Parser<'arena> {
       }
     }
   }
+
+  fn finish_psv_cell(
+    &mut self,
+    cell_spec: CellSpec,
+    cell_tokens: Line<'arena>,
+    col_index: usize,
+    ctx: &mut TableContext<'arena>,
+    loc: Range<u32>,
+  ) -> Result<Option<Cell<'arena>>> {
+    // each repetition is a cell of its own column
+    let remaining = cell_spec.duplication.unwrap_or(1).saturating_sub(1);
+    if remaining > 0 {
+      ctx.spilled_cells.push(RepeatedCell {
+        cell_tokens: cell_tokens.clone(),
+        cell_spec: cell_spec.clone(),
+        loc: loc.clone(),
+        remaining,
+      });
+    }
+    self.finish_cell(cell_spec, cell_tokens, col_index, ctx, loc)
+  }
 }
 
 #[cfg(test)]
diff --git a/parser/src/tasks/table/parse_table.rs b/parser/src/tasks/table/parse_table.rs
index cb06a03..802d330 100644
--- a/parser/src/tasks/table/parse_table.rs
+++ b/parser/src/tasks/table/parse_table.rs
@@ -185,7 +185,7 @@ impl<'arena> Parser<'arena> {
     col_index: usize,
     ctx: &mut TableContext<'arena>,
     mut loc: Range<u32>,
-  ) -> Result<Option<(Cell<'arena>, u8)>> {
+  ) -> Result<Option<Cell<'arena>>> {
     let col_spec = ctx.col_specs.get(col_index);
     let mut cell_style = cell_spec
       .style
@@ -215,7 +215,6 @@ impl<'arena> Parser<'arena> {
       }
     }
 
-    let repeat = cell_spec.duplication.unwrap_or(1);
     if cell_style == CellContentStyle::AsciiDoc {
       if ctx.header_row.is_unknown() || trimmed_implicit_header {
         ctx.header_reparse_cells.push(ParseCellData {
@@ -254,7 +253,7 @@ impl<'arena> Parser<'arena> {
 
           let content = CellContent::AsciiDoc(document);
           let cell = Cell::new(content, cell_spec, col_spec.cloned());
-          Ok(Some((cell, repeat)))
+          Ok(Some(cell))
         }
         Err(mut diagnostics) => {
           self.lexer.reline_diagnostics(&line_starts, &mut diagnostics);
@@ -279,7 +278,7 @@ impl<'arena> Parser<'arena> {
       ctx.header_reparse_cells.push(cell_data.clone());
     }
     let cell = self.parse_non_asciidoc_cell(cell_data, cell_style)?;
-    Ok(Some((cell, repeat)))
+    Ok(Some(cell))
   }
 
   // header cells don't have a style, but we don't always know
-- 
2.43.0


From 8745d14aea359d17665903709d55111d153c643b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:04 +0000
Subject: [PATCH 130/182] fix: place cells next to overlapping row and column
 spans

---
 parser/src/tasks/table/context.rs         | 8 ++++++++
 parser/src/tasks/table/parse_psv_table.rs | 8 ++++++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/parser/src/tasks/table/context.rs b/parser/src/tasks/table/context.rs
index 10a8b6e..42302ce 100644
--- a/parser/src/tasks/table/context.rs
+++ b/parser/src/tasks/table/context.rs
@@ -84,6 +84,14 @@ impl TableContext<'_> {
     }
   }
 
+  /// the first column not covered by a spanning cell, starting at `col`
+  pub fn next_free_col(&self, mut col: usize) -> usize {
+    while self.phantom_cells.contains(&(self.effective_row_idx, col)) {
+      col += 1;
+    }
+    col
+  }
+
   pub fn row_phantom_cells(&self) -> usize {
     self
       .phantom_cells
diff --git a/parser/src/tasks/table/parse_psv_table.rs b/parser/src/tasks/table/parse_psv_table.rs
index acd86e1..f3322d0 100644
--- a/parser/src/tasks/table/parse_psv_table.rs
+++ b/parser/src/tasks/table/parse_psv_table.rs
@@ -10,8 +10,10 @@ impl<'arena> Parser<'arena> {
     ctx: &mut TableContext<'arena>,
   ) -> Result<()> {
     let mut cells = bvec![in self.bump];
+    let mut col = 0;
     while let Some(cell) = self.parse_psv_table_cell(tokens, ctx, cells.len())? {
-      ctx.add_phantom_cells(&cell, cells.len());
+      ctx.add_phantom_cells(&cell, col);
+      col = ctx.next_free_col(col + 1);
       cells.push(cell);
       if !ctx.counting_cols && ctx.spilled_cells.is_empty() {
         break;
@@ -32,8 +34,10 @@ impl<'arena> Parser<'arena> {
   ) -> Result<Option<Row<'arena>>> {
     let mut cells = bvec![in self.bump];
     let mut num_effective_cells = ctx.row_phantom_cells();
+    let mut col = ctx.next_free_col(0);
     while let Some(cell) = self.parse_psv_table_cell(tokens, ctx, cells.len())? {
-      ctx.add_phantom_cells(&cell, num_effective_cells);
+      ctx.add_phantom_cells(&cell, col);
+      col = ctx.next_free_col(col + 1);
       num_effective_cells += cell.col_span as usize;
       cells.push(cell);
       if num_effective_cells >= ctx.num_cols {
-- 
2.43.0


From c7b2163b05a57025356079a526b52a4ad3df6198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:57 +0000
Subject: [PATCH 131/182] fix: formatted text at the start of a cell after a
 `;` or `:` separator

---
 parser/src/lexer/root_lexer.rs                 | 15 +++++++++++++++
 parser/src/tasks/parse_inlines/inline_utils.rs |  8 +++++---
 parser/src/tasks/table/parse_table.rs          |  1 +
 3 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/parser/src/lexer/root_lexer.rs b/parser/src/lexer/root_lexer.rs
index 903fe6c..5f82efe 100644
--- a/parser/src/lexer/root_lexer.rs
+++ b/parser/src/lexer/root_lexer.rs
@@ -12,6 +12,8 @@ pub struct RootLexer<'arena> {
   sources: BumpVec<'arena, SourceLexer<'arena>>,
   plugin_macros: Rc<BumpVec<'arena, BumpString<'arena>>>,
   tmp_buf: Option<(SourceLexer<'arena>, BufLoc)>,
+  /// where the text of a table cell starts, after its separator
+  text_start: Option<SourceLocation>,
 }
 
 #[derive(Debug)]
@@ -31,6 +33,7 @@ impl<'arena> RootLexer<'arena> {
       plugin_macros: Rc::new(BumpVec::new_in(bump)),
       sources: bvec![in bump; SourceLexer::new(src, file, 0, None, Rc::new(bvec![in bump]), bump)],
       tmp_buf: None,
+      text_start: None,
     }
   }
 
@@ -43,6 +46,7 @@ impl<'arena> RootLexer<'arena> {
       source_stack: Vec::new(),
       sources: bvec![in bump; SourceLexer::from_str(src, file, bump)],
       tmp_buf: None,
+      text_start: None,
     }
   }
 
@@ -55,6 +59,7 @@ impl<'arena> RootLexer<'arena> {
       source_stack: Vec::new(),
       sources: bvec![in bump; SourceLexer::from_byte_slice(bytes, file, bump)],
       tmp_buf: None,
+      text_start: None,
     }
   }
 
@@ -188,6 +193,16 @@ impl<'arena> RootLexer<'arena> {
     matches!(self.char_before(loc), None | Some('\n'))
   }
 
+  pub const fn set_text_start(&mut self, loc: Option<SourceLocation>) {
+    self.text_start = loc;
+  }
+
+  pub fn is_text_start(&self, loc: SourceLocation) -> bool {
+    self
+      .text_start
+      .is_some_and(|l| (l.start, l.include_depth) == (loc.start, loc.include_depth))
+  }
+
   pub fn char_before(&self, loc: SourceLocation) -> Option<char> {
     self.sources[loc.include_depth as usize].char_before(loc.start)
   }
diff --git a/parser/src/tasks/parse_inlines/inline_utils.rs b/parser/src/tasks/parse_inlines/inline_utils.rs
index 5294c05..52c91ac 100644
--- a/parser/src/tasks/parse_inlines/inline_utils.rs
+++ b/parser/src/tasks/parse_inlines/inline_utils.rs
@@ -46,9 +46,11 @@ impl<'arena> Parser<'arena> {
     {
       return false;
     }
-    self.lexer.char_before(token.loc).is_none_or(|c| {
-      !c.is_alphanumeric() && !matches!(c, '&' | ';' | ':' | '}' | '\\')
-    }) && !line.starts(Whitespace)
+    let char_before = self.lexer.char_before(token.loc);
+    (self.lexer.is_text_start(token.loc)
+      || char_before
+        .is_none_or(|c| !c.is_alphanumeric() && !matches!(c, '&' | ';' | ':' | '}' | '\\')))
+      && !line.starts(Whitespace)
       && token.kind(stop_tokens.last().unwrap().token_kind().unwrap())
       && (line.terminates_constrained(stop_tokens, &self.ctx.inline_ctx)
         || lines.terminates_constrained(stop_tokens, &self.ctx.inline_ctx))
diff --git a/parser/src/tasks/table/parse_table.rs b/parser/src/tasks/table/parse_table.rs
index 802d330..4c515b1 100644
--- a/parser/src/tasks/table/parse_table.rs
+++ b/parser/src/tasks/table/parse_table.rs
@@ -325,6 +325,7 @@ impl<'arena> Parser<'arena> {
       self.ctx.table_cell_ctx = TableCellContext::Cell;
       let prev_subs = self.ctx.subs;
       self.ctx.subs = cell_style.into();
+      self.lexer.set_text_start(data.cell_tokens.first_loc());
       let inlines = self.parse_inlines(&mut data.cell_tokens.into_lines())?;
       self.ctx.subs = prev_subs;
       self.ctx.table_cell_ctx = prev_tbl_ctx;
-- 
2.43.0


From 2ea3f060176b221dd56fa60752400cb28e146e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:25 +0000
Subject: [PATCH 132/182] fix: implicit header of a csv or dsv table whose
 first row ends in an empty cell

---
 parser/src/tasks/table/parse_dsv_table.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/parser/src/tasks/table/parse_dsv_table.rs b/parser/src/tasks/table/parse_dsv_table.rs
index 037a344..a77bb40 100644
--- a/parser/src/tasks/table/parse_dsv_table.rs
+++ b/parser/src/tasks/table/parse_dsv_table.rs
@@ -56,11 +56,18 @@ impl<'arena> Parser<'arena> {
       if trimmed.kind(TokenKind::Newline) {
         trimmed_newline = true;
         ctx.counting_cols = false;
+        if ctx.dsv_last_consumed == DsvLastConsumed::Delimiter {
+          break;
+        }
       }
     }
 
     // delimiter followed by newline is an empty cell
     if ctx.dsv_last_consumed == DsvLastConsumed::Delimiter && trimmed_newline {
+      ctx.dsv_last_consumed = DsvLastConsumed::Newline;
+      if ctx.header_row.is_unknown() && tokens.current().kind(TokenKind::Newline) {
+        ctx.header_row = HeaderRow::FoundImplicit;
+      }
       let spec = CellSpec::default();
       return self.finish_cell(spec, Line::empty(self.bump), col_index, ctx, start..start);
     }
-- 
2.43.0


From 9e3c85c01d4ab8f20df4c87bcc1d6c480665197a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:16 +0000
Subject: [PATCH 133/182] fix: a newline in a quoted csv value does not end the
 first row

---
 parser/src/tasks/table/parse_csv_table.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/parser/src/tasks/table/parse_csv_table.rs b/parser/src/tasks/table/parse_csv_table.rs
index 1078dab..7f1cdeb 100644
--- a/parser/src/tasks/table/parse_csv_table.rs
+++ b/parser/src/tasks/table/parse_csv_table.rs
@@ -40,10 +40,6 @@ impl<'arena> Parser<'arena> {
         .consume_splitting(ctx.embeddable_cell_separator)
         .unwrap();
 
-      if token.kind(Newline) {
-        ctx.counting_cols = false
-      }
-
       end = token.loc.end;
       match token.kind {
         _ if token.attr_replacement => cell_tokens.push(token),
-- 
2.43.0


From 27d263c66b4030c78145235e0e76b0b5a5e9b900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:40 +0000
Subject: [PATCH 134/182] fix: diagnostics quote the whole line, and underline
 nothing past its end

---
 parser/src/diagnostic.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/parser/src/diagnostic.rs b/parser/src/diagnostic.rs
index 04b24f3..2b4cb71 100644
--- a/parser/src/diagnostic.rs
+++ b/parser/src/diagnostic.rs
@@ -14,12 +14,12 @@ impl Parser<'_> {
   pub(crate) fn err_line(&self, message: impl Into<String>, line: &Line) -> Result<()> {
     let loc = line.first_loc().expect("non empty line for `err_line`");
     let (line_num, offset) = self.lexer.line_number_with_offset(loc);
-    let line = line.reassemble_src().to_string();
+    let line = self.lexer.line_of(loc).to_string();
     self.handle_err(Diagnostic {
       line_num,
       message: message.into(),
       underline_start: offset,
-      underline_width: line.len() as u32,
+      underline_width: (line.len() as u32).saturating_sub(offset),
       line,
       source_file: self.lexer.source_file_at(loc.include_depth).clone(),
     })
@@ -36,7 +36,7 @@ impl Parser<'_> {
       line_num,
       message: message.into(),
       underline_start: offset,
-      underline_width: line.len() as u32,
+      underline_width: (line.len() as u32).saturating_sub(offset),
       line: String::from(line.as_str()),
       source_file: self.lexer.source_file_at(loc.include_depth).clone(),
     })
@@ -100,12 +100,14 @@ impl Parser<'_> {
 
   pub(crate) fn err_at(&self, message: impl Into<String>, loc: SourceLocation) -> Result<()> {
     let (line_num, offset) = self.lexer.line_number_with_offset(loc);
+    let line = self.lexer.line_of(loc).to_string();
+    let rest_of_line = (line.len() as u32).saturating_sub(offset);
     self.handle_err(Diagnostic {
       line_num,
-      line: self.lexer.line_of(loc).to_string(),
+      line,
       message: message.into(),
       underline_start: offset,
-      underline_width: loc.end.saturating_sub(loc.start),
+      underline_width: loc.end.saturating_sub(loc.start).min(rest_of_line).max(1),
       source_file: self.lexer.source_file_at(loc.include_depth).clone(),
     })
   }
-- 
2.43.0


From 6f43a73e63b84264fdb57fa87f31a757fabf985b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:47 +0000
Subject: [PATCH 135/182] fix: line numbers of problems in the tagged regions
 of an included file

---
 parser/src/diagnostic.rs                     |  3 ++-
 parser/src/tasks/directives/includes/tags.rs | 25 ++++++++++++++++----
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/parser/src/diagnostic.rs b/parser/src/diagnostic.rs
index 2b4cb71..43bd37b 100644
--- a/parser/src/diagnostic.rs
+++ b/parser/src/diagnostic.rs
@@ -101,7 +101,8 @@ impl Parser<'_> {
   pub(crate) fn err_at(&self, message: impl Into<String>, loc: SourceLocation) -> Result<()> {
     let (line_num, offset) = self.lexer.line_number_with_offset(loc);
     let line = self.lexer.line_of(loc).to_string();
-    let rest_of_line = (line.len() as u32).saturating_sub(offset);
+    let offset = offset.min(line.len() as u32);
+    let rest_of_line = line.len() as u32 - offset;
     self.handle_err(Diagnostic {
       line_num,
       line,
diff --git a/parser/src/tasks/directives/includes/tags.rs b/parser/src/tasks/directives/includes/tags.rs
index 69e6619..c54d3ee 100644
--- a/parser/src/tasks/directives/includes/tags.rs
+++ b/parser/src/tasks/directives/includes/tags.rs
@@ -5,6 +5,8 @@ use regex::bytes::Regex;
 
 use crate::internal::*;
 
+const NOT_INCLUDED: &[u8] = b"asciidorkinclude::[false]\n";
+
 #[derive(Debug, PartialEq, Eq)]
 pub enum Spec {
   AllNonTagDirectiveLines,       // `**`
@@ -171,24 +173,37 @@ impl<'arena> Parser<'arena> {
       .filter(|(tag, _)| !tag.is_empty())
       .and_then(|(tag, loc)| parse_spec(tag).map(|sel| (sel, loc)))
     {
-      self._select_tagged_lines(TagSpecs(vec![selection]), src, src_path, loc)
+      self.filter_tagged_lines(TagSpecs(vec![selection]), src, src_path, loc, NOT_INCLUDED)
     } else if let Some((tags, loc)) = attr_list
       .named_with_loc("tags")
       .filter(|(tags, _)| !tags.is_empty())
     {
       let selection = parse_selection(tags);
-      self._select_tagged_lines(selection, src, src_path, loc)
+      self.filter_tagged_lines(selection, src, src_path, loc, NOT_INCLUDED)
     } else {
       Ok(())
     }
   }
 
+  #[cfg(test)]
   fn _select_tagged_lines(
     &mut self,
     selection: TagSpecs,
     src: &mut BumpVec<'arena, u8>,
     src_path: &Path,
     attr_loc: SourceLocation,
+  ) -> Result<()> {
+    self.filter_tagged_lines(selection, src, src_path, attr_loc, b"")
+  }
+
+  /// NB: lines not selected are replaced, so that the rest keep their line numbers
+  fn filter_tagged_lines(
+    &mut self,
+    selection: TagSpecs,
+    src: &mut BumpVec<'arena, u8>,
+    src_path: &Path,
+    attr_loc: SourceLocation,
+    not_selected: &[u8],
   ) -> Result<()> {
     let mut dest = BumpVec::with_capacity_in(src.len(), self.bump);
     let mut tag_stack = TagStack::new();
@@ -199,12 +214,12 @@ impl<'arena> Parser<'arena> {
     for (idx, line) in lines.enumerate() {
       match tag_directive(line) {
         Some(TagDirective::Start(tag)) => {
-          dest.extend_from_slice(b"asciidorkinclude::[false]\n");
+          dest.extend_from_slice(NOT_INCLUDED);
           expected_tags.remove(&tag);
           tag_stack.push(tag, idx);
         }
         Some(TagDirective::End(tag)) => {
-          dest.extend_from_slice(b"asciidorkinclude::[false]\n");
+          dest.extend_from_slice(NOT_INCLUDED);
           if tag_stack.last_is(&tag) {
             tag_stack.pop();
           } else if selection.expected_tags().contains(&tag) {
@@ -236,6 +251,8 @@ impl<'arena> Parser<'arena> {
             }
             dest.extend(line);
             dest.push(b'\n');
+          } else {
+            dest.extend_from_slice(not_selected);
           }
         }
       }
-- 
2.43.0


From fb492caf8e8fcb9111243b8d47d7ec278abb23ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:11 +0000
Subject: [PATCH 136/182] fix: an endif directive closing nothing is not part
 of the text

---
 parser/src/tasks/directives/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/src/tasks/directives/mod.rs b/parser/src/tasks/directives/mod.rs
index 5f7e5eb..c02155d 100644
--- a/parser/src/tasks/directives/mod.rs
+++ b/parser/src/tasks/directives/mod.rs
@@ -29,7 +29,7 @@ impl<'arena> Parser<'arena> {
     };
     let Some(expected) = self.ctx.ifdef_stack.last() else {
       self.err_line("This endif directive has no previous ifdef/ifndef", line)?;
-      return Ok(DirectiveAction::Passthrough);
+      return Ok(DirectiveAction::ReadNextLine);
     };
     if !endif_attrs.is_empty() && expected != &endif_attrs {
       self.err_at_pattern(
@@ -37,7 +37,7 @@ impl<'arena> Parser<'arena> {
         line.first_loc().unwrap(),
         &endif_attrs,
       )?;
-      return Ok(DirectiveAction::Passthrough);
+      return Ok(DirectiveAction::ReadNextLine);
     }
     self.ctx.ifdef_stack.pop();
     Ok(DirectiveAction::ReadNextLine)
-- 
2.43.0


From 2d7b9da5ded95b0d03cf6848bcfc01a4076131ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:43 +0000
Subject: [PATCH 137/182] fix: place of problems in files included by a table
 cell

---
 parser/src/lexer/root_lexer.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parser/src/lexer/root_lexer.rs b/parser/src/lexer/root_lexer.rs
index 5f82efe..e591d63 100644
--- a/parser/src/lexer/root_lexer.rs
+++ b/parser/src/lexer/root_lexer.rs
@@ -352,9 +352,14 @@ impl<'arena> RootLexer<'arena> {
     self.sources[loc.include_depth as usize].line_number_with_offset(loc.start)
   }
 
-  /// move diagnostics of a table cell to the lines (starting at `starts`) it's made of
+  /// move diagnostics of a table cell to the lines (starting at `starts`) it's made of,
+  /// save for those of files included by the cell
   pub fn reline_diagnostics(&self, starts: &[SourceLocation], diagnostics: &mut [Diagnostic]) {
+    let cell_file = starts.first().map(|start| self.source_file_at(start.include_depth));
     for diag in diagnostics {
+      if Some(&diag.source_file) != cell_file {
+        continue;
+      }
       let idx = diag.line_num.saturating_sub(1) as usize;
       if let Some(start) = starts.get(idx).or(starts.last()) {
         diag.line_num = self.line_number(*start);
-- 
2.43.0


From ecd4d26e03e8eedb5344bae8e2ba6a5a27a7d27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:52 +0000
Subject: [PATCH 138/182] fix: report a bad cell separator on the line it's on

---
 parser/src/tasks/table/parse_table.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser/src/tasks/table/parse_table.rs b/parser/src/tasks/table/parse_table.rs
index 4c515b1..0c699d6 100644
--- a/parser/src/tasks/table/parse_table.rs
+++ b/parser/src/tasks/table/parse_table.rs
@@ -48,15 +48,15 @@ impl<'arena> Parser<'arena> {
       _ => DataFormat::Prefix(delim_ch as char),
     };
 
-    if let Some(sep) = meta.attrs.named("separator") {
+    if let Some((sep, sep_loc)) = meta.attrs.named_with_loc("separator") {
       let msg = "Cell separator must be exactly one character";
       let mut chars = sep.chars();
       match chars.next() {
-        None => self.err_at_pattern(msg, meta.start_loc, "separator")?,
+        None => self.err_at_pattern(msg, sep_loc, "separator")?,
         Some(ch) => {
           format.replace_separator(ch);
           if chars.next().is_some() {
-            self.err_at_pattern(msg, meta.start_loc, sep)?;
+            self.err_at_pattern(msg, sep_loc, sep)?;
           }
         }
       }
-- 
2.43.0


From fd44627dd54a61b76a855b2437a1097a28a640b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:52 +0000
Subject: [PATCH 139/182] fix: place of missing xrefs of AsciiDoc table cells

---
 parser/src/parse_context.rs           |  2 +-
 parser/src/tasks/table/parse_table.rs | 27 ++++++++++++++++++++++++++-
 2 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/parser/src/parse_context.rs b/parser/src/parse_context.rs
index 6d7bca3..bebe47f 100644
--- a/parser/src/parse_context.rs
+++ b/parser/src/parse_context.rs
@@ -116,7 +116,7 @@ impl<'arena> ParseContext<'arena> {
       callouts: Rc::clone(&self.callouts),
       custom_line_comment: None,
       anchor_ids: Rc::clone(&self.anchor_ids),
-      xrefs: Rc::clone(&self.xrefs),
+      xrefs: Rc::new(RefCell::new(HashMap::new())),
       saw_toc_macro: false,
       bibliography_ctx: BiblioContext::None,
       table_cell_ctx: TableCellContext::AsciiDocCell,
diff --git a/parser/src/tasks/table/parse_table.rs b/parser/src/tasks/table/parse_table.rs
index 0c699d6..f76bde5 100644
--- a/parser/src/tasks/table/parse_table.rs
+++ b/parser/src/tasks/table/parse_table.rs
@@ -1,5 +1,6 @@
 use std::collections::HashSet;
 use std::ops::Range;
+use std::rc::Rc;
 
 use bumpalo::collections::CollectIn;
 
@@ -230,7 +231,15 @@ impl<'arena> Parser<'arena> {
         .map_or(self.lexer.include_depth(), |loc| loc.include_depth);
       let start = SourceLocation::new(loc.start, loc.start, depth);
       let line_starts = cell_tokens.line_starts(start);
-      let cell_parser = self.cell_parser(cell_tokens.into_bytes(), start);
+      let cell_src = cell_tokens.into_bytes();
+      let line_offsets: SmallVec<[u32; 8]> = cell_src
+        .split_inclusive(|&b| b == b'\n')
+        .scan(start.start, |offset, line| {
+          Some(std::mem::replace(offset, *offset + line.len() as u32))
+        })
+        .collect();
+      let cell_parser = self.cell_parser(cell_src, start);
+      let cell_xrefs = Rc::clone(&cell_parser.ctx.xrefs);
       return match cell_parser.parse() {
         Ok(ParseResult {
           document,
@@ -241,6 +250,22 @@ impl<'arena> Parser<'arena> {
           ..
         }) => {
           self.ctx.attr_defs.extend(attr_defs);
+          let mut xrefs = self.ctx.xrefs.borrow_mut();
+          for (target, mut loc) in cell_xrefs.borrow_mut().drain() {
+            if loc.include_depth == start.include_depth {
+              let idx = line_offsets.partition_point(|&o| o <= loc.start).saturating_sub(1);
+              if let (Some(offset), Some(line_start)) = (line_offsets.get(idx), line_starts.get(idx)) {
+                let len = loc.end - loc.start;
+                loc.start = line_start.start + loc.start.saturating_sub(*offset);
+                loc.end = loc.start + len;
+                loc.include_depth = line_start.include_depth;
+              }
+            } else {
+              loc = start; // of a file included by the cell
+            }
+            xrefs.insert(target, loc);
+          }
+          drop(xrefs);
           if !warnings.is_empty() {
             self.lexer.reline_diagnostics(&line_starts, &mut warnings);
             self.errors.borrow_mut().extend(warnings);
-- 
2.43.0


From 2f25132ff09be6c1f17bce32efb294ce5303d559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:52 +0000
Subject: [PATCH 140/182] fix: report problems of attribute entries in AsciiDoc
 cells once

---
 parser/src/tasks/table/parse_table.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser/src/tasks/table/parse_table.rs b/parser/src/tasks/table/parse_table.rs
index f76bde5..a0026ac 100644
--- a/parser/src/tasks/table/parse_table.rs
+++ b/parser/src/tasks/table/parse_table.rs
@@ -268,7 +268,10 @@ impl<'arena> Parser<'arena> {
           drop(xrefs);
           if !warnings.is_empty() {
             self.lexer.reline_diagnostics(&line_starts, &mut warnings);
-            self.errors.borrow_mut().extend(warnings);
+            let mut errors = self.errors.borrow_mut();
+            // the table's lines were read before, so their problems might be known already
+            warnings.retain(|warning| !errors.contains(warning));
+            errors.extend(warnings);
           }
 
           #[cfg(feature = "attr_ref_observation")]
-- 
2.43.0


From 642af8ea0c1b6568ff4a87b2161c2b4198dd8d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:40 +0000
Subject: [PATCH 141/182] fix: process directives following a block comment

---
 parser/src/parse_context.rs | 12 ++++--------
 parser/src/parser.rs        |  4 ----
 2 files changed, 4 insertions(+), 12 deletions(-)

diff --git a/parser/src/parse_context.rs b/parser/src/parse_context.rs
index bebe47f..9f5b4a6 100644
--- a/parser/src/parse_context.rs
+++ b/parser/src/parse_context.rs
@@ -22,7 +22,6 @@ pub struct ParseContext<'arena> {
   pub passthrus: BumpVec<'arena, Option<InlineNodes<'arena>>>,
   pub max_include_depth: u16,
   pub ifdef_stack: BumpVec<'arena, BumpString<'arena>>,
-  pub comment_delim_in_lines: bool,
   /// the delimiter of the verbatim block the last line read belongs to
   pub verbatim_delim: Option<Delimiter>,
   pub in_header: bool,
@@ -94,7 +93,6 @@ impl<'arena> ParseContext<'arena> {
       passthrus: BumpVec::new_in(bump),
       inline_ctx: InlineCtx::None,
       max_include_depth: 64,
-      comment_delim_in_lines: false,
       verbatim_delim: None,
       ifdef_stack: BumpVec::new_in(bump),
       attr_defs: BumpVec::new_in(bump),
@@ -123,7 +121,6 @@ impl<'arena> ParseContext<'arena> {
       passthrus: BumpVec::new_in(bump),
       inline_ctx: InlineCtx::None,
       max_include_depth: 64,
-      comment_delim_in_lines: false,
       verbatim_delim: None,
       ifdef_stack: BumpVec::new_in(bump),
       attr_defs: BumpVec::new_in(bump),
@@ -226,11 +223,10 @@ impl<'arena> ParseContext<'arena> {
   }
 
   pub fn within_block_comment(&self) -> bool {
-    self.comment_delim_in_lines
-      || self
-        .delimiter
-        .as_ref()
-        .is_some_and(|d| d.kind == DelimiterKind::Comment)
+    self
+      .verbatim_delim
+      .as_ref()
+      .is_some_and(|d| d.kind == DelimiterKind::Comment)
   }
 }
 
diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index 01b9390..13b27ed 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -196,7 +196,6 @@ impl<'arena> Parser<'arena> {
   }
 
   pub(crate) fn read_lines(&mut self) -> Result<Option<ContiguousLines<'arena>>> {
-    self.ctx.comment_delim_in_lines = false;
     if let Some(peeked) = self.peeked_lines.take() {
       return Ok(Some(peeked));
     }
@@ -234,9 +233,6 @@ impl<'arena> Parser<'arena> {
         }
         break;
       }
-      if line.is_delimiter_kind(DelimiterKind::Comment) {
-        self.ctx.comment_delim_in_lines = true;
-      }
       // an attribute entry ends the group, it affects how following lines are read
       let is_attr_entry = only_meta && line.starts(TokenKind::AttrDef) && !self.ctx.in_header;
       only_meta &= line.is_chunk_title()
-- 
2.43.0


From b09daed43f9b10db85dbe36d77e156739af8ad3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:28 +0000
Subject: [PATCH 142/182] fix: keep the lines following a comment block in the
 header

---
 parser/src/tasks/parse_doc_header.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/src/tasks/parse_doc_header.rs b/parser/src/tasks/parse_doc_header.rs
index 99001b6..2c9e9f5 100644
--- a/parser/src/tasks/parse_doc_header.rs
+++ b/parser/src/tasks/parse_doc_header.rs
@@ -80,6 +80,7 @@ impl<'arena> Parser<'arena> {
       };
       if next_lines.discard_until(Line::is_comment_block_delimiter) {
         let end_delim = next_lines.consume_current().unwrap();
+        *lines = next_lines;
         return Ok(end_delim.first_loc());
       }
     }
-- 
2.43.0


From aaaffaa01ce2e4065998ef182f17a8a3fe8b743f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:29 +0000
Subject: [PATCH 143/182] fix: a comment block in the header doesn't end the
 header

---
 parser/src/parser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index 13b27ed..3885a05 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -159,6 +159,8 @@ impl<'arena> Parser<'arena> {
             Colon | EqualSigns | Word | ForwardSlashes | Directive | OpenBracket
           )
           && !(token.kind == Whitespace && self.lexer.at_newline())
+          && !self.ctx.within_block_comment()
+          && !token.to_delimiter().is_some_and(|d| d.kind == DelimiterKind::Comment)
         {
           self.ctx.in_header = false;
         } else if token.kind == Colon
-- 
2.43.0


From 5f9b9d6bf356a59d515f653308d2c7b3f088594e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:29 +0000
Subject: [PATCH 144/182] fix: attribute entries following a comment block take
 effect at once

---
 parser/src/parser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index 3885a05..93ac860 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -240,7 +240,9 @@ impl<'arena> Parser<'arena> {
       only_meta &= line.is_chunk_title()
         || line.is_block_attr_list()
         || line.is_block_anchor()
-        || line.is_comment();
+        || line.is_comment()
+        || line.is_comment_block_delimiter()
+        || self.ctx.within_block_comment();
       lines.push(line);
       if is_attr_entry || self.lexer.at_newline() {
         break;
-- 
2.43.0


From cc7370153bf803cd7625a463e1a80e5190a027ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:18 +0000
Subject: [PATCH 145/182] fix: underline nothing past the end of the line, for
 any problem

---
 parser/src/diagnostic.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/parser/src/diagnostic.rs b/parser/src/diagnostic.rs
index 43bd37b..7f6664a 100644
--- a/parser/src/diagnostic.rs
+++ b/parser/src/diagnostic.rs
@@ -101,14 +101,12 @@ impl Parser<'_> {
   pub(crate) fn err_at(&self, message: impl Into<String>, loc: SourceLocation) -> Result<()> {
     let (line_num, offset) = self.lexer.line_number_with_offset(loc);
     let line = self.lexer.line_of(loc).to_string();
-    let offset = offset.min(line.len() as u32);
-    let rest_of_line = line.len() as u32 - offset;
     self.handle_err(Diagnostic {
       line_num,
       line,
       message: message.into(),
       underline_start: offset,
-      underline_width: loc.end.saturating_sub(loc.start).min(rest_of_line).max(1),
+      underline_width: loc.end.saturating_sub(loc.start),
       source_file: self.lexer.source_file_at(loc.include_depth).clone(),
     })
   }
@@ -154,7 +152,10 @@ impl Parser<'_> {
     self.handle_err(diagnostic)
   }
 
-  fn handle_err(&self, err: Diagnostic) -> Result<()> {
+  fn handle_err(&self, mut err: Diagnostic) -> Result<()> {
+    err.underline_start = err.underline_start.min(err.line.len() as u32);
+    let rest_of_line = err.line.len() as u32 - err.underline_start;
+    err.underline_width = err.underline_width.min(rest_of_line).max(1);
     if self.strict {
       Err(err)
     } else {
-- 
2.43.0


From 85f2c3e9a31e9ad3135d24db30b4faa4bb9dcd66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:51 +0000
Subject: [PATCH 146/182] fix: carets under problems following multibyte
 characters

---
 parser/src/diagnostic.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/parser/src/diagnostic.rs b/parser/src/diagnostic.rs
index 7f6664a..54c5c56 100644
--- a/parser/src/diagnostic.rs
+++ b/parser/src/diagnostic.rs
@@ -195,6 +195,12 @@ impl Diagnostic {
       n if n < 10000 => 7,
       _ => 8,
     };
+    // positions are in bytes
+    let chars_between = |start: u32, end: u32| {
+      let chars = self.line.char_indices();
+      chars.filter(|(i, _)| (start as usize..end as usize).contains(i)).count()
+    };
+    let underline_end = self.underline_start + self.underline_width;
     format!(
       "{}{}{}{}{}{}{}\n{}{}\n{} {} {}\n{}{} {}{} {}\n",
       " ".repeat((line_num_pad - 3) as usize),
@@ -211,8 +217,8 @@ impl Diagnostic {
       colorizer.line(&self.line),
       " ".repeat((line_num_pad - 2) as usize),
       colorizer.line_num("|"),
-      " ".repeat(self.underline_start as usize),
-      colorizer.location("^".repeat(self.underline_width as usize)),
+      " ".repeat(chars_between(0, self.underline_start)),
+      colorizer.location("^".repeat(chars_between(self.underline_start, underline_end).max(1))),
       colorizer.message(&self.message),
     )
   }
-- 
2.43.0


From a57ce3351a0715d4031706aaad5c74fd855d0ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:37 +0000
Subject: [PATCH 147/182] fix: only the separator is escaped by a backslash,
 not what follows in the token

---
 parser/src/tasks/table/mod.rs             | 19 +++++++++++++++++++
 parser/src/tasks/table/parse_dsv_table.rs |  2 +-
 parser/src/tasks/table/parse_psv_table.rs |  2 +-
 3 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/parser/src/tasks/table/mod.rs b/parser/src/tasks/table/mod.rs
index 161dbe5..67092d2 100644
--- a/parser/src/tasks/table/mod.rs
+++ b/parser/src/tasks/table/mod.rs
@@ -138,6 +138,25 @@ impl<'arena> TableTokens<'arena> {
     }
   }
 
+  /// consume an escaped separator, which can be only the start of the token
+  pub fn consume_escaped(&mut self, sep: char) -> Option<Token<'arena>> {
+    let token = self.current()?;
+    if !token.lexeme.starts_with(sep) || token.lexeme.len() == sep.len_utf8() {
+      return self.consume_current();
+    }
+    let (kind, loc) = (token.kind, token.loc);
+    let sep_len = sep.len_utf8() as u32;
+    let mut lexeme = BumpString::new_in(self.0.bump_arena());
+    lexeme.push(sep);
+    self.drop_leading_bytes(sep_len);
+    Some(Token {
+      kind,
+      lexeme,
+      loc: SourceLocation::new(loc.start, loc.start + sep_len, loc.include_depth),
+      attr_replacement: false,
+    })
+  }
+
   pub fn is_empty(&self) -> bool {
     self.0.is_empty()
   }
diff --git a/parser/src/tasks/table/parse_dsv_table.rs b/parser/src/tasks/table/parse_dsv_table.rs
index a77bb40..a0d9c4a 100644
--- a/parser/src/tasks/table/parse_dsv_table.rs
+++ b/parser/src/tasks/table/parse_dsv_table.rs
@@ -112,7 +112,7 @@ impl<'arena> Parser<'arena> {
       // NB: only a separator can be escaped, other backslashes pass thru
       if !token.kind(TokenKind::Backslash) || !tokens.starts_with(ctx.cell_separator) {
         cell_tokens.push(token);
-      } else if let Some(next) = tokens.consume_current() {
+      } else if let Some(next) = tokens.consume_escaped(ctx.cell_separator) {
         end = next.loc.end;
         cell_tokens.push(next);
       }
diff --git a/parser/src/tasks/table/parse_psv_table.rs b/parser/src/tasks/table/parse_psv_table.rs
index f3322d0..26069b1 100644
--- a/parser/src/tasks/table/parse_psv_table.rs
+++ b/parser/src/tasks/table/parse_psv_table.rs
@@ -139,7 +139,7 @@ impl<'arena> Parser<'arena> {
       // NB: allow for escaping a delimiter, but other backslashes should pass thru
       if !token.kind(TokenKind::Backslash) || !self.starts_psv_cell(tokens, ctx.cell_separator) {
         cell_tokens.push(token);
-      } else if let Some(next) = tokens.consume_current() {
+      } else if let Some(next) = tokens.consume_escaped(ctx.cell_separator) {
         end = next.loc.end;
         cell_tokens.push(next);
       }
-- 
2.43.0


From a41fc5ec1d5d0fdf362d8a376e7add65773dd7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:32 +0000
Subject: [PATCH 148/182] fix: a block starting on the next line ends a
 markdown blockquote

---
 parser/src/tasks/parse_block.rs       | 17 ++++++++++++++++-
 parser/src/tasks/parse_inlines/mod.rs |  2 +-
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/parser/src/tasks/parse_block.rs b/parser/src/tasks/parse_block.rs
index cb93b6c..d9846d9 100644
--- a/parser/src/tasks/parse_block.rs
+++ b/parser/src/tasks/parse_block.rs
@@ -261,7 +261,8 @@ impl<'arena> Parser<'arena> {
     let mut loc = MultiSourceLocation::from(lines.current_token().unwrap().loc);
     let mut paras = BumpVec::new_in(self.bump);
     let mut current = ContiguousLines::new(Deq::new(self.bump));
-    while let Some(mut line) = lines.consume_current() {
+    let mut quoted = self.take_paragraph_lines(&mut lines);
+    while let Some(mut line) = quoted.consume_current() {
       if line.starts(GreaterThan) {
         line.remove_first_token();
         if line.starts(Whitespace) {
@@ -316,6 +317,7 @@ impl<'arena> Parser<'arena> {
     self.ctx.in_markdown_blockquote = prev_in_blockquote;
     self.ctx.list = prev_list;
     self.ctx.delimiter = prev_delimiter;
+    self.restore_lines(lines);
 
     if blocks.len() == 1 && blocks[0].context == Context::QuotedParagraph {
       return Ok(Some(blocks.pop().unwrap()));
@@ -329,6 +331,19 @@ impl<'arena> Parser<'arena> {
     }))
   }
 
+  /// take the lines of the paragraph `lines` starts with, leaving those of a following block
+  fn take_paragraph_lines(&self, lines: &mut ContiguousLines<'arena>) -> ContiguousLines<'arena> {
+    let mut taken = ContiguousLines::with_capacity(lines.len(), self.bump);
+    while let Some(line) = lines.consume_current() {
+      if !taken.is_empty() && self.should_stop_at(&line) {
+        lines.restore_if_nonempty(line);
+        break;
+      }
+      taken.push(line);
+    }
+    taken
+  }
+
   fn parse_delimited_block(
     &mut self,
     mut lines: ContiguousLines<'arena>,
diff --git a/parser/src/tasks/parse_inlines/mod.rs b/parser/src/tasks/parse_inlines/mod.rs
index 03e87aa..cbc62c9 100644
--- a/parser/src/tasks/parse_inlines/mod.rs
+++ b/parser/src/tasks/parse_inlines/mod.rs
@@ -1080,7 +1080,7 @@ impl<'arena> Parser<'arena> {
     Ok(())
   }
 
-  fn should_stop_at(&self, line: &Line<'arena>) -> bool {
+  pub(crate) fn should_stop_at(&self, line: &Line<'arena>) -> bool {
     // the rest of a line can't start a block
     if line.is_partially_consumed() {
       return false;
-- 
2.43.0


From 9884c45c3468fe7175a54d1a686b8e87cabc0d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:49 +0000
Subject: [PATCH 149/182] fix: the lines of a markdown blockquote are whole
 lines

---
 parser/src/line.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser/src/line.rs b/parser/src/line.rs
index cdddac3..b388623 100644
--- a/parser/src/line.rs
+++ b/parser/src/line.rs
@@ -1072,6 +1072,7 @@ impl<'arena> Line<'arena> {
   pub fn remove_first_token(&mut self) {
     if !self.tokens.is_empty() {
       self.tokens.remove_first();
+      self.orig_len = self.orig_len.saturating_sub(1);
     }
   }
 
@@ -1091,6 +1092,7 @@ impl<'arena> Line<'arena> {
       let delta = token_len - indent;
       if delta == token_len {
         self.tokens.remove_first();
+      self.orig_len = self.orig_len.saturating_sub(1);
       } else {
         token.loc.start += delta as u32;
         for _ in 0..delta {
-- 
2.43.0


From ac7e65d417288cb17648a55c8be06d288c9a6965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:45 +0000
Subject: [PATCH 150/182] fix: a block starting on the next line ends a quoted
 paragraph

---
 parser/src/tasks/parse_block.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/parser/src/tasks/parse_block.rs b/parser/src/tasks/parse_block.rs
index d9846d9..8bac83d 100644
--- a/parser/src/tasks/parse_block.rs
+++ b/parser/src/tasks/parse_block.rs
@@ -194,10 +194,16 @@ impl<'arena> Parser<'arena> {
       _ => {}
     }
 
-    if lines.is_quoted_paragraph(self.ctx.in_markdown_blockquote) {
-      self.parse_quoted_paragraph(lines, meta)
+    let mut paragraph = self.take_paragraph_lines(&mut lines);
+    if paragraph.is_quoted_paragraph(self.ctx.in_markdown_blockquote) {
+      let block = self.parse_quoted_paragraph(paragraph, meta)?;
+      self.restore_lines(lines);
+      Ok(block)
     } else {
-      self.parse_paragraph(lines, meta)
+      while let Some(line) = lines.consume_current() {
+        paragraph.push(line);
+      }
+      self.parse_paragraph(paragraph, meta)
     }
   }
 
-- 
2.43.0


From 4c2cd5b433b63de148bbdcad07432d3b68bf040e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:41 +0000
Subject: [PATCH 151/182] fix: the last line of a quoted paragraph is a whole
 line

---
 parser/src/line.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parser/src/line.rs b/parser/src/line.rs
index b388623..4f87c46 100644
--- a/parser/src/line.rs
+++ b/parser/src/line.rs
@@ -333,7 +333,9 @@ impl<'arena> Line<'arena> {
   }
 
   pub fn discard_last(&mut self) -> Option<Token<'arena>> {
-    self.tokens.pop()
+    let token = self.tokens.pop()?;
+    self.orig_len = self.orig_len.saturating_sub(1);
+    Some(token)
   }
 
   /// discard trailing whitespace, except for that of incomplete markers (`* `), and,
@@ -352,7 +354,6 @@ impl<'arena> Line<'arena> {
     };
     if insignificant {
       self.discard_last();
-      self.orig_len -= 1;
     }
   }
 
-- 
2.43.0


From d9b8208ab71e94b6db213473346539c3261e1883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:30 +0000
Subject: [PATCH 152/182] fix: keep the metadata of a markdown blockquote with
 an attribution

---
 parser/src/tasks/parse_block.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser/src/tasks/parse_block.rs b/parser/src/tasks/parse_block.rs
index 8bac83d..983e515 100644
--- a/parser/src/tasks/parse_block.rs
+++ b/parser/src/tasks/parse_block.rs
@@ -326,7 +326,11 @@ impl<'arena> Parser<'arena> {
     self.restore_lines(lines);
 
     if blocks.len() == 1 && blocks[0].context == Context::QuotedParagraph {
-      return Ok(Some(blocks.pop().unwrap()));
+      let mut block = blocks.pop().unwrap();
+      if !meta.is_empty() {
+        block.meta = meta;
+      }
+      return Ok(Some(block));
     }
 
     Ok(Some(Block {
-- 
2.43.0


From 4b806c7de7eb7f40f807110592c2cb5ce4983457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:12 +0000
Subject: [PATCH 153/182] fix: underline the faulty part of a directive, not an
 equal part before it

---
 parser/src/diagnostic.rs              | 15 ++++++++-------
 parser/src/tasks/directives/ifeval.rs |  4 ++--
 parser/src/tasks/directives/mod.rs    |  2 +-
 3 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/parser/src/diagnostic.rs b/parser/src/diagnostic.rs
index 54c5c56..08b90ef 100644
--- a/parser/src/diagnostic.rs
+++ b/parser/src/diagnostic.rs
@@ -73,19 +73,20 @@ impl Parser<'_> {
   pub(crate) fn err_at_pattern(
     &self,
     message: impl Into<String>,
-    line_start: SourceLocation,
+    search_start: SourceLocation,
     pattern: &str,
   ) -> Result<()> {
-    let (line_num, _) = self.lexer.line_number_with_offset(line_start);
-    let line = self.lexer.line_of(line_start);
-    if let Some(idx) = line.find(pattern) {
+    let (line_num, offset) = self.lexer.line_number_with_offset(search_start);
+    let line = self.lexer.line_of(search_start);
+    let offset = offset as usize;
+    if let Some(idx) = line.get(offset..).and_then(|rest| rest.find(pattern)) {
       return self.handle_err(Diagnostic {
         line_num,
         line: line.to_string(),
         message: message.into(),
-        underline_start: idx as u32,
+        underline_start: (offset + idx) as u32,
         underline_width: pattern.len() as u32,
-        source_file: self.lexer.source_file_at(line_start.include_depth).clone(),
+        source_file: self.lexer.source_file_at(search_start.include_depth).clone(),
       });
     }
     self.handle_err(Diagnostic {
@@ -94,7 +95,7 @@ impl Parser<'_> {
       message: message.into(),
       underline_start: 0,
       underline_width: line.len() as u32,
-      source_file: self.lexer.source_file_at(line_start.include_depth).clone(),
+      source_file: self.lexer.source_file_at(search_start.include_depth).clone(),
     })
   }
 
diff --git a/parser/src/tasks/directives/ifeval.rs b/parser/src/tasks/directives/ifeval.rs
index 4eea4de..b36b1bb 100644
--- a/parser/src/tasks/directives/ifeval.rs
+++ b/parser/src/tasks/directives/ifeval.rs
@@ -14,7 +14,7 @@ impl<'arena> Parser<'arena> {
         }
         self.err_at_pattern(
           "Invalid ifeval directive expression",
-          line.first_loc().unwrap(),
+          line.first_loc().unwrap().clamp_end(),
           pattern,
         )?;
       }
@@ -24,7 +24,7 @@ impl<'arena> Parser<'arena> {
     if !&captures[1].is_empty() {
       self.err_at_pattern(
         "ifeval directive may not include a target",
-        line.first_loc().unwrap(),
+        line.first_loc().unwrap().clamp_end(),
         &captures[1],
       )?;
       return Ok(DirectiveAction::Passthrough);
diff --git a/parser/src/tasks/directives/mod.rs b/parser/src/tasks/directives/mod.rs
index c02155d..ea809e4 100644
--- a/parser/src/tasks/directives/mod.rs
+++ b/parser/src/tasks/directives/mod.rs
@@ -34,7 +34,7 @@ impl<'arena> Parser<'arena> {
     if !endif_attrs.is_empty() && expected != &endif_attrs {
       self.err_at_pattern(
         format!("Mismatched endif directive, expected `{}`", &expected),
-        line.first_loc().unwrap(),
+        line.first_loc().unwrap().clamp_end(),
         &endif_attrs,
       )?;
       return Ok(DirectiveAction::ReadNextLine);
-- 
2.43.0


From 94a663c93d413116316b1930448790da92738d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:59 +0000
Subject: [PATCH 154/182] fix: the last of stacked block attribute lines wins

---
 ast/src/multi_attr_list.rs  | 18 ++++++++++--------
 parser/src/tasks/anchors.rs |  6 +++---
 2 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/ast/src/multi_attr_list.rs b/ast/src/multi_attr_list.rs
index efa08ca..4646dba 100644
--- a/ast/src/multi_attr_list.rs
+++ b/ast/src/multi_attr_list.rs
@@ -29,15 +29,15 @@ impl AttrData for MultiAttrList<'_> {
   }
 
   fn id(&self) -> Option<&SourceString<'_>> {
-    self.0.iter().find_map(AttrList::id)
+    self.0.iter().rev().find_map(AttrList::id)
   }
 
   fn str_positional_at(&self, index: usize) -> Option<&str> {
-    self.0.iter().find_map(|attr| attr.str_positional_at(index))
+    self.0.iter().rev().find_map(|attr| attr.str_positional_at(index))
   }
 
   fn positional_at(&self, index: usize) -> Option<&InlineNodes<'_>> {
-    self.0.iter().find_map(|attr| attr.positional_at(index))
+    self.0.iter().rev().find_map(|attr| attr.positional_at(index))
   }
 
   fn has_option(&self, option: &str) -> bool {
@@ -53,7 +53,7 @@ impl AttrData for MultiAttrList<'_> {
   }
 
   fn source_language(&self) -> Option<&str> {
-    self.0.iter().find_map(AttrList::source_language)
+    self.0.iter().rev().find_map(AttrList::source_language)
   }
 
   fn has_role(&self, role: &str) -> bool {
@@ -61,21 +61,22 @@ impl AttrData for MultiAttrList<'_> {
   }
 
   fn named(&self, key: &str) -> Option<&str> {
-    self.0.iter().find_map(|attr| attr.named(key))
+    self.0.iter().rev().find_map(|attr| attr.named(key))
   }
 
   fn named_with_loc(&self, key: &str) -> Option<(&str, SourceLocation)> {
-    self.0.iter().find_map(|attr| attr.named_with_loc(key))
+    self.0.iter().rev().find_map(|attr| attr.named_with_loc(key))
   }
 
   fn named_nodes(&self, key: &str) -> Option<&InlineNodes<'_>> {
-    self.0.iter().find_map(|attr| attr.named_nodes(key))
+    self.0.iter().rev().find_map(|attr| attr.named_nodes(key))
   }
 
   fn ordered_list_custom_number_style(&self) -> Option<&'static str> {
     self
       .0
       .iter()
+      .rev()
       .find_map(AttrList::ordered_list_custom_number_style)
   }
 
@@ -83,11 +84,12 @@ impl AttrData for MultiAttrList<'_> {
     self
       .0
       .iter()
+      .rev()
       .find_map(AttrList::unordered_list_custom_marker_style)
   }
 
   fn block_style(&self, context: BlockContext) -> Option<BlockContext> {
-    self.0.iter().find_map(|attr| attr.block_style(context))
+    self.0.iter().rev().find_map(|attr| attr.block_style(context))
   }
 }
 
diff --git a/parser/src/tasks/anchors.rs b/parser/src/tasks/anchors.rs
index c482c70..bdbefd4 100644
--- a/parser/src/tasks/anchors.rs
+++ b/parser/src/tasks/anchors.rs
@@ -38,10 +38,10 @@ impl<'arena> Parser<'arena> {
       return Ok(()); // nothing to add to the block attributes
     }
     let all = attrs.iter().chain(macro_attrs);
-    let Some(id) = all.clone().find_map(|a| a.id.as_ref()) else {
+    let Some(id) = all.clone().rev().find_map(|a| a.id.as_ref()) else {
       return Ok(());
     };
-    let named = |key| all.clone().find_map(|a| a.named.get(key));
+    let named = |key| all.clone().rev().find_map(|a| a.named.get(key));
     let mut anchor = self.anchor_from(named("reftext").cloned(), Some(id.loc), false);
     if let Some(title) = title.or_else(|| named("title")) {
       anchor.title = title.clone();
@@ -55,7 +55,7 @@ impl<'arena> Parser<'arena> {
     attrs: &[AttrList<'arena>],
     heading: &InlineNodes<'arena>,
   ) {
-    let reftext = attrs.iter().find_map(|a| a.named.get("reftext"));
+    let reftext = attrs.iter().rev().find_map(|a| a.named.get("reftext"));
     let mut anchor = self.anchor_from(reftext.cloned(), None, false);
     anchor.title = heading.clone();
     self
-- 
2.43.0


From 6d62b8ddf8dfca8899266453eca8a22402c267e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:59 +0000
Subject: [PATCH 155/182] fix: report a duplicate id of an image with
 attributes once

---
 parser/src/tasks/anchors.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parser/src/tasks/anchors.rs b/parser/src/tasks/anchors.rs
index bdbefd4..186eac5 100644
--- a/parser/src/tasks/anchors.rs
+++ b/parser/src/tasks/anchors.rs
@@ -41,6 +41,12 @@ impl<'arena> Parser<'arena> {
     let Some(id) = all.clone().rev().find_map(|a| a.id.as_ref()) else {
       return Ok(());
     };
+    if macro_attrs.is_some_and(|m| m.id.is_none())
+      && let Some(prev) = self.document.anchors.borrow().get(&id.src)
+      && prev.source_loc != Some(id.loc)
+    {
+      return Ok(()); // a duplicate, reported with the block attributes
+    }
     let named = |key| all.clone().rev().find_map(|a| a.named.get(key));
     let mut anchor = self.anchor_from(named("reftext").cloned(), Some(id.loc), false);
     if let Some(title) = title.or_else(|| named("title")) {
-- 
2.43.0


From 568eaab96d52afc711bbbf512c42837657bf29cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:00 +0000
Subject: [PATCH 156/182] fix: commas are dropped from section ids

---
 parser/src/tasks/section_id.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/tasks/section_id.rs b/parser/src/tasks/section_id.rs
index ab64fc6..906688e 100644
--- a/parser/src/tasks/section_id.rs
+++ b/parser/src/tasks/section_id.rs
@@ -63,7 +63,7 @@ impl<'arena> Parser<'arena> {
         }
         '<' => in_html_tag = true,
         '>' => in_html_tag = false,
-        ' ' | '-' | '.' | ',' | '\t' => {
+        ' ' | '-' | '.' | '\t' => {
           if separator.map(|c| c != last_c).unwrap_or(false) {
             id.push(separator.unwrap());
             last_c = separator.unwrap();
-- 
2.43.0


From f37ae77d655431fa129c77e90ce248396d33a45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:52 +0000
Subject: [PATCH 157/182] fix: a line break or several blank lines end a cell
 paragraph

---
 parser/src/tasks/table/parse_table.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/parser/src/tasks/table/parse_table.rs b/parser/src/tasks/table/parse_table.rs
index a0026ac..2a0f18a 100644
--- a/parser/src/tasks/table/parse_table.rs
+++ b/parser/src/tasks/table/parse_table.rs
@@ -380,12 +380,20 @@ impl<'arena> Parser<'arena> {
     let mut index = 0;
     paras.push(InlineNodes::new(self.bump));
     for node in nodes.into_vec() {
-      if matches!(node.content, Inline::Newline)
-        && paras[index]
-          .last()
-          .is_some_and(|n| n.content == Inline::Newline)
-      {
-        paras[index].pop();
+      if node.content == Inline::Newline {
+        match paras[index].last().map(|n| &n.content) {
+          Some(Inline::Newline) => {
+            paras[index].pop();
+          }
+          // NB: a line break includes the newline ending its line
+          Some(Inline::LineBreak) => {}
+          // one of several blank lines
+          None if index > 0 => continue,
+          _ => {
+            paras[index].push(node);
+            continue;
+          }
+        }
         index += 1;
         paras.push(InlineNodes::new(self.bump));
       } else {
-- 
2.43.0


From 3cd9eadb9b7684e3d1a6281108a7cdf66079c07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:40 +0000
Subject: [PATCH 158/182] fix: authors of a single name and names ending in a
 period

---
 core/src/document_meta.rs             |  8 ++++++--
 core/src/types.rs                     | 25 +++++++++++++++++++++----
 parser/src/tasks/parse_author_line.rs | 24 ++++--------------------
 parser/src/tasks/parse_doc_attrs.rs   | 16 +---------------
 4 files changed, 32 insertions(+), 41 deletions(-)

diff --git a/core/src/document_meta.rs b/core/src/document_meta.rs
index 0a47a14..2c72de4 100644
--- a/core/src/document_meta.rs
+++ b/core/src/document_meta.rs
@@ -102,7 +102,9 @@ impl DocumentMeta {
       if let Some(email) = author.email.as_ref() {
         self.insert_string_attr("email", email.clone());
       }
-      self.insert_string_attr("lastname", author.last_name.clone());
+      if !author.last_name.is_empty() {
+        self.insert_string_attr("lastname", author.last_name.clone());
+      }
       if let Some(middle_name) = author.middle_name.as_ref() {
         self.insert_string_attr("middlename", middle_name.clone());
       }
@@ -115,7 +117,9 @@ impl DocumentMeta {
     if let Some(email) = author.email.as_ref() {
       self.insert_string_attr(&format!("email_{n}"), email.clone());
     }
-    self.insert_string_attr(&format!("lastname_{n}"), author.last_name.clone());
+    if !author.last_name.is_empty() {
+      self.insert_string_attr(&format!("lastname_{n}"), author.last_name.clone());
+    }
     if let Some(middle_name) = author.middle_name.as_ref() {
       self.insert_string_attr(&format!("middlename_{n}"), middle_name.clone());
     }
diff --git a/core/src/types.rs b/core/src/types.rs
index 9df2ff0..9ec97b9 100644
--- a/core/src/types.rs
+++ b/core/src/types.rs
@@ -39,6 +39,21 @@ pub struct Author {
 }
 
 impl Author {
+  /// Takes the last of several names for the last name, a single one for
+  /// the first name. An underscore stands for a space within a name.
+  pub fn from_names(names: &str) -> Author {
+    let names: Vec<&str> = names.split_whitespace().collect();
+    let name = |parts: &[&str]| parts.join(" ").replace('_', " ");
+    let (first_name, rest) = names.split_at(names.len().min(1));
+    let (middle_names, last_name) = rest.split_at(rest.len().saturating_sub(1));
+    Author {
+      first_name: name(first_name),
+      middle_name: (!middle_names.is_empty()).then(|| name(middle_names)),
+      last_name: name(last_name),
+      email: None,
+    }
+  }
+
   pub fn fullname(&self) -> String {
     let mut name = String::with_capacity(64);
     name.push_str(&self.first_name);
@@ -46,18 +61,20 @@ impl Author {
       name.push(' ');
       name.push_str(middle_name);
     }
-    name.push(' ');
-    name.push_str(&self.last_name);
+    if !self.last_name.is_empty() {
+      name.push(' ');
+      name.push_str(&self.last_name);
+    }
     name
   }
 
   pub fn initials(&self) -> String {
     let mut initials = String::with_capacity(3);
-    initials.push(self.first_name.chars().next().unwrap());
+    initials.extend(self.first_name.chars().next());
     if let Some(middle_init) = &self.middle_name.as_ref().and_then(|m| m.chars().next()) {
       initials.push(*middle_init);
     }
-    initials.push(self.last_name.chars().next().unwrap());
+    initials.extend(self.last_name.chars().next());
     initials
   }
 }
diff --git a/parser/src/tasks/parse_author_line.rs b/parser/src/tasks/parse_author_line.rs
index 26247b7..6fd3574 100644
--- a/parser/src/tasks/parse_author_line.rs
+++ b/parser/src/tasks/parse_author_line.rs
@@ -15,9 +15,7 @@ impl<'arena> Parser<'arena> {
     debug_assert!(line.starts(Word));
 
     let pattern = [
-      r"([^\s<.]+\.?)",                // first
-      r"(\s+([^<;]+\b))*",             // middles
-      r"(\s*([^\s<;]+))",              // last
+      r"([^\s<;]+(?:\s+[^\s<;]+)*)",    // names
       r"(?:\s+<([^\s>@]+@[^\s>]+)>)?", // email
       r"(\s*;\s*)?",                   // trailing ;
     ]
@@ -56,23 +54,9 @@ impl<'arena> Parser<'arena> {
 }
 
 fn author_from(captures: regex::Captures) -> Author {
-  let first_name = de_underscore(captures.get(1).unwrap().as_str());
-  let middle_name = captures
-    .get(3)
-    .map(|m| m.as_str().trim_end())
-    .map(de_underscore);
-  let last_name = de_underscore(captures.get(5).unwrap().as_str());
-  let email = captures.get(6).map(|m| m.as_str().to_string());
-  Author {
-    first_name,
-    middle_name,
-    last_name,
-    email,
-  }
-}
-
-fn de_underscore(name: &str) -> String {
-  name.replace('_', " ")
+  let mut author = Author::from_names(captures.get(1).unwrap().as_str());
+  author.email = captures.get(2).map(|m| m.as_str().to_string());
+  author
 }
 
 #[cfg(test)]
diff --git a/parser/src/tasks/parse_doc_attrs.rs b/parser/src/tasks/parse_doc_attrs.rs
index c9d2d1e..15e365e 100644
--- a/parser/src/tasks/parse_doc_attrs.rs
+++ b/parser/src/tasks/parse_doc_attrs.rs
@@ -304,21 +304,7 @@ const fn is_attr_word_char(c: u8) -> bool {
 
 fn author_from_attr(attr: &AttrValue) -> Option<Author> {
   let author_str = attr.str().filter(|s| !s.is_empty())?;
-  let parts: Vec<&str> = author_str.split_whitespace().collect();
-  Some(Author {
-    first_name: parts.first().unwrap_or(&"").replace('_', " ").to_string(),
-    middle_name: if parts.len() > 2 {
-      Some(parts[1..parts.len() - 1].join(" ").replace('_', " "))
-    } else {
-      None
-    },
-    last_name: parts
-      .get(parts.len().saturating_sub(1))
-      .unwrap_or(&"")
-      .replace('_', " ")
-      .to_string(),
-    email: None,
-  })
+  Some(Author::from_names(author_str))
 }
 
 #[cfg(test)]
-- 
2.43.0


From 083117a30c74cb3751a58d48c7471b9ffb5fb2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:17 +0000
Subject: [PATCH 159/182] fix: keep a one-digit version and a lone date of a
 revision line

---
 parser/src/tasks/parse_revision_line.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/parser/src/tasks/parse_revision_line.rs b/parser/src/tasks/parse_revision_line.rs
index 7cd0edf..8548ee6 100644
--- a/parser/src/tasks/parse_revision_line.rs
+++ b/parser/src/tasks/parse_revision_line.rs
@@ -30,15 +30,18 @@ impl Parser<'_> {
       .as_str()
       .to_string();
 
-    // only revision, must start with `v` then digit
+    // only revision, must start with `v` then digit, otherwise a date
     if captures.get(2).is_none() && captures.get(3).is_none() {
-      if Regex::new(r"^v(\d[^\s]+)$").unwrap().is_match(raw_version) {
-        self
-          .document
-          .meta
-          .insert_header_attr("revnumber", version)
-          .unwrap();
-      }
+      let (name, value) = if Regex::new(r"^v\d").unwrap().is_match(raw_version) {
+        ("revnumber", version)
+      } else {
+        ("revdate", raw_version.to_string())
+      };
+      self
+        .document
+        .meta
+        .insert_header_attr(name, value)
+        .unwrap();
       return Some(end);
     }
     self
-- 
2.43.0


From 07102a43fafec7378fccafe3574ac2d2f716c368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:48 +0000
Subject: [PATCH 160/182] fix: keep curly quotes and the text of macros in the
 plain text of a title

---
 ast/src/inline_nodes.rs | 17 +++++++++++++----
 ast/src/macro.rs        | 29 +++++++++++++++++++++++++++++
 2 files changed, 42 insertions(+), 4 deletions(-)

diff --git a/ast/src/inline_nodes.rs b/ast/src/inline_nodes.rs
index 5e8c79f..a8d3b68 100644
--- a/ast/src/inline_nodes.rs
+++ b/ast/src/inline_nodes.rs
@@ -14,13 +14,14 @@ impl<'arena> InlineNodes<'arena> {
     let mut text = Vec::new();
     self.iter().for_each(|node| match &node.content {
       Inline::Span(_, _, nodes) => text.extend(nodes.plain_text()),
-      Inline::CurlyQuote(RightDouble) => text.push("”"),
-      Inline::CurlyQuote(LeftDouble) => text.push("“"),
+      // NB: `RightDouble` is the quote facing right, opening the quotation
+      Inline::CurlyQuote(RightDouble) => text.push("“"),
+      Inline::CurlyQuote(LeftDouble) => text.push("”"),
       Inline::CurlyQuote(LeftSingle) => text.push("‘"),
       Inline::CurlyQuote(RightSingle) => text.push("’"),
       Inline::CurlyQuote(LegacyImplicitApostrophe) => text.push("'"),
       Inline::Discarded => {}
-      Inline::Macro(_) => {}
+      Inline::Macro(node) => text.extend(node.plain_text()),
       Inline::InlinePassthru(nodes) => text.extend(nodes.plain_text()),
       Inline::Newline => text.push(" "),
       Inline::InlineAnchor(_) => {}
@@ -34,7 +35,15 @@ impl<'arena> InlineNodes<'arena> {
       Inline::LineComment(_) => {}
       Inline::CalloutNum(_) => {}
       Inline::MultiCharWhitespace(_) => text.push(" "),
-      Inline::Quote(_, nodes) => text.extend(nodes.plain_text()),
+      Inline::Quote(kind, nodes) => {
+        let (open, close) = match kind {
+          QuoteKind::Double => ("“", "”"),
+          QuoteKind::Single => ("‘", "’"),
+        };
+        text.push(open);
+        text.extend(nodes.plain_text());
+        text.push(close);
+      }
       Inline::SpacedDashes(2, _) => text.push(" — "),
       Inline::SpacedDashes(_, _) => text.push(" --- "),
       Inline::SpecialChar(SpecialCharKind::Ampersand) => text.push("&"),
diff --git a/ast/src/macro.rs b/ast/src/macro.rs
index 47fd1be..ec953be 100644
--- a/ast/src/macro.rs
+++ b/ast/src/macro.rs
@@ -42,6 +42,35 @@ pub enum MacroNode<'arena> {
   Plugin(Box<PluginMacro<'arena>>),
 }
 
+impl MacroNode<'_> {
+  /// the text of a link or ui macro, empty for other macros
+  pub(crate) fn plain_text(&self) -> Vec<&str> {
+    match self {
+      MacroNode::Link { target, attrs, .. } => {
+        match attrs.as_ref().and_then(|a| a.positional.first()) {
+          Some(Some(nodes)) if !nodes.is_empty() => nodes.plain_text(),
+          _ => vec![target.src.as_str()],
+        }
+      }
+      MacroNode::Mailto { address, linktext, .. } => match linktext {
+        Some(nodes) => nodes.plain_text(),
+        None => vec![address.src.as_str()],
+      },
+      MacroNode::Xref { linktext: Some(nodes), .. } => nodes.plain_text(),
+      MacroNode::Keyboard { keys, .. } => joined(keys.iter().map(|k| k.as_str()), "+"),
+      MacroNode::Button(text) => vec![text.src.as_str()],
+      MacroNode::Menu(items) => joined(items.iter().map(|i| i.src.as_str()), " › "),
+      _ => vec![],
+    }
+  }
+}
+
+fn joined<'a>(items: impl Iterator<Item = &'a str>, separator: &'a str) -> Vec<&'a str> {
+  let mut joined: Vec<&str> = items.flat_map(|item| [item, separator]).collect();
+  joined.pop();
+  joined
+}
+
 #[derive(Debug, PartialEq, Eq, Clone)]
 pub struct PluginMacro<'arena> {
   pub name: BumpString<'arena>,
-- 
2.43.0


From 3a8df7f0f7601852d53dfd290fc131ef4a36eef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:22 +0000
Subject: [PATCH 161/182] fix: the ISO form of a revision date does not depend
 on the time zone

---
 backend/src/time.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/backend/src/time.rs b/backend/src/time.rs
index b9d6677..3ed8d51 100644
--- a/backend/src/time.rs
+++ b/backend/src/time.rs
@@ -1,6 +1,8 @@
 // replicates Ruby's Date.parse function, accepting arbitrary date string inputs.
 pub fn format_date_str(input: &str, output_fmt: &str) -> Option<String> {
-  let dt = dateparser::parse(input).ok()?;
+  // a date is the same everywhere, and at any time of the day
+  let epoch = dateparser::parse("1970-01-01T00:00:00Z").ok()?;
+  let dt = dateparser::parse_with(input, &epoch.timezone(), epoch.time()).ok()?;
   Some(dt.format(output_fmt).to_string())
 }
 
-- 
2.43.0


From bb603099dca0916869d2d6a7c51bb71c60f8c580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:39 +0000
Subject: [PATCH 162/182] fix: comment lines between author and revision line

---
 parser/src/tasks/parse_doc_header.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/src/tasks/parse_doc_header.rs b/parser/src/tasks/parse_doc_header.rs
index 2c9e9f5..a327e34 100644
--- a/parser/src/tasks/parse_doc_header.rs
+++ b/parser/src/tasks/parse_doc_header.rs
@@ -160,6 +160,9 @@ impl<'arena> Parser<'arena> {
       let author_line = lines.consume_current().unwrap();
       header.loc.extend(author_line.last_loc().unwrap());
       self.parse_author_line(author_line)?;
+      while lines.current_satisfies(Line::is_comment) {
+        lines.consume_current();
+      }
       // revision line can only follow an author line (and requires a doc header)
       if self.document.meta.is_set("author")
         && let Some(end) = self.parse_revision_line(lines)
-- 
2.43.0


From 47fad97ec07b78ebb62743d072a602a18c8a2419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:54 +0000
Subject: [PATCH 163/182] fix: attributes following a title marked with # or a
 revision line of digits are header attributes

---
 parser/src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index 93ac860..cf7474b 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -156,7 +156,7 @@ impl<'arena> Parser<'arena> {
         if self.ctx.in_header
           && !matches!(
             token.kind,
-            Colon | EqualSigns | Word | ForwardSlashes | Directive | OpenBracket
+            Colon | EqualSigns | Hash | Word | Digits | ForwardSlashes | Directive | OpenBracket
           )
           && !(token.kind == Whitespace && self.lexer.at_newline())
           && !self.ctx.within_block_comment()
-- 
2.43.0


From 5859d0cd3e66e25ffeaba8913471c2158f718bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:25 +0000
Subject: [PATCH 164/182] fix: rel of links with a window and the nofollow
 option

---
 backend/src/html/htmlbuf.rs  | 14 +++++++-------
 backend/src/html/open_tag.rs |  6 +++++-
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/backend/src/html/htmlbuf.rs b/backend/src/html/htmlbuf.rs
index 4044a69..d1fb983 100644
--- a/backend/src/html/htmlbuf.rs
+++ b/backend/src/html/htmlbuf.rs
@@ -102,13 +102,13 @@ pub trait HtmlBuf {
     if let Some(window) = attrs.named("window") {
       self.push_str(r#" target=""#);
       self.push_str_attr_escaped(window);
-      if window == "_blank" || attrs.has_option("noopener") {
-        self.push_str("\" rel=\"noopener");
-      }
-      if attrs.has_option("nofollow") {
-        self.push_str(" nofollow\"");
-      } else {
-        self.push_ch('"');
+      self.push_ch('"');
+      let noopener = window == "_blank" || attrs.has_option("noopener");
+      match (noopener, attrs.has_option("nofollow")) {
+        (true, true) => self.push_str(" rel=\"noopener nofollow\""),
+        (true, false) => self.push_str(" rel=\"noopener\""),
+        (false, true) => self.push_str(" rel=\"nofollow\""),
+        (false, false) => {}
       }
     } else if attrs.has_option("nofollow") {
       self.push_str(" rel=\"nofollow\"");
diff --git a/backend/src/html/open_tag.rs b/backend/src/html/open_tag.rs
index 87e635c..58296f1 100644
--- a/backend/src/html/open_tag.rs
+++ b/backend/src/html/open_tag.rs
@@ -150,7 +150,11 @@ impl OpenTag {
       self.push_html_attr("title", title)
     }
     if blank_window_shorthand {
-      self.push_str(" target=\"_blank\" rel=\"noopener\"");
+      self.push_str(" target=\"_blank\" rel=\"noopener");
+      if attrs.has_option("nofollow") {
+        self.push_str(" nofollow");
+      }
+      self.push_ch('"');
     } else {
       self.append_link_constraint_attrs(attrs);
     }
-- 
2.43.0


From 3f162f579f7dcd602ec7c30071f0e7afb5c2272e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:39 +0000
Subject: [PATCH 165/182] fix: link=self of block images is the path of the
 image

---
 backend-html5s/src/html5s.rs            | 9 +++++++--
 dr-html-backend/src/asciidoctor_html.rs | 8 +++++++-
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/backend-html5s/src/html5s.rs b/backend-html5s/src/html5s.rs
index 9d68a9b..8c1e285 100644
--- a/backend-html5s/src/html5s.rs
+++ b/backend-html5s/src/html5s.rs
@@ -1371,8 +1371,13 @@ impl Backend for Html5s {
       } else {
         false
       };
-      let href = if *href == "self" { &img_target.src } else { *href };
-      self.push([r#"" href=""#, &esc(href), r#"""#]);
+      self.push_str(r#"" href=""#);
+      if *href == "self" {
+        self.push_img_path(img_target);
+      } else {
+        self.push_str(&esc(href));
+      }
+      self.push_ch('"');
       self.append_link_constraint_attrs(img_attrs);
       if self_link {
         let label = self.doc_meta.string_or(
diff --git a/dr-html-backend/src/asciidoctor_html.rs b/dr-html-backend/src/asciidoctor_html.rs
index bf934a5..dfb1682 100644
--- a/dr-html-backend/src/asciidoctor_html.rs
+++ b/dr-html-backend/src/asciidoctor_html.rs
@@ -1428,7 +1428,13 @@ impl Backend for AsciidoctorHtml {
       let mut a_tag = OpenTag::new("a", &NoAttrs);
       a_tag.push_class("image");
       a_tag.push_str("\" href=\"");
-      a_tag.push_str(&esc(href));
+      if *href == "self" {
+        let html = std::mem::take(&mut self.html);
+        self.push_img_path(img_target);
+        a_tag.push_str(&std::mem::replace(&mut self.html, html));
+      } else {
+        a_tag.push_str(&esc(href));
+      }
       a_tag.push_ch('"');
       a_tag.opened_classes = false;
       a_tag.push_link_attrs(img_attrs, true, false);
-- 
2.43.0


From 350cfac0c26f75baeb987c643430ba5676a04b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:11 +0000
Subject: [PATCH 166/182] fix: attribute values with special characters or
 punctuation are kept

---
 parser/src/tasks/parse_attr_list.rs | 32 ++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/parser/src/tasks/parse_attr_list.rs b/parser/src/tasks/parse_attr_list.rs
index 925e9a5..3133614 100644
--- a/parser/src/tasks/parse_attr_list.rs
+++ b/parser/src/tasks/parse_attr_list.rs
@@ -316,8 +316,19 @@ impl<'arena> Parser<'arena> {
         } else {
           Substitutions::attr_value()
         };
-        let nodes = self.parse_attr_nodes(tokens)?.unwrap();
+        let src = self.attr_value_src(&tokens);
+        let mut nodes = self.parse_attr_nodes(tokens)?.unwrap();
         self.ctx.subs = restore;
+        // a block's title and reftext are rendered, any other value is used as text
+        let rendered = supports_shorthand && matches!(name.src.as_str(), "title" | "reftext");
+        if !rendered
+          && !nodes.is_empty()
+          && nodes.single_text().is_none()
+          && let Some(src) = src
+        {
+          nodes = InlineNodes::new(self.bump);
+          nodes.push(InlineNode::new(Inline::Text(src.src), src.loc));
+        }
         attr_list.insert_named(name, nodes);
       }
       AttrIr::Options(groups) => self.push_attr_groups(groups, &mut attr_list.options),
@@ -372,6 +383,25 @@ impl<'arena> Parser<'arena> {
     Ok(())
   }
 
+  /// the value as written, unless a passthrough is part of it
+  fn attr_value_src(&self, tokens: &Deq<'arena, Token<'arena>>) -> Option<SourceString<'arena>> {
+    if tokens.iter().any(|token| token.kind(PreprocPassthru)) {
+      return None;
+    }
+    let mut src = BumpString::new_in(self.bump);
+    let mut tokens_iter = tokens.iter().peekable();
+    while let Some(token) = tokens_iter.next() {
+      let escapes = token.kind(Backslash)
+        && tokens_iter
+          .peek()
+          .is_some_and(|next| matches!(next.kind, CloseBracket | DoubleQuote | SingleQuote));
+      if !escapes {
+        src.push_str(&token.lexeme);
+      }
+    }
+    Some(SourceString::new(src, tokens_loc(tokens)?))
+  }
+
   fn parse_attr_nodes(
     &mut self,
     mut tokens: Deq<'arena, Token<'arena>>,
-- 
2.43.0


From a47e52795c36299f9653fa3ffb74ac83c1b1c170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:43 +0000
Subject: [PATCH 167/182] fix: mailto subject and body are encoded as uri
 components

---
 backend/src/html/backend.rs |  4 ++--
 backend/src/utils.rs        | 14 ++++++++++++++
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/backend/src/html/backend.rs b/backend/src/html/backend.rs
index 16c0bde..4457eb6 100644
--- a/backend/src/html/backend.rs
+++ b/backend/src/html/backend.rs
@@ -481,11 +481,11 @@ pub trait HtmlBackend: HtmlBuf {
     a_tag.push_verbatim_attr_value(address);
     if let Some(subject) = subject {
       a_tag.push_str("?subject=");
-      a_tag.push_url_encoded(subject);
+      a_tag.push_str(&utils::uri_component(subject));
     }
     if let Some(body) = body {
       a_tag.push_str(iff!(subject.is_some(), "&amp;body=", "?body="));
-      a_tag.push_url_encoded(body);
+      a_tag.push_str(&utils::uri_component(body));
     }
     a_tag.push_ch('"');
     if self.state().xref_depth == 0 {
diff --git a/backend/src/utils.rs b/backend/src/utils.rs
index 2baf892..8e7e1ca 100644
--- a/backend/src/utils.rs
+++ b/backend/src/utils.rs
@@ -1,5 +1,19 @@
 use std::path::Path;
 
+/// percent-encode all characters which are not unreserved in a uri
+pub fn uri_component(s: &str) -> String {
+  let mut encoded = String::with_capacity(s.len());
+  for byte in s.bytes() {
+    match byte {
+      b'a'..=b'z' | b'A'..=b'Z' | b'0'..=b'9' | b'-' | b'_' | b'.' | b'~' => {
+        encoded.push(byte as char)
+      }
+      _ => encoded.push_str(&format!("%{byte:02X}")),
+    }
+  }
+  encoded
+}
+
 pub mod xref {
   use ast::{DocumentMeta, ReadAttr, XrefKind};
   use core::file;
-- 
2.43.0


From ca35d46d2cd28bb58727cdc16c22c144f754c234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:43 +0000
Subject: [PATCH 168/182] fix: one playlist parameter for a looped youtube
 playlist

---
 backend/src/html/video.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/backend/src/html/video.rs b/backend/src/html/video.rs
index 49c5ae3..69b5fd6 100644
--- a/backend/src/html/video.rs
+++ b/backend/src/html/video.rs
@@ -175,7 +175,10 @@ fn more_youtube_params<B: HtmlBackend + ?Sized>(
   if let Some(list) = attrs.named("list") {
     backend.push([iff!(*param_pushed, "&amp;list=", "?list="), &esc(list)]);
     *param_pushed = true;
-  } else if attrs.has_option("loop") && !target.contains(['/', ',']) {
+  } else if attrs.has_option("loop")
+    && attrs.named("playlist").is_none()
+    && !target.contains(['/', ','])
+  {
     backend.push([iff!(*param_pushed, "&amp;", "?"), "playlist=", &esc(target)]);
     *param_pushed = true;
   }
-- 
2.43.0


From 0d0bf9735e8744bf95da796244796f2d5c3f9703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:43 +0000
Subject: [PATCH 169/182] fix: special characters in the title of an image
 macro are escaped

---
 backend-html5s/src/html5s.rs            | 2 +-
 dr-html-backend/src/asciidoctor_html.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/backend-html5s/src/html5s.rs b/backend-html5s/src/html5s.rs
index 8c1e285..7d1ac17 100644
--- a/backend-html5s/src/html5s.rs
+++ b/backend-html5s/src/html5s.rs
@@ -1414,7 +1414,7 @@ impl Backend for Html5s {
     block: &Block,
   ) {
     if let Some(title) = img_attrs.named("title") {
-      self.render_block_title(title, block, false);
+      self.render_block_title(&esc(title), block, false);
       if block.has_title() {
         self.discard_alt_buffer();
       }
diff --git a/dr-html-backend/src/asciidoctor_html.rs b/dr-html-backend/src/asciidoctor_html.rs
index dfb1682..2167551 100644
--- a/dr-html-backend/src/asciidoctor_html.rs
+++ b/dr-html-backend/src/asciidoctor_html.rs
@@ -1457,7 +1457,7 @@ impl Backend for AsciidoctorHtml {
     block: &Block,
   ) {
     if let Some(title) = attrs.named("title") {
-      self.render_block_title(title, block);
+      self.render_block_title(&esc(title), block);
       if block.has_title() {
         self.discard_alt_buffer();
       }
-- 
2.43.0


From 1bebfb611a2b4d83103051b2bac49a57cf7cf08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:02 +0000
Subject: [PATCH 170/182] fix: an apostrophe within an attribute value does not
 open a quote

---
 parser/src/tasks/parse_attr_list.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/parser/src/tasks/parse_attr_list.rs b/parser/src/tasks/parse_attr_list.rs
index 3133614..a3d944d 100644
--- a/parser/src/tasks/parse_attr_list.rs
+++ b/parser/src/tasks/parse_attr_list.rs
@@ -427,23 +427,30 @@ impl<'arena> Parser<'arena> {
     let mut double_start_len: Option<usize> = None;
     let mut single_start_len: Option<usize> = None;
     let mut num_tokens = 0;
+    let mut prev_kind = Comma;
     for token in line.iter().take(line.len() - 1) {
       num_tokens += 1;
+      // only the start of a value opens a quote
+      let opens = matches!(prev_kind, Comma | EqualSigns);
+      let escaped = prev_kind == Backslash;
+      if token.kind != Whitespace {
+        prev_kind = token.kind;
+      }
       match (token.kind, double_start_len, single_start_len) {
-        (DoubleQuote, None, _) => {
+        (DoubleQuote, None, None) if opens => {
           double_start_len = Some(delimiters.len());
         }
-        (DoubleQuote, Some(prev_len), _) => {
+        (DoubleQuote, Some(prev_len), _) if !escaped => {
           while delimiters.len() > prev_len {
             num_tokens += delimiters.pop().unwrap(); // tokens before skipped comma
             num_tokens += 1; // comma
           }
           double_start_len = None;
         }
-        (SingleQuote, _, None) => {
+        (SingleQuote, None, None) if opens => {
           single_start_len = Some(delimiters.len());
         }
-        (SingleQuote, _, Some(prev_len)) => {
+        (SingleQuote, _, Some(prev_len)) if !escaped => {
           while delimiters.len() > prev_len {
             num_tokens += delimiters.pop().unwrap(); // tokens before skipped comma
             num_tokens += 1; // comma
-- 
2.43.0


From 2e009c19527093f686d1767eb94861b63d51fdff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:02 +0000
Subject: [PATCH 171/182] fix: kbd macro of a closing bracket

---
 parser/src/tasks/parse_inlines/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/src/tasks/parse_inlines/mod.rs b/parser/src/tasks/parse_inlines/mod.rs
index cbc62c9..02cc441 100644
--- a/parser/src/tasks/parse_inlines/mod.rs
+++ b/parser/src/tasks/parse_inlines/mod.rs
@@ -1157,6 +1157,9 @@ impl<'arena> Parser<'arena> {
         break;
       };
       match (last_kind, peek.kind) {
+        (None, Backslash) if line.nth_token(1).kind(CloseBracket) => {
+          last_kind = Some(line.consume_current().unwrap().kind);
+        }
         (_, AttrRef) | (Some(_), Backslash) => {
           last_kind = Some(line.consume_current().unwrap().kind);
         }
-- 
2.43.0


From 40c0e8ac9899f9c6e8b8c8f153db609e51035a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:02 +0000
Subject: [PATCH 172/182] fix: poster of a video given as positional url

---
 backend/src/html/video.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/backend/src/html/video.rs b/backend/src/html/video.rs
index 69b5fd6..25b8d79 100644
--- a/backend/src/html/video.rs
+++ b/backend/src/html/video.rs
@@ -9,7 +9,12 @@ pub(crate) fn element<B: HtmlBackend + ?Sized>(backend: &mut B, target: &str, at
     Some("youtube") => service(backend, Provider::YouTube, target, attrs),
     Some("vimeo") => service(backend, Provider::Vimeo, target, attrs),
     Some("wistia") => service(backend, Provider::Wistia, target, attrs),
-    _ => native_element(backend, target, attrs, attrs.named("poster").or(poster)),
+    _ => {
+      // a poster which is a url is not a single text
+      let poster = attrs.positional_at(0).map(|nodes| nodes.plain_text().concat());
+      let poster = attrs.named("poster").or(poster.as_deref());
+      native_element(backend, target, attrs, poster);
+    }
   }
 }
 
-- 
2.43.0


From 46150aa5d381d7e7e744de796ffb0893e25e244e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:14 +0000
Subject: [PATCH 173/182] fix: bare urls keep their query, port and parens and
 end at the enclosing span

---
 parser/src/line.rs                    | 31 +++++++++++++++++++++------
 parser/src/tasks/parse_inlines/mod.rs |  6 +++---
 2 files changed, 28 insertions(+), 9 deletions(-)

diff --git a/parser/src/line.rs b/parser/src/line.rs
index 4f87c46..0503bcf 100644
--- a/parser/src/line.rs
+++ b/parser/src/line.rs
@@ -759,6 +759,7 @@ impl<'arena> Line<'arena> {
     &mut self,
     start: Option<&Token>,
     stop: Option<TokenKind>,
+    span_end: &[TokenSpec],
     bump: &'arena Bump,
   ) -> SourceString<'arena> {
     let mut loc = start.map_or_else(|| self.first_loc().unwrap(), |t| t.loc);
@@ -769,15 +770,22 @@ impl<'arena> Line<'arena> {
     } else {
       for token in self.iter() {
         match token.kind {
-          Whitespace | GreaterThan | OpenBracket | OpenParens | CloseParens | Bang | SemiColon
-          | Colon | Star | QuestionMark => break,
+          Whitespace | GreaterThan | OpenBracket | CloseBracket => break,
+          _ if self.ends_span_at(num_tokens, span_end) => break,
           _ => num_tokens += 1,
         }
       }
-    }
-
-    if stop.is_none() && num_tokens > 0 && self.tokens.get(num_tokens - 1).kind(Dots) {
-      num_tokens -= 1;
+      // punctuation following the url
+      while num_tokens > 0
+        && self.nth_token(num_tokens - 1).is_some_and(|token| {
+          matches!(
+            token.kind,
+            Dots | Comma | QuestionMark | Bang | CloseParens | SemiColon | Colon | TermDelimiter
+          )
+        })
+      {
+        num_tokens -= 1;
+      }
     }
 
     let mut s = BumpString::new_in(bump);
@@ -793,6 +801,17 @@ impl<'arena> Line<'arena> {
     SourceString::new(s, loc)
   }
 
+  fn ends_span_at(&self, index: usize, span_end: &[TokenSpec]) -> bool {
+    !span_end.is_empty()
+      && span_end.iter().enumerate().all(|(i, spec)| {
+        self.nth_token(index + i).is_some_and(|token| token.satisfies(*spec))
+      })
+      && (span_end.len() > 1
+        || !self
+          .nth_token(index + 1)
+          .is_some_and(|token| matches!(token.kind, Word | Digits)))
+  }
+
   #[must_use]
   pub fn consume_current(&mut self) -> Option<Token<'arena>> {
     self.tokens.pop_front()
diff --git a/parser/src/tasks/parse_inlines/mod.rs b/parser/src/tasks/parse_inlines/mod.rs
index 02cc441..e0f5389 100644
--- a/parser/src/tasks/parse_inlines/mod.rs
+++ b/parser/src/tasks/parse_inlines/mod.rs
@@ -499,7 +499,7 @@ impl<'arena> Parser<'arena> {
             let scheme_token = line.consume_current().unwrap();
             let mut loc = scheme_token.loc;
             let line_end = line.last_loc().unwrap();
-            let target = line.consume_url(Some(&scheme_token), Some(GreaterThan), self.bump);
+            let target = line.consume_url(Some(&scheme_token), Some(GreaterThan), &[], self.bump);
             if target.src == scheme_token.lexeme {
               // turns out we don't have a valid uri here, backtrack
               acc.pop_node();
@@ -899,7 +899,7 @@ impl<'arena> Parser<'arena> {
           {
             let mut loc = token.loc;
             let line_end = line.last_loc().unwrap_or(token.loc);
-            let target = line.consume_url(Some(&token), None, self.bump);
+            let target = line.consume_url(Some(&token), None, stop_tokens, self.bump);
             if target.src == token.lexeme {
               acc.push_text_token(&token);
             } else {
@@ -1020,7 +1020,7 @@ impl<'arena> Parser<'arena> {
     let mut macro_loc = token.loc;
     let line_end = line.last_loc().unwrap();
     acc.commit();
-    let target = line.consume_url(Some(token), Some(OpenBracket), self.bump);
+    let target = line.consume_url(Some(token), Some(OpenBracket), &[], self.bump);
     line.discard_assert(OpenBracket);
     let line_has_caret = line.contains(Caret);
     let mut attrs = self.parse_link_macro_attr_list(line)?;
-- 
2.43.0


From 630c3874e6afadb6dff61689be15e4a1e43c746d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:14 +0000
Subject: [PATCH 174/182] fix: default alt text of an image name with several
 dots

---
 core/src/file.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/src/file.rs b/core/src/file.rs
index 5ea2e20..58882fb 100644
--- a/core/src/file.rs
+++ b/core/src/file.rs
@@ -33,7 +33,8 @@ pub fn basename(input: &str) -> &str {
 }
 
 pub fn stem(input: &str) -> &str {
-  basename(input).split('.').next().unwrap_or(input)
+  let basename = basename(input);
+  basename.rsplit_once('.').map_or(basename, |(stem, _)| stem)
 }
 
 pub fn remove_uri_scheme(input: &str) -> &str {
-- 
2.43.0


From 1e159cf21cbabf9d59158f7b01857540ca2439e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:14 +0000
Subject: [PATCH 175/182] fix: hash parameter only for vimeo videos

---
 backend/src/html/video.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/backend/src/html/video.rs b/backend/src/html/video.rs
index 25b8d79..f4443e0 100644
--- a/backend/src/html/video.rs
+++ b/backend/src/html/video.rs
@@ -57,7 +57,9 @@ fn service<B: HtmlBackend + ?Sized>(
     param_pushed = true;
   } else {
     backend.push_str(&esc(target));
-    if let Some(hash) = attrs.named("hash") {
+    if provider == Provider::Vimeo
+      && let Some(hash) = attrs.named("hash")
+    {
       backend.push([iff!(param_pushed, "&amp;", "?"), "h=", &esc(hash)]);
       param_pushed = true;
     }
-- 
2.43.0


From 5c2ea89eb48efdda9925b9ee1e400228193e98e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:14 +0000
Subject: [PATCH 176/182] fix: attributes following an escaped bracket in a
 link text

---
 parser/src/tasks/parse_attr_list.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/tasks/parse_attr_list.rs b/parser/src/tasks/parse_attr_list.rs
index a3d944d..7d1e045 100644
--- a/parser/src/tasks/parse_attr_list.rs
+++ b/parser/src/tasks/parse_attr_list.rs
@@ -461,7 +461,7 @@ impl<'arena> Parser<'arena> {
           delimiters.push(num_tokens - 1);
           num_tokens = 0;
         }
-        (CloseBracket, _, _) => break,
+        (CloseBracket, _, _) if !escaped => break,
         _ => {}
       }
     }
-- 
2.43.0


From 2740177c1fcaf47ad8a56dd3030e15614db6bc50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:35 +0000
Subject: [PATCH 177/182] fix: attribute references within bare urls

---
 parser/src/line.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/src/line.rs b/parser/src/line.rs
index 0503bcf..72ae74e 100644
--- a/parser/src/line.rs
+++ b/parser/src/line.rs
@@ -795,7 +795,9 @@ impl<'arena> Line<'arena> {
     }
     for _ in 0..num_tokens {
       let token = self.consume_current().unwrap();
-      s.push_str(&token.lexeme);
+      if token.kind != AttrRef {
+        s.push_str(&token.lexeme);
+      }
       loc.extend(token.loc);
     }
     SourceString::new(s, loc)
-- 
2.43.0


From ac15bec57bfec0cd97c90ae50a0854231ee5577d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:11 +0000
Subject: [PATCH 178/182] fix: one list parameter for a youtube video with its
 own list

---
 backend/src/html/video.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/backend/src/html/video.rs b/backend/src/html/video.rs
index f4443e0..59a4198 100644
--- a/backend/src/html/video.rs
+++ b/backend/src/html/video.rs
@@ -179,7 +179,9 @@ fn more_youtube_params<B: HtmlBackend + ?Sized>(
     backend.push_str(iff!(*param_pushed, "&amp;controls=0", "?controls=0"));
     *param_pushed = true;
   }
-  if let Some(list) = attrs.named("list") {
+  if let Some(list) = attrs.named("list")
+    && !target.contains('/')
+  {
     backend.push([iff!(*param_pushed, "&amp;list=", "?list="), &esc(list)]);
     *param_pushed = true;
   } else if attrs.has_option("loop")
-- 
2.43.0


From 20618ed2923037ceb5c2aaa25b3a953d58d1123d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:01 +0000
Subject: [PATCH 179/182] fix: metadata following an invalid anchor

---
 parser/src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index cf7474b..0c24158 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -411,7 +411,7 @@ impl<'arena> Parser<'arena> {
           line.discard_assert(TokenKind::OpenBracket);
           let Some(anchor) = self.parse_block_anchor(&mut line)? else {
             self.err_line_starting("Invalid block anchor", first.loc)?;
-            return Ok(ChunkMeta::new(attrs, title, start_loc));
+            continue;
           };
           let mut anchor_attrs = AttrList::new(anchor.loc, self.bump);
           if let Some(reftext) = anchor.reftext {
-- 
2.43.0


From 111bafade03b64c1184f8d4cc7b1314ff1830570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:01 +0000
Subject: [PATCH 180/182] fix: text of a line indented beyond its source

---
 parser/src/tasks/collect_text.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/src/tasks/collect_text.rs b/parser/src/tasks/collect_text.rs
index ed6e53b..c22f1a5 100644
--- a/parser/src/tasks/collect_text.rs
+++ b/parser/src/tasks/collect_text.rs
@@ -36,7 +36,8 @@ impl<'arena> CollectText<'arena> {
     }
     let trimmed = string.trim_end();
     let mut delta = string.len() - trimmed.len();
-    self.loc.end -= delta as u32;
+    // the text may be longer than its source, e.g. when indented by an attribute
+    self.loc.end = self.loc.end.saturating_sub(delta as u32).max(self.loc.start);
     while delta > 0 {
       string.pop();
       delta -= 1;
-- 
2.43.0


From b864fed41eedcaa1548f3912f8a7cbf56217474c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:01 +0000
Subject: [PATCH 181/182] fix: line ends in a list of attributes which is not
 one

---
 parser/src/tasks/parse_inlines/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/src/tasks/parse_inlines/mod.rs b/parser/src/tasks/parse_inlines/mod.rs
index e0f5389..5ec1d54 100644
--- a/parser/src/tasks/parse_inlines/mod.rs
+++ b/parser/src/tasks/parse_inlines/mod.rs
@@ -986,8 +986,8 @@ impl<'arena> Parser<'arena> {
 
   fn push_unused_inline_attrs(&self, acc: &mut Accum<'arena>, inline_attrs: &mut Option<AttrList>) {
     if let Some(unused_attrs) = inline_attrs.take() {
-      let text = self.lexer.str_from_loc(unused_attrs.loc);
-      acc.text.push_str(&self.replace_attr_refs(text));
+      let text = self.lexer.str_from_loc(unused_attrs.loc).replace("\r\n", "\n");
+      acc.text.push_str(&self.replace_attr_refs(&text));
     }
   }
 
-- 
2.43.0


From 49155bd57d428cd2470eb723ab17d5461974f47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:37 +0000
Subject: [PATCH 182/182] fix: print the title of a callout list

---
 dr-html-backend/src/asciidoctor_html.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dr-html-backend/src/asciidoctor_html.rs b/dr-html-backend/src/asciidoctor_html.rs
index 2167551..354fe76 100644
--- a/dr-html-backend/src/asciidoctor_html.rs
+++ b/dr-html-backend/src/asciidoctor_html.rs
@@ -567,6 +567,7 @@ impl Backend for AsciidoctorHtml {
   fn enter_callout_list(&mut self, block: &Block, _items: &[ListItem], _depth: u8) {
     self.autogen_conum = 1;
     self.open_element("div", &["colist arabic"], &block.meta.attrs);
+    self.render_buffered_block_title(block);
     let icon_mode = self.doc_meta.icon_mode();
     self.push_str(if icon_mode != IconMode::Text { "<table>" } else { "<ol>" });
     self.callout_list_icons.push(icon_mode);
-- 
2.43.0

