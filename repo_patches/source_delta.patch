From ca521c54d231c9c787b86882777f77867fef84e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:01 +0000
Subject: [PATCH 01/42] fix: report template errors from write_into() instead
 of panicking

io::Write::write_fmt() panics if formatting fails while the underlying
stream did not fail, e.g. because of a failing `?` in the template.
---
 askama/src/lib.rs | 37 ++++++++++++++++++++++++++++++++++---
 1 file changed, 34 insertions(+), 3 deletions(-)

diff --git a/askama/src/lib.rs b/askama/src/lib.rs
index 6f1f6c6..1bffc65 100644
--- a/askama/src/lib.rs
+++ b/askama/src/lib.rs
@@ -66,7 +66,7 @@ mod error;
 pub mod filters;
 pub mod helpers;
 
-use std::fmt;
+use std::{fmt, io};
 
 pub use askama_derive::Template;
 pub use askama_escape::{Html, MarkupDisplay, Text};
@@ -93,7 +93,7 @@ pub trait Template: fmt::Display {
     /// Renders the template to the given `writer` io buffer
     #[inline]
     fn write_into(&self, writer: &mut (impl std::io::Write + ?Sized)) -> std::io::Result<()> {
-        writer.write_fmt(format_args!("{self}"))
+        write_into_io(writer, |writer| self.render_into(writer))
     }
 
     /// The template's extension, if provided
@@ -171,7 +171,7 @@ impl<T: Template> DynTemplate for T {
 
     #[inline]
     fn dyn_write_into(&self, writer: &mut dyn std::io::Write) -> std::io::Result<()> {
-        writer.write_fmt(format_args!("{self}"))
+        <Self as Template>::write_into(self, writer)
     }
 
     fn extension(&self) -> Option<&'static str> {
@@ -187,6 +187,37 @@ impl<T: Template> DynTemplate for T {
     }
 }
 
+/// Adapts an [`io::Write`] for `render`, and reports the error of whichever of the two failed
+///
+/// [`io::Write::write_fmt`] is not an option, because it panics if formatting fails even though
+/// the underlying writer did not.
+fn write_into_io<W, F>(writer: &mut W, render: F) -> io::Result<()>
+where
+    W: io::Write + ?Sized,
+    F: FnOnce(&mut IoWriter<'_, W>) -> Result<()>,
+{
+    let mut writer = IoWriter { writer, err: None };
+    let result = render(&mut writer);
+    match writer.err {
+        Some(err) => Err(err),
+        None => result.map_err(|err| io::Error::new(io::ErrorKind::Other, err)),
+    }
+}
+
+struct IoWriter<'a, W: ?Sized> {
+    writer: &'a mut W,
+    err: Option<io::Error>,
+}
+
+impl<W: io::Write + ?Sized> fmt::Write for IoWriter<'_, W> {
+    fn write_str(&mut self, s: &str) -> fmt::Result {
+        self.writer.write_all(s.as_bytes()).map_err(|err| {
+            self.err = Some(err);
+            fmt::Error
+        })
+    }
+}
+
 impl fmt::Display for dyn DynTemplate {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         self.dyn_render_into(f).map_err(|_| ::std::fmt::Error {})
-- 
2.43.0


From dc7bd0a56a6d98e86f5da3198f2a419b33b66f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:01 +0000
Subject: [PATCH 02/42] fix: answer with status 500 in askama_axum if rendering
 failed

---
 askama_axum/src/lib.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/askama_axum/src/lib.rs b/askama_axum/src/lib.rs
index bbc47ab..ed47e88 100644
--- a/askama_axum/src/lib.rs
+++ b/askama_axum/src/lib.rs
@@ -10,9 +10,10 @@ use axum_core::response::{IntoResponse, Response};
 
 /// Render a [`Template`] into a [`Response`], or render an error page.
 pub fn into_response<T: ?Sized + askama::Template>(tmpl: &T) -> Response {
-    try_into_response(tmpl)
-        .map_err(|err| axum_core::response::ErrorResponse::from(err.to_string()))
-        .into_response()
+    match try_into_response(tmpl) {
+        Ok(response) => response,
+        Err(err) => (http::StatusCode::INTERNAL_SERVER_ERROR, err.to_string()).into_response(),
+    }
 }
 
 /// Try to render a [`Template`] into a [`Response`].
-- 
2.43.0


From 9e78516ae5ba5b5b81505cb029ef49905609a94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:01 +0000
Subject: [PATCH 03/42] fix: do not leak nesting levels if a target could not
 be parsed

A target list with a trailing comma permanently raised the nesting level,
so that templates with many of them were rejected as too deeply nested.
---
 askama_parser/src/node.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/askama_parser/src/node.rs b/askama_parser/src/node.rs
index 708d880..ceac4a8 100644
--- a/askama_parser/src/node.rs
+++ b/askama_parser/src/node.rs
@@ -175,9 +175,9 @@ impl<'a> Target<'a> {
         map(
             separated_list1(ws(tag("or")), |i| {
                 s.nest(i)?;
-                let ret = Self::parse_one(i, s)?;
+                let ret = Self::parse_one(i, s);
                 s.leave();
-                Ok(ret)
+                ret
             }),
             |mut opts| match opts.len() {
                 1 => opts.pop().unwrap(),
-- 
2.43.0


From 4fe388ed07ac5317b26b6b79a4f20c4cfd3c21ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:23 +0000
Subject: [PATCH 04/42] fix: count the line break before a parse error

If a parse error was found at the start of a line, then the error message
referred to the end of the previous line.
---
 askama_parser/src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/askama_parser/src/lib.rs b/askama_parser/src/lib.rs
index 09218aa..ec45aa2 100644
--- a/askama_parser/src/lib.rs
+++ b/askama_parser/src/lib.rs
@@ -111,8 +111,9 @@ impl<'a> Ast<'a> {
             _ => format!("{source_after:?}"),
         };
 
-        let (row, last_line) = source_before.lines().enumerate().last().unwrap_or_default();
-        let column = last_line.chars().count();
+        let row = source_before.matches('\n').count();
+        let line_start = source_before.rfind('\n').map_or(0, |idx| idx + 1);
+        let column = source_before[line_start..].chars().count();
         Err(ParseError::Details {
             message,
             row,
-- 
2.43.0


From a12d8ca85c7ff77b9768d964c3058dda56d6e847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:46 +0000
Subject: [PATCH 05/42] fix: remove leading and trailing empty paragraphs in
 paragraphbreaks

---
 askama/src/filters/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/askama/src/filters/mod.rs b/askama/src/filters/mod.rs
index e4871fa..356562e 100644
--- a/askama/src/filters/mod.rs
+++ b/askama/src/filters/mod.rs
@@ -244,8 +244,13 @@ pub fn linebreaksbr(s: impl ToString) -> Result<impl fmt::Display, Infallible> {
 #[inline]
 pub fn paragraphbreaks(s: impl ToString) -> Result<impl fmt::Display, Infallible> {
     fn paragraphbreaks(s: String) -> Result<String, Infallible> {
-        let linebroken = s.replace("\n\n", "</p><p>").replace("<p></p>", "");
-        Ok(format!("<p>{linebroken}</p>"))
+        let mut linebroken = String::with_capacity(s.len());
+        for paragraph in s.split("\n\n").filter(|s| !s.is_empty()) {
+            linebroken.push_str("<p>");
+            linebroken.push_str(paragraph);
+            linebroken.push_str("</p>");
+        }
+        Ok(linebroken)
     }
     paragraphbreaks(s.to_string())
 }
-- 
2.43.0


From ea3853b51c68dbfd25765727c197e0b152a29f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:46 +0000
Subject: [PATCH 06/42] fix: write preceding expressions before a variable is
 assigned

The buffer was not flushed if the new variable shadowed a field, so that
the new value was printed instead of the field.
---
 askama_derive/src/generator.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index 6d2283f..03ec14c 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -881,12 +881,11 @@ impl<'a> Generator<'a> {
         let mut expr_buf = Buffer::new(0);
         self.visit_expr(&mut expr_buf, val)?;
 
+        // Need to flush the buffer, to ensure that preceding expressions neither refer to
+        // the new variable instead of the variable or field of the same name it shadows,
+        // nor get evaluated after the value of the new variable.
         let shadowed = self.is_shadowing_variable(&l.var)?;
-        if shadowed {
-            // Need to flush the buffer if the variable is being shadowed,
-            // to ensure the old variable is used.
-            self.write_buf_writable(buf)?;
-        }
+        self.write_buf_writable(buf)?;
         if shadowed
             || !matches!(l.var, Target::Name(_))
             || matches!(&l.var, Target::Name(name) if self.locals.get(&Cow::Borrowed(name)).is_none())
-- 
2.43.0


From 5e534e0d78663ecbd8e768a46a461dbe737e8cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:47 +0000
Subject: [PATCH 07/42] fix: deferred initialization of variables named like
 Rust keywords

---
 askama_derive/src/generator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index 03ec14c..a933356 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -888,7 +888,7 @@ impl<'a> Generator<'a> {
         self.write_buf_writable(buf)?;
         if shadowed
             || !matches!(l.var, Target::Name(_))
-            || matches!(&l.var, Target::Name(name) if self.locals.get(&Cow::Borrowed(name)).is_none())
+            || matches!(&l.var, Target::Name(name) if self.locals.get(&Cow::Borrowed(normalize_identifier(name))).is_none())
         {
             buf.write("let ");
         }
-- 
2.43.0


From 56fee323ff873e22e66c708bcb3926e662464064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:48 +0000
Subject: [PATCH 08/42] fix: do not resolve variables of a block in the scope
 of its parent

The expressions at the end of a block were written after the scope of the
block was left, unless the block declared a variable.
---
 askama_derive/src/generator.rs | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index a933356..0952447 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -972,14 +972,11 @@ impl<'a> Generator<'a> {
         child.prepare_ws(def.ws1);
 
         child.super_block = Some(cur);
-        let size_hint = child.handle(&child_ctx, &def.nodes, buf, AstLevel::Block)?;
-
-        if !child.locals.is_current_empty() {
-            // Need to flush the buffer before popping the variable stack
-            child.write_buf_writable(buf)?;
-        }
+        let mut size_hint = child.handle(&child_ctx, &def.nodes, buf, AstLevel::Block)?;
 
         child.flush_ws(def.ws2);
+        // Need to flush the buffer before popping the variable stack
+        size_hint += child.write_buf_writable(buf)?;
         self.buf_writable = child.buf_writable;
 
         // Restore original block context and set whitespace suppression for
@@ -1943,10 +1940,6 @@ where
             .or_else(|| self.parent.and_then(|set| set.get(key)))
     }
 
-    fn is_current_empty(&self) -> bool {
-        self.scopes.last().unwrap().is_empty()
-    }
-
     fn insert(&mut self, key: K, val: V) {
         self.scopes.last_mut().unwrap().insert(key, val);
 
-- 
2.43.0


From a40dee339511a5e8c2da91d63f700a303abed60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:34 +0000
Subject: [PATCH 09/42] fix: keep variables of blocks and included templates in
 their own scope

---
 askama_derive/src/generator.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index 0952447..000ffae 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -826,8 +826,11 @@ impl<'a> Generator<'a> {
         let locals = MapChain::with_parent(&self.locals);
         let mut child = Self::new(self.input, self.contexts, heritage.as_ref(), locals);
         child.buf_writable.discard = self.buf_writable.discard;
+        // Variables of the included template must not shadow variables of this template.
+        buf.writeln("{")?;
         let mut size_hint = child.handle(handle_ctx, handle_ctx.nodes, buf, AstLevel::Top)?;
         size_hint += child.write_buf_writable(buf)?;
+        buf.writeln("}")?;
         self.prepare_ws(i.ws);
 
         Ok(size_hint)
@@ -972,11 +975,14 @@ impl<'a> Generator<'a> {
         child.prepare_ws(def.ws1);
 
         child.super_block = Some(cur);
+        // Variables of the block must not shadow variables of its parent.
+        buf.writeln("{")?;
         let mut size_hint = child.handle(&child_ctx, &def.nodes, buf, AstLevel::Block)?;
 
         child.flush_ws(def.ws2);
         // Need to flush the buffer before popping the variable stack
         size_hint += child.write_buf_writable(buf)?;
+        buf.writeln("}")?;
         self.buf_writable = child.buf_writable;
 
         // Restore original block context and set whitespace suppression for
-- 
2.43.0


From 887448502c663810b7c5ff27c29f22b977b7ed49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:19 +0000
Subject: [PATCH 10/42] fix: write the content of filter blocks into a buffer
 of its own

Control flow inside a filter block escaped the filter or ended up out of
order, and an empty filter block dropped the output preceding it.
---
 askama_derive/src/generator.rs | 51 +++++++++++++---------------------
 1 file changed, 20 insertions(+), 31 deletions(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index 000ffae..b0785bf 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -711,6 +711,7 @@ impl<'a> Generator<'a> {
         filter: &'a FilterBlock<'_>,
     ) -> Result<usize, CompileError> {
         self.flush_ws(filter.ws1);
+        let mut size_hint = self.write_buf_writable(buf)?;
         let mut var_name = String::new();
         for id in 0.. {
             var_name = format!("__filter_block{id}");
@@ -719,36 +720,27 @@ impl<'a> Generator<'a> {
                 break;
             }
         }
-        let current_buf = mem::take(&mut self.buf_writable.buf);
+        // We don't forget to add the created variable into the list of variables in the scope.
+        self.locals
+            .insert(Cow::Owned(var_name.clone()), LocalMeta::initialized());
+
+        // The content of the block gets written into its own buffer.
+        buf.writeln(&format!(
+            "let mut {var_name} = ::std::string::String::new();"
+        ))?;
+        buf.writeln(&format!("let {var_name}_writer = &mut *writer;"))?;
+        buf.writeln(&format!(
+            "let writer: &mut dyn ::std::fmt::Write = &mut {var_name};"
+        ))?;
 
         self.prepare_ws(filter.ws1);
-        let mut size_hint = self.handle(ctx, &filter.nodes, buf, AstLevel::Nested)?;
+        size_hint += self.handle(ctx, &filter.nodes, buf, AstLevel::Nested)?;
         self.flush_ws(filter.ws2);
+        size_hint += self.write_buf_writable(buf)?;
 
-        let WriteParts {
-            size_hint: write_size_hint,
-            buffers,
-        } = self.prepare_format(buf.indent + 1)?;
-        size_hint += match buffers {
-            None => return Ok(0),
-            Some(WritePartsBuffers { format, expr: None }) => {
-                buf.writeln(&format!("let {var_name} = {:#?};", &format.buf))?;
-                write_size_hint
-            }
-            Some(WritePartsBuffers {
-                format,
-                expr: Some(expr),
-            }) => {
-                buf.writeln(&format!(
-                    "let {var_name} = format!({:#?}, {});",
-                    &format.buf,
-                    expr.buf.trim(),
-                ))?;
-                write_size_hint
-            }
-        };
-
-        self.buf_writable.buf = current_buf;
+        // An unused `writer` is nothing to warn about: the block may be empty.
+        buf.writeln("let _ = writer;")?;
+        buf.writeln(&format!("let writer = {var_name}_writer;"))?;
 
         let mut filter_buf = Buffer::new(buf.indent);
         let Filter {
@@ -757,18 +749,15 @@ impl<'a> Generator<'a> {
         } = &filter.filters;
         let mut arguments = arguments.clone();
 
-        insert_first_filter_argument(&mut arguments, var_name.clone());
+        insert_first_filter_argument(&mut arguments, var_name);
 
         let wrap = self.visit_filter(&mut filter_buf, filter_name, &arguments)?;
 
         self.buf_writable
             .push(Writable::Generated(filter_buf.buf, wrap));
+        size_hint += self.write_buf_writable(buf)?;
         self.prepare_ws(filter.ws2);
 
-        // We don't forget to add the created variable into the list of variables in the scope.
-        self.locals
-            .insert(Cow::Owned(var_name), LocalMeta::initialized());
-
         Ok(size_hint)
     }
 
-- 
2.43.0


From 4ff05fa6e7965ae7f999d169839da2a52e0ebd29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:54 +0000
Subject: [PATCH 11/42] fix: repeat the evaluation of repeated join filters

---
 askama_derive/src/generator.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index b0785bf..06e597e 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -2040,6 +2040,8 @@ pub(crate) fn is_cacheable(expr: &Expr<'_>) -> bool {
         Expr::Array(args) => args.iter().all(is_cacheable),
         Expr::Attr(lhs, _) => is_cacheable(lhs),
         Expr::Index(lhs, rhs) => is_cacheable(lhs) && is_cacheable(rhs),
+        // The result of `join` can be displayed only once:
+        Expr::Filter(Filter { name: "join", .. }) => false,
         Expr::Filter(Filter { arguments, .. }) => arguments.iter().all(is_cacheable),
         Expr::Unary(_, arg) => is_cacheable(arg),
         Expr::BinOp(_, lhs, rhs) => is_cacheable(lhs) && is_cacheable(rhs),
-- 
2.43.0


From cb78f93f5b62babd6a56f81c603f6c9c8fcd3c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:54 +0000
Subject: [PATCH 12/42] fix: find blocks that are defined inside of filter
 blocks

---
 askama_derive/src/generator.rs | 16 ++++++++++------
 askama_derive/src/heritage.rs  |  3 +++
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index 06e597e..c7ff8b3 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -930,12 +930,16 @@ impl<'a> Generator<'a> {
         let heritage = self
             .heritage
             .ok_or_else(|| CompileError::from("no block ancestors available"))?;
-        let (child_ctx, def) = *heritage.blocks[cur.0].get(cur.1).ok_or_else(|| {
-            CompileError::from(match name {
-                None => format!("no super() block found for block '{}'", cur.0),
-                Some(name) => format!("no block found for name '{name}'"),
-            })
-        })?;
+        let (child_ctx, def) = *heritage
+            .blocks
+            .get(cur.0)
+            .and_then(|blocks| blocks.get(cur.1))
+            .ok_or_else(|| {
+                CompileError::from(match name {
+                    None => format!("no super() block found for block '{}'", cur.0),
+                    Some(name) => format!("no block found for name '{name}'"),
+                })
+            })?;
 
         // We clone the context of the child in order to preserve their macros and imports.
         // But also add all the imports and macros from this template that don't override the
diff --git a/askama_derive/src/heritage.rs b/askama_derive/src/heritage.rs
index 76894cb..301e0c2 100644
--- a/askama_derive/src/heritage.rs
+++ b/askama_derive/src/heritage.rs
@@ -97,6 +97,9 @@ impl Context<'_> {
                             nested.push(&arm.nodes);
                         }
                     }
+                    Node::FilterBlock(f) => {
+                        nested.push(&f.nodes);
+                    }
                     _ => {}
                 }
             }
-- 
2.43.0


From 49fb185f43156f22eb1baf219e499a56ae36d23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:17 +0000
Subject: [PATCH 13/42] fix: report cycles of extended templates of any length
 instead of hanging

---
 askama_derive/src/input.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/askama_derive/src/input.rs b/askama_derive/src/input.rs
index 10b9927..d7cc057 100644
--- a/askama_derive/src/input.rs
+++ b/askama_derive/src/input.rs
@@ -142,14 +142,13 @@ impl TemplateInput<'_> {
                         Node::Extends(extends) if top => {
                             let extends = self.config.find_template(extends.path, Some(&path))?;
                             let dependency_path = (path.clone(), extends.clone());
-                            if path == extends {
-                                // We add the path into the graph to have a better looking error.
-                                dependency_graph.push(dependency_path);
-                                return cyclic_graph_error(&dependency_graph);
-                            } else if dependency_graph.contains(&dependency_path) {
+                            if dependency_graph.contains(&dependency_path) {
                                 return cyclic_graph_error(&dependency_graph);
                             }
                             dependency_graph.push(dependency_path);
+                            if is_reachable(&dependency_graph, &extends, &path) {
+                                return cyclic_graph_error(&dependency_graph);
+                            }
                             add_to_check(extends)?;
                         }
                         Node::Macro(m) if top => {
@@ -433,6 +432,16 @@ const TEXT_TYPES: [(Mime, Mime); 7] = [
     (mime::IMAGE_SVG, mime::IMAGE_SVG),
 ];
 
+/// Returns `true` if there is a path of any length `from` one template `to` another.
+///
+/// There must be no cycle in the `dependency_graph`, except for a path from `to` to `from`.
+fn is_reachable(dependency_graph: &[(Rc<Path>, Rc<Path>)], from: &Path, to: &Path) -> bool {
+    from == to
+        || dependency_graph
+            .iter()
+            .any(|(src, dest)| **src == *from && is_reachable(dependency_graph, dest, to))
+}
+
 fn cyclic_graph_error(dependency_graph: &[(Rc<Path>, Rc<Path>)]) -> Result<(), CompileError> {
     Err(format!(
         "cyclic dependency in graph {:#?}",
-- 
2.43.0


From fe5e64a09d0f53e5e4efdcc87b52e002b9e68b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:41 +0000
Subject: [PATCH 14/42] fix: resolve included templates relative to the
 template that includes them

---
 askama_derive/src/generator.rs | 8 ++++++--
 askama_derive/src/heritage.rs  | 4 +++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index c7ff8b3..9bb6707 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -772,7 +772,7 @@ impl<'a> Generator<'a> {
         let path = self
             .input
             .config
-            .find_template(i.path, Some(&self.input.path))?;
+            .find_template(i.path, Some(ctx.path.unwrap_or(&self.input.path)))?;
 
         // Make sure the compiler understands that the generated code depends on the template file.
         {
@@ -789,7 +789,11 @@ impl<'a> Generator<'a> {
         // We clone the context of the child in order to preserve their macros and imports.
         // But also add all the imports and macros from this template that don't override the
         // child's ones to preserve this template's context.
-        let child_ctx = &mut self.contexts[&path].clone();
+        let child_ctx = &mut self
+            .contexts
+            .get(&path)
+            .ok_or_else(|| CompileError::from(format!("context for {path:?} not found")))?
+            .clone();
         for (name, mac) in &ctx.macros {
             child_ctx.macros.entry(name).or_insert(mac);
         }
diff --git a/askama_derive/src/heritage.rs b/askama_derive/src/heritage.rs
index 301e0c2..20a2885 100644
--- a/askama_derive/src/heritage.rs
+++ b/askama_derive/src/heritage.rs
@@ -38,6 +38,7 @@ type BlockAncestry<'a> = HashMap<&'a str, Vec<(&'a Context<'a>, &'a BlockDef<'a>
 
 #[derive(Default, Clone)]
 pub(crate) struct Context<'a> {
+    pub(crate) path: Option<&'a Path>,
     pub(crate) nodes: &'a [Node<'a>],
     pub(crate) extends: Option<Rc<Path>>,
     pub(crate) blocks: HashMap<&'a str, &'a BlockDef<'a>>,
@@ -48,7 +49,7 @@ pub(crate) struct Context<'a> {
 impl Context<'_> {
     pub(crate) fn new<'n>(
         config: &Config<'_>,
-        path: &Path,
+        path: &'n Path,
         nodes: &'n [Node<'n>],
     ) -> Result<Context<'n>, CompileError> {
         let mut extends = None;
@@ -107,6 +108,7 @@ impl Context<'_> {
         }
 
         Ok(Context {
+            path: Some(path),
             nodes,
             extends,
             blocks,
-- 
2.43.0


From 1a7de292ffa7740d09df2efaf79e75dd796fd7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:50 +0000
Subject: [PATCH 15/42] fix: report recursive macros, includes and blocks
 instead of overflowing the stack

---
 askama_derive/src/generator.rs | 43 ++++++++++++++++++++++++++++++++--
 1 file changed, 41 insertions(+), 2 deletions(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index 9bb6707..4a73552 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -11,8 +11,8 @@ use crate::input::{Source, TemplateInput};
 use crate::{CompileError, CRATE};
 
 use parser::node::{
-    Call, Comment, CondTest, FilterBlock, If, Include, Let, Lit, Loop, Match, Target, Whitespace,
-    Ws,
+    Call, Comment, CondTest, FilterBlock, If, Include, Let, Lit, Loop, Macro, Match, Target,
+    Whitespace, Ws,
 };
 use parser::{Expr, Filter, Node};
 use quote::quote;
@@ -39,6 +39,8 @@ pub(crate) struct Generator<'a> {
     buf_writable: WritableBuffer<'a>,
     // Counter for write! hash named arguments
     named: usize,
+    // What is currently being expanded, in order to detect infinite recursions
+    expansions: Vec<Expansion<'a>>,
 }
 
 impl<'a> Generator<'a> {
@@ -61,6 +63,7 @@ impl<'a> Generator<'a> {
                 ..Default::default()
             },
             named: 0,
+            expansions: Vec::new(),
         }
     }
 
@@ -68,6 +71,7 @@ impl<'a> Generator<'a> {
     pub(crate) fn build(mut self, ctx: &Context<'a>) -> Result<String, CompileError> {
         let mut buf = Buffer::new(0);
 
+        self.begin_expansion(Expansion::Include(Rc::clone(&self.input.path)))?;
         self.impl_template(ctx, &mut buf)?;
         self.impl_display(&mut buf)?;
 
@@ -243,6 +247,20 @@ impl<'a> Generator<'a> {
         ))
     }
 
+    // Macros, included templates and blocks get expanded in place, so they must not be recursive.
+    fn begin_expansion(&mut self, expansion: Expansion<'a>) -> Result<(), CompileError> {
+        if self.expansions.contains(&expansion) {
+            return Err(match expansion {
+                Expansion::Include(path) => format!("template {path:?} includes itself"),
+                Expansion::Macro(name, _) => format!("macro {name:?} calls itself"),
+                Expansion::Block(name, _) => format!("block {name:?} contains itself"),
+            }
+            .into());
+        }
+        self.expansions.push(expansion);
+        Ok(())
+    }
+
     /* Helper methods for handling node types */
 
     fn handle(
@@ -590,6 +608,7 @@ impl<'a> Generator<'a> {
             }
         };
 
+        self.begin_expansion(Expansion::Macro(def.name, *def))?;
         self.flush_ws(ws); // Cannot handle_ws() here: whitespace from macro definition comes first
         self.locals.push();
         self.write_buf_writable(buf)?;
@@ -700,6 +719,7 @@ impl<'a> Generator<'a> {
         size_hint += self.write_buf_writable(buf)?;
         buf.writeln("}")?;
         self.locals.pop();
+        self.expansions.pop();
         self.prepare_ws(ws);
         Ok(size_hint)
     }
@@ -819,6 +839,14 @@ impl<'a> Generator<'a> {
         let locals = MapChain::with_parent(&self.locals);
         let mut child = Self::new(self.input, self.contexts, heritage.as_ref(), locals);
         child.buf_writable.discard = self.buf_writable.discard;
+        // The child has its own macros and blocks.
+        child.expansions = self
+            .expansions
+            .iter()
+            .filter(|expansion| matches!(expansion, Expansion::Include(_)))
+            .cloned()
+            .collect();
+        child.begin_expansion(Expansion::Include(path))?;
         // Variables of the included template must not shadow variables of this template.
         buf.writeln("{")?;
         let mut size_hint = child.handle(handle_ctx, handle_ctx.nodes, buf, AstLevel::Top)?;
@@ -967,6 +995,8 @@ impl<'a> Generator<'a> {
             MapChain::default(),
         );
         child.buf_writable = mem::take(&mut self.buf_writable);
+        child.expansions = mem::take(&mut self.expansions);
+        child.begin_expansion(Expansion::Block(cur.0, cur.1))?;
 
         // Handle inner whitespace suppression spec and process block nodes
         child.prepare_ws(def.ws1);
@@ -981,6 +1011,8 @@ impl<'a> Generator<'a> {
         size_hint += child.write_buf_writable(buf)?;
         buf.writeln("}")?;
         self.buf_writable = child.buf_writable;
+        self.expansions = child.expansions;
+        self.expansions.pop();
 
         // Restore original block context and set whitespace suppression for
         // succeeding whitespace according to the outer WS spec
@@ -2117,6 +2149,13 @@ fn insert_first_filter_argument(args: &mut Vec<Expr<'_>>, var_name: String) {
     }
 }
 
+#[derive(Clone, PartialEq)]
+enum Expansion<'a> {
+    Include(Rc<Path>),
+    Macro(&'a str, *const Macro<'a>),
+    Block(&'a str, usize),
+}
+
 #[derive(Clone, Copy, PartialEq)]
 enum AstLevel {
     Top,
-- 
2.43.0


From e66253384a4ab88636d82a2152841cdbbfba347a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:27 +0000
Subject: [PATCH 16/42] fix: count the depth of chained operators, filters and
 suffixes

The parsed expression nests once per element of the chain, so dropping it
or generating code for it overflowed the stack.
---
 askama_parser/src/expr.rs | 38 +++++++++++++++++++++++++-------------
 askama_parser/src/node.rs |  3 +++
 2 files changed, 28 insertions(+), 13 deletions(-)

diff --git a/askama_parser/src/expr.rs b/askama_parser/src/expr.rs
index 94f7d40..0e74ea8 100644
--- a/askama_parser/src/expr.rs
+++ b/askama_parser/src/expr.rs
@@ -25,12 +25,7 @@ macro_rules! expr_prec_layer {
                 ws(tag($op)),
                 |i| Self::$inner(i, level),
             ))(i)?;
-            Ok((
-                i,
-                right.into_iter().fold(left, |left, (op, right)| {
-                    Self::BinOp(op, Box::new(left), Box::new(right))
-                }),
-            ))
+            Self::fold_binop(i, level, left, right)
         }
     };
     ( $name:ident, $inner:ident, $( $op:expr ),+ ) => {
@@ -41,12 +36,7 @@ macro_rules! expr_prec_layer {
                 ws(alt(($( tag($op) ),+,))),
                 |i| Self::$inner(i, level),
             ))(i)?;
-            Ok((
-                i,
-                right.into_iter().fold(left, |left, (op, right)| {
-                    Self::BinOp(op, Box::new(left), Box::new(right))
-                }),
-            ))
+            Self::fold_binop(i, level, left, right)
         }
     }
 }
@@ -172,6 +162,20 @@ impl<'a> Expr<'a> {
         ))(i)
     }
 
+    fn fold_binop(
+        i: &'a str,
+        mut level: Level,
+        mut left: Self,
+        ops: Vec<(&'a str, Self)>,
+    ) -> ParseResult<'a, Self> {
+        for (op, right) in ops {
+            // Like in `prefix()`: the AST gets deeper with every operator.
+            level = level.nest(i)?.1;
+            left = Self::BinOp(op, Box::new(left), Box::new(right));
+        }
+        Ok((i, left))
+    }
+
     // Keep in sync with `TWO_PLUS_CHAR_OPS`, below
     expr_prec_layer!(or, and, "||");
     expr_prec_layer!(and, compare, "&&");
@@ -184,12 +188,14 @@ impl<'a> Expr<'a> {
     expr_prec_layer!(muldivmod, filtered, "*", "/", "%");
 
     fn filtered(i: &'a str, level: Level) -> ParseResult<'a, Self> {
-        let (_, level) = level.nest(i)?;
+        let (_, mut level) = level.nest(i)?;
         let (i, (obj, filters)) =
             tuple((|i| Self::prefix(i, level), many0(|i| filter(i, level))))(i)?;
 
         let mut res = obj;
         for (fname, args) in filters {
+            // Like in `prefix()`: the AST gets deeper with every filter.
+            level = level.nest(i)?.1;
             res = Self::Filter(Filter {
                 name: fname,
                 arguments: {
@@ -316,6 +322,7 @@ impl<'a> Suffix<'a> {
     fn parse(i: &'a str, level: Level) -> ParseResult<'a, Expr<'a>> {
         let (_, level) = level.nest(i)?;
         let (mut i, mut expr) = Expr::single(i, level)?;
+        let mut depth = level;
         loop {
             let (j, suffix) = opt(alt((
                 Self::attr,
@@ -325,6 +332,11 @@ impl<'a> Suffix<'a> {
                 Self::r#macro,
             )))(i)?;
 
+            if suffix.is_some() {
+                // Like in `prefix()`: the AST gets deeper with every suffix.
+                depth = depth.nest(i)?.1;
+            }
+
             match suffix {
                 Some(Self::Attr(attr)) => expr = Expr::Attr(expr.into(), attr),
                 Some(Self::Index(index)) => expr = Expr::Index(expr.into(), index.into()),
diff --git a/askama_parser/src/node.rs b/askama_parser/src/node.rs
index ceac4a8..ccf94db 100644
--- a/askama_parser/src/node.rs
+++ b/askama_parser/src/node.rs
@@ -616,7 +616,10 @@ impl<'a> FilterBlock<'a> {
             name: filter_name,
             arguments: params.unwrap_or_default(),
         };
+        let mut level = s.level.get();
         for (filter_name, args) in extra_filters {
+            // Like in `Expr::prefix()`: the AST gets deeper with every filter.
+            level = level.nest(i)?.1;
             filters = Filter {
                 name: filter_name,
                 arguments: {
-- 
2.43.0


From 0f3952bc9f514ae5127a644d0bbb713ef581fd4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:38 +0000
Subject: [PATCH 17/42] fix: pass the content of a filter block to its first
 filter

If the first argument of that filter was filtered itself, then the content
was passed to the filter of the argument.
---
 askama_derive/src/generator.rs | 20 ++++++++++++--------
 askama_parser/src/node.rs      |  5 ++++-
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index 4a73552..ad911a2 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -769,7 +769,7 @@ impl<'a> Generator<'a> {
         } = &filter.filters;
         let mut arguments = arguments.clone();
 
-        insert_first_filter_argument(&mut arguments, var_name);
+        set_first_filter_argument(&mut arguments, var_name);
 
         let wrap = self.visit_filter(&mut filter_buf, filter_name, &arguments)?;
 
@@ -2128,7 +2128,9 @@ fn median(sizes: &mut [usize]) -> usize {
 ///                arguments: vec![
 ///                    Filter {
 ///                        name: "a",
-///                        arguments: vec![],
+///                        arguments: vec![
+///                            Generated(""),
+///                        ],
 ///                    }.
 ///                ],
 ///            }
@@ -2139,13 +2141,15 @@ fn median(sizes: &mut [usize]) -> usize {
 /// ```
 ///
 /// So in here, we want to insert the variable containing the content of the filter block inside
-/// the call to `"a"`. To do so, we recursively go through all `Filter` and finally insert our
+/// the call to `"a"`. To do so, we recursively go through all `Filter` and finally set our
 /// variable as the first argument to the `"a"` call.
-fn insert_first_filter_argument(args: &mut Vec<Expr<'_>>, var_name: String) {
-    if let Some(Expr::Filter(Filter { arguments, .. })) = args.first_mut() {
-        insert_first_filter_argument(arguments, var_name);
-    } else {
-        args.insert(0, Expr::Generated(var_name));
+fn set_first_filter_argument(args: &mut [Expr<'_>], var_name: String) {
+    match args.first_mut() {
+        Some(Expr::Filter(Filter { arguments, .. })) => {
+            set_first_filter_argument(arguments, var_name);
+        }
+        Some(Expr::Generated(name)) => *name = var_name,
+        _ => unreachable!("the parser inserts an `Expr::Generated` for the content of the block"),
     }
 }
 
diff --git a/askama_parser/src/node.rs b/askama_parser/src/node.rs
index ccf94db..117565a 100644
--- a/askama_parser/src/node.rs
+++ b/askama_parser/src/node.rs
@@ -612,9 +612,12 @@ impl<'a> FilterBlock<'a> {
         ));
         let (i, (pws1, _, (filter_name, params, extra_filters, _, nws1, _))) = start(i)?;
 
+        // The first argument of the first filter is the content of the block.
+        let mut arguments = params.unwrap_or_default();
+        arguments.insert(0, Expr::Generated(String::new()));
         let mut filters = Filter {
             name: filter_name,
-            arguments: params.unwrap_or_default(),
+            arguments,
         };
         let mut level = s.level.get();
         for (filter_name, args) in extra_filters {
-- 
2.43.0


From 349e7b1549349acaf56dc7f8daa5001024d3ffdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:10 +0000
Subject: [PATCH 18/42] fix: do not capture variables of the caller in macros

Parameters are bound to the arguments at once, and variables declared in
the macro do not replace the variables that were passed as arguments.
---
 askama_derive/src/generator.rs | 116 ++++++++++++++++++++++-----------
 1 file changed, 77 insertions(+), 39 deletions(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index ad911a2..6827dd4 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -615,9 +615,10 @@ impl<'a> Generator<'a> {
         buf.writeln("{")?;
         self.prepare_ws(def.ws1);
 
-        let mut names = Buffer::new(0);
-        let mut values = Buffer::new(0);
-        let mut is_first_variable = true;
+        // Do not add the parameters to the scope before all arguments were resolved:
+        // an argument may have the same name as another parameter.
+        let mut params = Vec::new();
+        let mut values = Vec::new();
         if args.len() != def.args.len() {
             return Err(CompileError::from(format!(
                 "macro {name:?} expected {} argument{}, found {}",
@@ -670,47 +671,52 @@ impl<'a> Generator<'a> {
                     &args[index]
                 }
             };
+            let param = normalize_identifier(arg);
             match expr {
                 // If `expr` is already a form of variable then
                 // don't reintroduce a new variable. This is
                 // to avoid moving non-copyable values.
                 &Expr::Var(name) if name != "self" => {
                     let var = self.locals.resolve_or_self(name);
-                    self.locals
-                        .insert(Cow::Borrowed(arg), LocalMeta::with_ref(var));
+                    params.push((param, LocalMeta::with_ref(var)));
                 }
                 Expr::Attr(obj, attr) => {
                     let mut attr_buf = Buffer::new(0);
                     self.visit_attr(&mut attr_buf, obj, attr)?;
 
+                    if attr_buf.buf.contains("_loop_item") {
+                        // The macro may contain a loop itself.
+                        values.push((param, attr_buf.buf));
+                        continue;
+                    }
                     let var = self.locals.resolve(&attr_buf.buf).unwrap_or(attr_buf.buf);
-                    self.locals
-                        .insert(Cow::Borrowed(arg), LocalMeta::with_ref(var));
+                    params.push((param, LocalMeta::with_ref(var)));
                 }
                 // Everything else still needs to become variables,
                 // to avoid having the same logic be executed
                 // multiple times, e.g. in the case of macro
                 // parameters being used multiple times.
-                _ => {
-                    if is_first_variable {
-                        is_first_variable = false
-                    } else {
-                        names.write(", ");
-                        values.write(", ");
-                    }
-                    names.write(arg);
-
-                    values.write("(");
-                    values.write(&self.visit_expr_root(expr)?);
-                    values.write(")");
-                    self.locals.insert_with_default(Cow::Borrowed(arg));
-                }
+                _ => values.push((param, self.visit_expr_root(expr)?)),
             }
         }
 
-        debug_assert_eq!(names.buf.is_empty(), values.buf.is_empty());
-        if !names.buf.is_empty() {
-            buf.writeln(&format!("let ({}) = ({});", names.buf, values.buf))?;
+        for (param, meta) in params {
+            self.locals.insert(Cow::Borrowed(param), meta);
+        }
+        if !values.is_empty() {
+            let mut names = Vec::new();
+            for (param, _) in &values {
+                names.push(self.declare_variable(param, true));
+            }
+            let values: Vec<_> = values
+                .into_iter()
+                .map(|(_, value)| format!("({value})"))
+                .collect();
+            buf.writeln(&format!(
+                "let ({}) = ({});",
+                names.join(", "),
+                values.join(", ")
+            ))?;
         }
 
         let mut size_hint = self.handle(own_ctx, &def.nodes, buf, AstLevel::Nested)?;
@@ -1730,14 +1736,8 @@ impl<'a> Generator<'a> {
                 buf.write("_");
             }
             Target::Name(name) => {
-                let name = normalize_identifier(name);
-                match initialized {
-                    true => self
-                        .locals
-                        .insert(Cow::Borrowed(name), LocalMeta::initialized()),
-                    false => self.locals.insert_with_default(Cow::Borrowed(name)),
-                }
-                buf.write(name);
+                let name = self.declare_variable(normalize_identifier(name), initialized);
+                buf.write(&name);
             }
             Target::OrChain(targets) => match targets.first() {
                 None => buf.write("_"),
@@ -1799,6 +1799,25 @@ impl<'a> Generator<'a> {
         }
     }
 
+    // Adds a variable to the current scope, and returns its name in the generated code.
+    //
+    // The name differs if a parameter of the current macro refers to a variable of the caller
+    // that has the same name. Otherwise the parameter would change its meaning.
+    fn declare_variable(&mut self, name: &'a str, initialized: bool) -> String {
+        let refs = match self.locals.get(&Cow::Borrowed(name)) {
+            // initializes a variable that was introduced in a LetDecl before
+            Some(meta) if !meta.initialized => meta.refs.clone(),
+            _ if self.locals.is_referenced(name, name) => (0..)
+                .map(|id| format!("__{}_{id}", name.trim_start_matches("r#")))
+                .find(|new_name| !self.locals.is_referenced(name, new_name)),
+            _ => None,
+        };
+        let new_name = refs.as_deref().unwrap_or(name).to_string();
+        self.locals
+            .insert(Cow::Borrowed(name), LocalMeta { refs, initialized });
+        new_name
+    }
+
     /* Helper methods for dealing with whitespace nodes */
 
     // Combines `flush_ws()` and `prepare_ws()` to handle both trailing whitespace from the
@@ -1985,13 +2004,6 @@ where
         // compile error "identifier `a` used more than once".
     }
 
-    fn insert_with_default(&mut self, key: K)
-    where
-        V: Default,
-    {
-        self.insert(key, V::default());
-    }
-
     fn push(&mut self) {
         self.scopes.push(HashMap::new());
     }
@@ -2011,6 +2023,20 @@ impl MapChain<'_, Cow<'_, str>, LocalMeta> {
         })
     }
 
+    /// Returns `true` if a variable other than `name` is an alias of the expression `refs`,
+    /// or of one of its fields.
+    fn is_referenced(&self, name: &str, refs: &str) -> bool {
+        self.scopes
+            .iter()
+            .flatten()
+            .filter(|(key, _)| *key != name)
+            .filter_map(|(_, meta)| meta.refs.as_deref())
+            .any(|expr| is_variable_used(expr, refs))
+            || self
+                .parent
+                .map_or(false, |parent| parent.is_referenced(name, refs))
+    }
+
     fn resolve_or_self(&self, name: &str) -> String {
         let name = normalize_identifier(name);
         self.resolve(name).unwrap_or_else(|| format!("self.{name}"))
@@ -2026,6 +2052,18 @@ impl<K: Eq + hash::Hash, V> Default for MapChain<'_, K, V> {
     }
 }
 
+/// Returns `true` if a variable is used in the generated code of an expression.
+fn is_variable_used(code: &str, variable: &str) -> bool {
+    let is_part_of_name = |c: char| c.is_alphanumeric() || matches!(c, '_' | '#');
+    code.match_indices(variable).any(|(start, _)| {
+        let before = &code[..start];
+        let after = &code[start + variable.len()..];
+        !before.ends_with(is_part_of_name)
+            && !before.ends_with('.')
+            && !after.starts_with(is_part_of_name)
+    })
+}
+
 /// Returns `true` if enough assumptions can be made,
 /// to determine that `self` is copyable.
 fn is_copyable(expr: &Expr<'_>) -> bool {
-- 
2.43.0


From 82e0488351a82a59c25167e1d288c872eba22b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:07 +0000
Subject: [PATCH 19/42] fix: report values that cannot be displayed in filters
 instead of panicking

---
 askama/src/filters/mod.rs | 63 ++++++++++++++++++++++-----------------
 1 file changed, 35 insertions(+), 28 deletions(-)

diff --git a/askama/src/filters/mod.rs b/askama/src/filters/mod.rs
index 356562e..0428a7a 100644
--- a/askama/src/filters/mod.rs
+++ b/askama/src/filters/mod.rs
@@ -219,21 +219,21 @@ pub fn format() {}
 /// A single newline becomes an HTML line break `<br>` and a new line
 /// followed by a blank line becomes a paragraph break `<p>`.
 #[inline]
-pub fn linebreaks(s: impl ToString) -> Result<impl fmt::Display, Infallible> {
-    fn linebreaks(s: String) -> Result<String, Infallible> {
+pub fn linebreaks(s: impl fmt::Display) -> Result<impl fmt::Display, fmt::Error> {
+    fn linebreaks(s: String) -> Result<String, fmt::Error> {
         let linebroken = s.replace("\n\n", "</p><p>").replace('\n', "<br/>");
         Ok(format!("<p>{linebroken}</p>"))
     }
-    linebreaks(s.to_string())
+    linebreaks(try_to_string(s)?)
 }
 
 /// Converts all newlines in a piece of plain text to HTML line breaks
 #[inline]
-pub fn linebreaksbr(s: impl ToString) -> Result<impl fmt::Display, Infallible> {
-    fn linebreaksbr(s: String) -> Result<String, Infallible> {
+pub fn linebreaksbr(s: impl fmt::Display) -> Result<impl fmt::Display, fmt::Error> {
+    fn linebreaksbr(s: String) -> Result<String, fmt::Error> {
         Ok(s.replace('\n', "<br/>"))
     }
-    linebreaksbr(s.to_string())
+    linebreaksbr(try_to_string(s)?)
 }
 
 /// Replaces only paragraph breaks in plain text with appropriate HTML
@@ -242,8 +242,8 @@ pub fn linebreaksbr(s: impl ToString) -> Result<impl fmt::Display, Infallible> {
 /// Paragraph tags only wrap content; empty paragraphs are removed.
 /// No `<br/>` tags are added.
 #[inline]
-pub fn paragraphbreaks(s: impl ToString) -> Result<impl fmt::Display, Infallible> {
-    fn paragraphbreaks(s: String) -> Result<String, Infallible> {
+pub fn paragraphbreaks(s: impl fmt::Display) -> Result<impl fmt::Display, fmt::Error> {
+    fn paragraphbreaks(s: String) -> Result<String, fmt::Error> {
         let mut linebroken = String::with_capacity(s.len());
         for paragraph in s.split("\n\n").filter(|s| !s.is_empty()) {
             linebroken.push_str("<p>");
@@ -252,36 +252,36 @@ pub fn paragraphbreaks(s: impl ToString) -> Result<impl fmt::Display, Infallible
         }
         Ok(linebroken)
     }
-    paragraphbreaks(s.to_string())
+    paragraphbreaks(try_to_string(s)?)
 }
 
 /// Converts to lowercase
 #[inline]
-pub fn lower(s: impl ToString) -> Result<impl fmt::Display, Infallible> {
-    fn lower(s: String) -> Result<String, Infallible> {
+pub fn lower(s: impl fmt::Display) -> Result<impl fmt::Display, fmt::Error> {
+    fn lower(s: String) -> Result<String, fmt::Error> {
         Ok(s.to_lowercase())
     }
-    lower(s.to_string())
+    lower(try_to_string(s)?)
 }
 
 /// Alias for the `lower()` filter
 #[inline]
-pub fn lowercase(s: impl ToString) -> Result<impl fmt::Display, Infallible> {
+pub fn lowercase(s: impl fmt::Display) -> Result<impl fmt::Display, fmt::Error> {
     lower(s)
 }
 
 /// Converts to uppercase
 #[inline]
-pub fn upper(s: impl ToString) -> Result<impl fmt::Display, Infallible> {
-    fn upper(s: String) -> Result<String, Infallible> {
+pub fn upper(s: impl fmt::Display) -> Result<impl fmt::Display, fmt::Error> {
+    fn upper(s: String) -> Result<String, fmt::Error> {
         Ok(s.to_uppercase())
     }
-    upper(s.to_string())
+    upper(try_to_string(s)?)
 }
 
 /// Alias for the `upper()` filter
 #[inline]
-pub fn uppercase(s: impl ToString) -> Result<impl fmt::Display, Infallible> {
+pub fn uppercase(s: impl fmt::Display) -> Result<impl fmt::Display, fmt::Error> {
     upper(s)
 }
 
@@ -380,8 +380,8 @@ impl<S: fmt::Display> fmt::Display for TruncateFilter<S> {
 
 /// Indent lines with `width` spaces
 #[inline]
-pub fn indent(s: impl ToString, width: usize) -> Result<impl fmt::Display, Infallible> {
-    fn indent(s: String, width: usize) -> Result<String, Infallible> {
+pub fn indent(s: impl fmt::Display, width: usize) -> Result<impl fmt::Display, fmt::Error> {
+    fn indent(s: String, width: usize) -> Result<String, fmt::Error> {
         if width >= MAX_LEN || s.len() >= MAX_LEN {
             return Ok(s);
         }
@@ -397,7 +397,7 @@ pub fn indent(s: impl ToString, width: usize) -> Result<impl fmt::Display, Infal
         }
         Ok(indented)
     }
-    indent(s.to_string(), width)
+    indent(try_to_string(s)?, width)
 }
 
 #[cfg(feature = "num-traits")]
@@ -475,8 +475,8 @@ where
 
 /// Capitalize a value. The first character will be uppercase, all others lowercase.
 #[inline]
-pub fn capitalize(s: impl ToString) -> Result<impl fmt::Display, Infallible> {
-    fn capitalize(s: String) -> Result<String, Infallible> {
+pub fn capitalize(s: impl fmt::Display) -> Result<impl fmt::Display, fmt::Error> {
+    fn capitalize(s: String) -> Result<String, fmt::Error> {
         match s.chars().next() {
             Some(c) => {
                 let mut replacement: String = c.to_uppercase().collect();
@@ -486,7 +486,7 @@ pub fn capitalize(s: impl ToString) -> Result<impl fmt::Display, Infallible> {
             _ => Ok(s),
         }
     }
-    capitalize(s.to_string())
+    capitalize(try_to_string(s)?)
 }
 
 /// Centers the value in a field of a given width
@@ -512,18 +512,18 @@ impl<T: fmt::Display> fmt::Display for Center<T> {
 
 /// Count the words in that string.
 #[inline]
-pub fn wordcount(s: impl ToString) -> Result<usize, Infallible> {
-    fn wordcount(s: String) -> Result<usize, Infallible> {
+pub fn wordcount(s: impl fmt::Display) -> Result<usize, fmt::Error> {
+    fn wordcount(s: String) -> Result<usize, fmt::Error> {
         Ok(s.split_whitespace().count())
     }
-    wordcount(s.to_string())
+    wordcount(try_to_string(s)?)
 }
 
 /// Return a title cased version of the value. Words will start with uppercase letters, all
 /// remaining characters are lowercase.
 #[inline]
-pub fn title(s: impl ToString) -> Result<String, Infallible> {
-    let s = s.to_string();
+pub fn title(s: impl fmt::Display) -> Result<String, fmt::Error> {
+    let s = try_to_string(s)?;
     let mut need_capitalization = true;
 
     // Sadly enough, we can't mutate a string when iterating over its chars, likely because it could
@@ -549,6 +549,13 @@ pub fn title(s: impl ToString) -> Result<String, Infallible> {
     Ok(output)
 }
 
+// Like `ToString::to_string()`, but does not panic if the value cannot be displayed.
+fn try_to_string(s: impl fmt::Display) -> Result<String, fmt::Error> {
+    let mut result = String::new();
+    write!(result, "{s}")?;
+    Ok(result)
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From e10027d71f7018a66a896ab9076aef54dbc567e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:20 +0000
Subject: [PATCH 20/42] fix: minimize whitespace if only the tag before it asks
 for it

---
 askama_derive/src/generator.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index 6827dd4..ff3b9c0 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -33,6 +33,8 @@ pub(crate) struct Generator<'a> {
     // Whitespace suppression from the previous non-literal. Will be used to
     // determine whether to flush prefix whitespace from the next literal.
     skip_ws: WhitespaceHandling,
+    // Whether `skip_ws` is an inline `~`, which has precedence over `+` and the configuration.
+    skip_ws_minimize: bool,
     // If currently in a block, this will contain the name of a potential parent block
     super_block: Option<(&'a str, usize)>,
     // Buffer for writable
@@ -57,6 +59,7 @@ impl<'a> Generator<'a> {
             locals,
             next_ws: None,
             skip_ws: WhitespaceHandling::Preserve,
+            skip_ws_minimize: false,
             super_block: None,
             buf_writable: WritableBuffer {
                 discard: input.block.is_some(),
@@ -1202,6 +1205,7 @@ impl<'a> Generator<'a> {
 
         if !val.is_empty() {
             self.skip_ws = WhitespaceHandling::Preserve;
+            self.skip_ws_minimize = false;
             self.buf_writable.push(Writable::Lit(val));
         }
 
@@ -1847,13 +1851,13 @@ impl<'a> Generator<'a> {
         // If `whitespace` is set to `suppress`, we keep the whitespace characters only if there is
         // a `+` character.
         match self.should_trim_ws(ws.0) {
-            WhitespaceHandling::Preserve => {
+            WhitespaceHandling::Preserve if !self.skip_ws_minimize => {
                 let val = self.next_ws.unwrap();
                 if !val.is_empty() {
                     self.buf_writable.push(Writable::Lit(val));
                 }
             }
-            WhitespaceHandling::Minimize => {
+            WhitespaceHandling::Preserve | WhitespaceHandling::Minimize => {
                 let val = self.next_ws.unwrap();
                 if !val.is_empty() {
                     self.buf_writable
@@ -1873,6 +1877,7 @@ impl<'a> Generator<'a> {
     // next literal.
     fn prepare_ws(&mut self, ws: Ws) {
         self.skip_ws = self.should_trim_ws(ws.1);
+        self.skip_ws_minimize = matches!(ws.1, Some(Whitespace::Minimize));
     }
 }
 
-- 
2.43.0


From 4103fed3044293e57adb24575a8973bb2a306df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:58 +0000
Subject: [PATCH 21/42] fix: block fragments do not fail because of the code of
 other blocks

The indentation was tracked for discarded code as well, so a template was
rejected if blocks that are not rendered contain a few `else` branches.
---
 askama_derive/src/generator.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index ff3b9c0..c95b649 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -1934,10 +1934,16 @@ impl Buffer {
     }
 
     fn indent(&mut self) {
+        if self.discard {
+            return;
+        }
         self.indent += 1;
     }
 
     fn dedent(&mut self) -> Result<(), CompileError> {
+        if self.discard {
+            return Ok(());
+        }
         if self.indent == 0 {
             return Err("dedent() called while indentation == 0".into());
         }
-- 
2.43.0


From 5569178f384a28cd81c107feead68aa617c00f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:57 +0000
Subject: [PATCH 22/42] fix: center values that do not pad themselves

The width was passed on to the `Display` implementation of the value, but
e.g. results of other filters do not regard it.
---
 askama/src/filters/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/askama/src/filters/mod.rs b/askama/src/filters/mod.rs
index 0428a7a..434100a 100644
--- a/askama/src/filters/mod.rs
+++ b/askama/src/filters/mod.rs
@@ -503,7 +503,8 @@ struct Center<T> {
 impl<T: fmt::Display> fmt::Display for Center<T> {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         if self.width < MAX_LEN {
-            write!(f, "{: ^1$}", self.src, self.width)
+            // Most implementations of `Display` do not regard the width.
+            write!(f, "{: ^1$}", try_to_string(&self.src)?, self.width)
         } else {
             write!(f, "{}", self.src)
         }
-- 
2.43.0


From b7ffaba3590d9c85a4c892d82dd1394209f7cb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:23 +0000
Subject: [PATCH 23/42] fix: filesizeformat of values that are larger than any
 unit

---
 askama/src/filters/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/askama/src/filters/mod.rs b/askama/src/filters/mod.rs
index 434100a..fe2432b 100644
--- a/askama/src/filters/mod.rs
+++ b/askama/src/filters/mod.rs
@@ -16,7 +16,7 @@ pub use self::json::json;
 
 use askama_escape::{Escaper, MarkupDisplay};
 #[cfg(feature = "humansize")]
-use humansize::{ISizeFormatter, ToF64, DECIMAL};
+use humansize::{FixedAt, ISizeFormatter, ToF64, DECIMAL};
 #[cfg(feature = "num-traits")]
 use num_traits::{cast::NumCast, Signed};
 #[cfg(feature = "urlencode")]
@@ -117,7 +117,12 @@ struct FilesizeFormatFilter(f64);
 #[cfg(feature = "humansize")]
 impl fmt::Display for FilesizeFormatFilter {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
-        f.write_fmt(format_args!("{}", ISizeFormatter::new(self.0, &DECIMAL)))
+        // There is no unit after yottabyte that `humansize` could select.
+        let options = match self.0.abs() >= 1e26 {
+            true => DECIMAL.fixed_at(Some(FixedAt::Yotta)),
+            false => DECIMAL,
+        };
+        f.write_fmt(format_args!("{}", ISizeFormatter::new(self.0, &options)))
     }
 }
 
-- 
2.43.0


From 779cb4cb90b8a7db25f3a233154b370c2e4c80f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:59 +0000
Subject: [PATCH 24/42] fix: overflow of the size hint of nested loops

---
 askama_derive/src/generator.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index c95b649..78cffb1 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -569,7 +569,9 @@ impl<'a> Generator<'a> {
         buf.writeln("}")?;
         self.locals.pop();
 
-        Ok(flushed + ((size_hint1 * 3) + size_hint2) / 2)
+        // The hints of nested loops grow exponentially
+        let size_hint = size_hint1.saturating_mul(3).saturating_add(size_hint2) / 2;
+        Ok(flushed + size_hint.min(MAX_LOOP_SIZE_HINT))
     }
 
     fn write_call(
@@ -2251,6 +2253,9 @@ enum Writable<'a> {
     Generated(String, DisplayWrap),
 }
 
+/// The hint of a loop is never larger than this, so that the sum of all hints does not overflow
+const MAX_LOOP_SIZE_HINT: usize = 1 << 26;
+
 struct WriteParts {
     size_hint: usize,
     buffers: Option<WritePartsBuffers>,
-- 
2.43.0


From b32353370114dda4963802d8467533cbad10c66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:06 +0000
Subject: [PATCH 25/42] fix: overflow of the indentation of deeply nested code

---
 askama_derive/src/generator.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index 78cffb1..fa858da 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -1071,7 +1071,7 @@ impl<'a> Generator<'a> {
     /// This is the common code to generate an expression. It is used for filter blocks and for
     /// expressions more generally. It stores the size it represents and the buffers. Take a look
     /// at `WriteParts` for more details.
-    fn prepare_format(&mut self, indent: u8) -> Result<WriteParts, CompileError> {
+    fn prepare_format(&mut self, indent: usize) -> Result<WriteParts, CompileError> {
         if self.buf_writable.is_empty() {
             return Ok(WriteParts {
                 size_hint: 0,
@@ -1887,14 +1887,14 @@ struct Buffer {
     // The buffer to generate the code into
     buf: String,
     // The current level of indentation (in spaces)
-    indent: u8,
+    indent: usize,
     // Whether the output buffer is currently at the start of a line
     start: bool,
     discard: bool,
 }
 
 impl Buffer {
-    fn new(indent: u8) -> Self {
+    fn new(indent: usize) -> Self {
         Self {
             buf: String::new(),
             indent,
-- 
2.43.0


From 41f7ba89ecbbfa933fec22616fa6e4d88b0ad812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:55 +0000
Subject: [PATCH 26/42] fix: loops over arrays and iterators that borrow from
 temporaries

---
 askama_derive/src/generator.rs | 38 ++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index fa858da..e2d72c4 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -506,33 +506,33 @@ impl<'a> Generator<'a> {
         if has_else_nodes {
             buf.writeln("let mut _did_loop = false;")?;
         }
-        match loop_block.iter {
-            Expr::Range(_, _, _) => buf.writeln(&format!("let _iter = {expr_code};")),
-            Expr::Array(..) => buf.writeln(&format!("let _iter = {expr_code}.iter();")),
+        let iter_code = match loop_block.iter {
+            Expr::Range(_, _, _) => format!("({expr_code})"),
+            Expr::Array(..) => format!("{expr_code}.iter()"),
             // If `iter` is a call then we assume it's something that returns
             // an iterator. If not then the user can explicitly add the needed
             // call without issues.
-            Expr::Call(..) | Expr::Index(..) => {
-                buf.writeln(&format!("let _iter = ({expr_code}).into_iter();"))
-            }
+            Expr::Call(..) | Expr::Index(..) => format!("({expr_code}).into_iter()"),
             // If accessing `self` then it most likely needs to be
             // borrowed, to prevent an attempt of moving.
-            _ if expr_code.starts_with("self.") => {
-                buf.writeln(&format!("let _iter = (&{expr_code}).into_iter();"))
-            }
+            _ if expr_code.starts_with("self.") => format!("(&{expr_code}).into_iter()"),
             // If accessing a field then it most likely needs to be
             // borrowed, to prevent an attempt of moving.
-            Expr::Attr(..) => buf.writeln(&format!("let _iter = (&{expr_code}).into_iter();")),
+            Expr::Attr(..) => format!("(&{expr_code}).into_iter()"),
             // Otherwise, we borrow `iter` assuming that it implements `IntoIterator`.
-            _ => buf.writeln(&format!("let _iter = ({expr_code}).into_iter();")),
-        }?;
+            _ => format!("({expr_code}).into_iter()"),
+        };
+
+        // The iterator is made in the head of the loop, because it may borrow from temporaries.
+        let mut iter_buf = Buffer::new(0);
+        iter_buf.write(&iter_code);
         if let Some(cond) = &loop_block.cond {
             self.locals.push();
-            buf.write("let _iter = _iter.filter(|");
-            self.visit_target(buf, true, true, &loop_block.var);
-            buf.write("| -> bool {");
-            self.visit_expr(buf, cond)?;
-            buf.writeln("});")?;
+            iter_buf.write(".filter(|");
+            self.visit_target(&mut iter_buf, true, true, &loop_block.var);
+            iter_buf.write("| -> bool {");
+            self.visit_expr(&mut iter_buf, cond)?;
+            iter_buf.write("})");
             self.locals.pop();
         }
 
@@ -541,7 +541,9 @@ impl<'a> Generator<'a> {
         self.visit_target(buf, true, true, &loop_block.var);
         buf.write(", _loop_item) in ");
         buf.write(CRATE);
-        buf.writeln("::helpers::TemplateLoop::new(_iter) {")?;
+        buf.write("::helpers::TemplateLoop::new(");
+        buf.write(&iter_buf.buf);
+        buf.writeln(") {")?;
 
         if has_else_nodes {
             buf.writeln("_did_loop = true;")?;
-- 
2.43.0


From d42f8ba03db52e037877aafae614ba9a4fa8a43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:19 +0000
Subject: [PATCH 27/42] fix: filesizeformat of values that are not variables

---
 askama/src/filters/mod.rs | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/askama/src/filters/mod.rs b/askama/src/filters/mod.rs
index fe2432b..2ea1215 100644
--- a/askama/src/filters/mod.rs
+++ b/askama/src/filters/mod.rs
@@ -106,10 +106,37 @@ where
 /// assert_eq!(tmpl.to_string(),  "Filesize: 1.23 MB.");
 /// ```
 #[inline]
-pub fn filesizeformat(b: &impl ToF64) -> Result<impl fmt::Display, Infallible> {
-    Ok(FilesizeFormatFilter(b.to_f64()))
+pub fn filesizeformat(b: impl FileSize) -> Result<impl fmt::Display, Infallible> {
+    Ok(FilesizeFormatFilter(b.file_size()))
 }
 
+/// A number, or a reference to a number, that [`filesizeformat`] can display
+#[cfg(feature = "humansize")]
+pub trait FileSize {
+    fn file_size(&self) -> f64;
+}
+
+#[cfg(feature = "humansize")]
+impl<T: FileSize + ?Sized> FileSize for &T {
+    fn file_size(&self) -> f64 {
+        T::file_size(self)
+    }
+}
+
+#[cfg(feature = "humansize")]
+macro_rules! impl_file_size {
+    ($($ty:ty)*) => { $(
+        impl FileSize for $ty {
+            fn file_size(&self) -> f64 {
+                self.to_f64()
+            }
+        }
+    )* };
+}
+
+#[cfg(feature = "humansize")]
+impl_file_size!(usize u8 u16 u32 u64 isize i8 i16 i32 i64 f32 f64);
+
 #[cfg(feature = "humansize")]
 #[derive(Debug, Clone, Copy)]
 struct FilesizeFormatFilter(f64);
-- 
2.43.0


From 41ae37e6f5f0f984af5b4de49b88d3d67a64450f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:31 +0000
Subject: [PATCH 28/42] fix: the result of capitalize can be passed to the fmt
 filter as documented

---
 askama/src/filters/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/askama/src/filters/mod.rs b/askama/src/filters/mod.rs
index 2ea1215..26cb51d 100644
--- a/askama/src/filters/mod.rs
+++ b/askama/src/filters/mod.rs
@@ -507,7 +507,7 @@ where
 
 /// Capitalize a value. The first character will be uppercase, all others lowercase.
 #[inline]
-pub fn capitalize(s: impl fmt::Display) -> Result<impl fmt::Display, fmt::Error> {
+pub fn capitalize(s: impl fmt::Display) -> Result<impl fmt::Display + fmt::Debug, fmt::Error> {
     fn capitalize(s: String) -> Result<String, fmt::Error> {
         match s.chars().next() {
             Some(c) => {
-- 
2.43.0


From 1b8bd55397183aa85b792e7b238f0276c6c54617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:28 +0000
Subject: [PATCH 29/42] fix: report a template attribute without path and
 source as an error

`#[template(ext = "txt")]` made the derive macro panic.
---
 askama_derive/src/input.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/askama_derive/src/input.rs b/askama_derive/src/input.rs
index d7cc057..8a28f45 100644
--- a/askama_derive/src/input.rs
+++ b/askama_derive/src/input.rs
@@ -48,7 +48,7 @@ impl TemplateInput<'_> {
         // of `ext` is merged into a synthetic `path` value here.
         let source = source
             .as_ref()
-            .expect("template path or source not found in attributes");
+            .ok_or("template path or source not found in attributes")?;
         let path = match (&source, &ext) {
             (Source::Path(path), _) => config.find_template(path, None)?,
             (&Source::Source(_), Some(ext)) => {
-- 
2.43.0


From 180c7723159a6beee5c9c37dff847f361935c9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:28 +0000
Subject: [PATCH 30/42] fix: report an attribute key that is a path as an error

A key of `template()` like in `#[template(a::path = "a.html")]` made the
derive macro panic.
---
 askama_derive/src/input.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/askama_derive/src/input.rs b/askama_derive/src/input.rs
index 8a28f45..e12ac12 100644
--- a/askama_derive/src/input.rs
+++ b/askama_derive/src/input.rs
@@ -258,7 +258,13 @@ impl TemplateArgs {
 
             let ident = match pair.path.get_ident() {
                 Some(ident) => ident,
-                None => unreachable!("not possible in syn::Meta::NameValue(…)"),
+                None => {
+                    return Err(format!(
+                        "unsupported attribute key {:?} found",
+                        pair.path.to_token_stream()
+                    )
+                    .into())
+                }
             };
 
             let value = match pair.value {
-- 
2.43.0


From b28aa8a7f2dacf4ceae1b4fed494d6aecb04c017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:34 +0000
Subject: [PATCH 31/42] fix: report generated code that cannot be tokenized as
 an error

E.g. `{{ "\q" }}` or `{{ m!(]) }}` made the derive macro panic.
---
 askama_derive/src/lib.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/askama_derive/src/lib.rs b/askama_derive/src/lib.rs
index e347001..08f9e4d 100644
--- a/askama_derive/src/lib.rs
+++ b/askama_derive/src/lib.rs
@@ -23,8 +23,8 @@ mod tests;
 #[proc_macro_derive(Template, attributes(template))]
 pub fn derive_template(input: TokenStream) -> TokenStream {
     let ast = syn::parse::<syn::DeriveInput>(input).unwrap();
-    match build_template(&ast) {
-        Ok(source) => source.parse().unwrap(),
+    match build_template(&ast).and_then(|source| tokenize(&source)) {
+        Ok(tokens) => tokens.into(),
         Err(e) => {
             let mut e = e.into_compile_error();
             if let Ok(source) = build_skeleton(&ast) {
@@ -36,6 +36,16 @@ pub fn derive_template(input: TokenStream) -> TokenStream {
     }
 }
 
+/// Splits generated source code into tokens
+///
+/// This fails if a part of the template or of the configuration that is copied to the generated
+/// code is not valid Rust, e.g. if a string literal contains an unknown escape sequence.
+fn tokenize(source: &str) -> Result<proc_macro2::TokenStream, CompileError> {
+    source
+        .parse()
+        .map_err(|e| format!("unable to parse the generated code: {e}").into())
+}
+
 fn build_skeleton(ast: &syn::DeriveInput) -> Result<String, CompileError> {
     let template_args = TemplateArgs::fallback();
     let config = Config::new("", None)?;
-- 
2.43.0


From c83a17bb64ec7f6dcce21e03595f0f2da74bce6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:14 +0000
Subject: [PATCH 32/42] fix: accept a where clause on a type without generics

The name of the type and the keyword were run together: `impl Template for Twhere`.
---
 askama_derive/src/generator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index e2d72c4..44abe3d 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -242,7 +242,7 @@ impl<'a> Generator<'a> {
         };
 
         buf.writeln(&format!(
-            "{} {} for {}{} {{",
+            "{} {} for {} {} {{",
             quote!(impl #impl_generics),
             target,
             self.input.ast.ident,
-- 
2.43.0


From 1faae90c049d382dcb2c50a19410edf6a889e335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:09 +0000
Subject: [PATCH 33/42] fix: report an unknown block of a template without
 blocks as an error

`#[template(.., block = "name")]` rendered nothing if the template had no
block at all.
---
 askama_derive/src/lib.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/askama_derive/src/lib.rs b/askama_derive/src/lib.rs
index 08f9e4d..f0b0c00 100644
--- a/askama_derive/src/lib.rs
+++ b/askama_derive/src/lib.rs
@@ -78,19 +78,18 @@ pub(crate) fn build_template(ast: &syn::DeriveInput) -> Result<String, CompileEr
 
     let ctx = &contexts[&input.path];
     let heritage = if !ctx.blocks.is_empty() || ctx.extends.is_some() {
-        let heritage = Heritage::new(ctx, &contexts);
-
-        if let Some(block_name) = input.block {
-            if !heritage.blocks.contains_key(&block_name) {
-                return Err(format!("cannot find block {}", block_name).into());
-            }
-        }
-
-        Some(heritage)
+        Some(Heritage::new(ctx, &contexts))
     } else {
         None
     };
 
+    if let Some(block_name) = input.block {
+        let blocks = heritage.as_ref().map(|heritage| &heritage.blocks);
+        if !blocks.map_or(false, |blocks| blocks.contains_key(&block_name)) {
+            return Err(format!("cannot find block {}", block_name).into());
+        }
+    }
+
     if input.print == Print::Ast || input.print == Print::All {
         eprintln!("{:?}", templates[&input.path].nodes());
     }
-- 
2.43.0


From a68405bfd47f742f996ee2f51c4149c29d1621e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:55 +0000
Subject: [PATCH 34/42] fix: generated code does not depend on what
 include_bytes means in its scope

---
 askama_derive/src/generator.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index 44abe3d..173105c 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -109,7 +109,7 @@ impl<'a> Generator<'a> {
                 let include_path = canonical_path.to_str().unwrap();
                 buf.writeln(
                     &quote! {
-                        include_bytes!(#include_path);
+                        ::std::include_bytes!(#include_path);
                     }
                     .to_string(),
                 )?;
@@ -813,7 +813,7 @@ impl<'a> Generator<'a> {
             let include_path = canonical_path.to_str().unwrap();
             buf.writeln(
                 &quote! {
-                    include_bytes!(#include_path);
+                    ::std::include_bytes!(#include_path);
                 }
                 .to_string(),
             )?;
-- 
2.43.0


From cad899d0228e084e1b099b57c4aecb1e0d6c1d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:21 +0000
Subject: [PATCH 35/42] fix: templates in Rust sources looked for files in the
 working directory of the compiler

A template that is defined in the Rust source has a made-up path without a directory, so that a file
next to it is one in the directory the compiler happens to run in.
---
 askama_derive/src/config.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/askama_derive/src/config.rs b/askama_derive/src/config.rs
index aac8123..29a1f6f 100644
--- a/askama_derive/src/config.rs
+++ b/askama_derive/src/config.rs
@@ -112,7 +112,8 @@ impl<'a> Config<'a> {
         path: &str,
         start_at: Option<&Path>,
     ) -> std::result::Result<Rc<Path>, CompileError> {
-        if let Some(root) = start_at {
+        // The made-up path of a template defined in rust source is in no directory.
+        if let Some(root) = start_at.filter(|root| root.parent() != Some(Path::new(""))) {
             let relative = root.with_file_name(path);
             if relative.exists() {
                 return Ok(relative.into());
-- 
2.43.0


From 1d68009d1cd1068422e734449db5a83eecc93f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:20 +0000
Subject: [PATCH 36/42] fix: a template behind a symbolic link was not a
 dependency by its own name

The generated code named the file the link resolves to: pointing the link to another file did not cause
a rebuild, and the derive macro panicked where the name of that file is not valid UTF-8.
---
 askama_derive/src/generator.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index 173105c..8483bc0 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -105,8 +105,7 @@ impl<'a> Generator<'a> {
                 Source::Source(_) => **path != self.input.path,
             };
             if path_is_valid {
-                let canonical_path = path.canonicalize().unwrap();
-                let include_path = canonical_path.to_str().unwrap();
+                let include_path = dependency_path(path)?;
                 buf.writeln(
                     &quote! {
                         ::std::include_bytes!(#include_path);
@@ -809,8 +808,7 @@ impl<'a> Generator<'a> {
 
         // Make sure the compiler understands that the generated code depends on the template file.
         {
-            let canonical_path = path.canonicalize().unwrap();
-            let include_path = canonical_path.to_str().unwrap();
+            let include_path = dependency_path(&path)?;
             buf.writeln(
                 &quote! {
                     ::std::include_bytes!(#include_path);
@@ -1885,6 +1883,20 @@ impl<'a> Generator<'a> {
     }
 }
 
+// The path of a template file for `include_bytes!()`. It is not resolved any further if it is absolute:
+// a symbolic link that points to another file is a change, too.
+fn dependency_path(path: &Path) -> Result<String, CompileError> {
+    let result = if path.is_absolute() {
+        path.to_str().map(str::to_owned)
+    } else {
+        let canonical = path
+            .canonicalize()
+            .map_err(|err| format!("unable to find template file {path:?}: {err}"))?;
+        canonical.to_str().map(str::to_owned)
+    };
+    result.ok_or_else(|| format!("path of template file {path:?} is not valid UTF-8").into())
+}
+
 struct Buffer {
     // The buffer to generate the code into
     buf: String,
-- 
2.43.0


From 654a563eba2c98a20a8194542413d39a23c72164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:46 +0000
Subject: [PATCH 37/42] fix: conditions of templates do not rely on the name
 bool

---
 askama_derive/src/generator.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index 8483bc0..9ec1fe0 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -412,7 +412,7 @@ impl<'a> Generator<'a> {
                     buf.write("*(&(");
                     let expr_code = self.visit_expr_root(expr)?;
                     buf.write(&expr_code);
-                    buf.write(") as &bool)");
+                    buf.write(") as &::std::primitive::bool)");
                 }
             } else {
                 buf.dedent()?;
@@ -529,7 +529,7 @@ impl<'a> Generator<'a> {
             self.locals.push();
             iter_buf.write(".filter(|");
             self.visit_target(&mut iter_buf, true, true, &loop_block.var);
-            iter_buf.write("| -> bool {");
+            iter_buf.write("| -> ::std::primitive::bool {");
             self.visit_expr(&mut iter_buf, cond)?;
             iter_buf.write("})");
             self.locals.pop();
-- 
2.43.0


From c217c216dcfa412eed14b0280e4efa96b9575ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:54 +0000
Subject: [PATCH 38/42] fix: match and if let on results of operators

---
 askama_derive/src/generator.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index 9ec1fe0..f4809d1 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -397,7 +397,7 @@ impl<'a> Generator<'a> {
                             self.visit_expr(&mut expr_buf, right)?;
                         }
                         _ => {
-                            self.visit_expr(&mut expr_buf, expr)?;
+                            self.visit_scrutinee(&mut expr_buf, expr)?;
                             self.visit_target(buf, true, true, target);
                         }
                     }
@@ -455,8 +455,9 @@ impl<'a> Generator<'a> {
         let flushed = self.write_buf_writable(buf)?;
         let mut arm_sizes = Vec::new();
 
-        let expr_code = self.visit_expr_root(expr)?;
-        buf.writeln(&format!("match &{expr_code} {{"))?;
+        let mut expr_buf = Buffer::new(0);
+        self.visit_scrutinee(&mut expr_buf, expr)?;
+        buf.writeln(&format!("match &{} {{", expr_buf.buf))?;
 
         let mut arm_size = 0;
         for (i, arm) in arms.iter().enumerate() {
@@ -1228,6 +1229,18 @@ impl<'a> Generator<'a> {
         Ok(buf.buf)
     }
 
+    // Writes an expression that a `&` is put in front of, which binds tighter than operators.
+    fn visit_scrutinee(
+        &mut self,
+        buf: &mut Buffer,
+        expr: &Expr<'_>,
+    ) -> Result<DisplayWrap, CompileError> {
+        match expr {
+            Expr::BinOp(..) | Expr::Range(..) => self.visit_group(buf, expr),
+            _ => self.visit_expr(buf, expr),
+        }
+    }
+
     fn visit_expr(
         &mut self,
         buf: &mut Buffer,
-- 
2.43.0


From 8bdad32d8f54564e855e0ffe7a3cbbefb7a476b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:59 +0000
Subject: [PATCH 39/42] fix: names that start with an underscore are variables

A field, a variable or a macro parameter named like `_a` was taken to be a path, so a macro
parameter could silently resolve to another variable of the caller.
---
 askama_parser/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/askama_parser/src/lib.rs b/askama_parser/src/lib.rs
index ec45aa2..5cf6164 100644
--- a/askama_parser/src/lib.rs
+++ b/askama_parser/src/lib.rs
@@ -517,7 +517,7 @@ fn path_or_identifier(i: &str) -> ParseResult<'_, PathOrIdentifier<'_>> {
             path.extend(rest);
             Ok((i, PathOrIdentifier::Path(path)))
         }
-        (None, name, []) if name.chars().next().map_or(true, |c| c.is_lowercase()) => {
+        (None, name, []) if name.chars().next().map_or(true, |c| c == '_' || c.is_lowercase()) => {
             Ok((i, PathOrIdentifier::Identifier(name)))
         }
         (None, start, tail) => {
-- 
2.43.0


From 380b0a05b9e9a476da371f763cb00d2f15e90404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:21 +0000
Subject: [PATCH 40/42] fix: loops over arrays and loop conditions do not
 depend on traits in scope

---
 askama_derive/src/generator.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index f4809d1..d4de38b 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -508,7 +508,7 @@ impl<'a> Generator<'a> {
         }
         let iter_code = match loop_block.iter {
             Expr::Range(_, _, _) => format!("({expr_code})"),
-            Expr::Array(..) => format!("{expr_code}.iter()"),
+            Expr::Array(..) => format!("<[_]>::iter(&{expr_code})"),
             // If `iter` is a call then we assume it's something that returns
             // an iterator. If not then the user can explicitly add the needed
             // call without issues.
@@ -525,15 +525,18 @@ impl<'a> Generator<'a> {
 
         // The iterator is made in the head of the loop, because it may borrow from temporaries.
         let mut iter_buf = Buffer::new(0);
-        iter_buf.write(&iter_code);
         if let Some(cond) = &loop_block.cond {
             self.locals.push();
-            iter_buf.write(".filter(|");
+            iter_buf.write("::core::iter::Iterator::filter(");
+            iter_buf.write(&iter_code);
+            iter_buf.write(", |");
             self.visit_target(&mut iter_buf, true, true, &loop_block.var);
             iter_buf.write("| -> ::std::primitive::bool {");
             self.visit_expr(&mut iter_buf, cond)?;
             iter_buf.write("})");
             self.locals.pop();
+        } else {
+            iter_buf.write(&iter_code);
         }
 
         self.locals.push();
-- 
2.43.0


From 9af4fd04e4f33fb4f753b3b61123a92f8d1e5b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:37 +0000
Subject: [PATCH 41/42] fix: fields named `loop` can be used in templates

`loop` is a keyword in Rust, so the field `r#loop` could not be accessed.
---
 askama_derive/src/generator.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index d4de38b..114bb48 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -2355,6 +2355,7 @@ fn normalize_identifier(ident: &str) -> &str {
         *b"r#else____",
         *b"r#enum____",
         *b"r#impl____",
+        *b"r#loop____",
         *b"r#move____",
         *b"r#priv____",
         *b"r#true____",
-- 
2.43.0


From 77d788c015577bb139914e3be0100b5eb6fc3598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:13 +0000
Subject: [PATCH 42/42] fix: names that begin with a letter without case are
 names of variables

---
 askama_parser/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/askama_parser/src/lib.rs b/askama_parser/src/lib.rs
index 5cf6164..298e7aa 100644
--- a/askama_parser/src/lib.rs
+++ b/askama_parser/src/lib.rs
@@ -517,7 +517,8 @@ fn path_or_identifier(i: &str) -> ParseResult<'_, PathOrIdentifier<'_>> {
             path.extend(rest);
             Ok((i, PathOrIdentifier::Path(path)))
         }
-        (None, name, []) if name.chars().next().map_or(true, |c| c == '_' || c.is_lowercase()) => {
+        // Many scripts have letters that are neither uppercase nor lowercase.
+        (None, name, []) if !name.starts_with(char::is_uppercase) => {
             Ok((i, PathOrIdentifier::Identifier(name)))
         }
         (None, start, tail) => {
-- 
2.43.0

