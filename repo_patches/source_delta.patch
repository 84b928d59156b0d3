From f87539954c01cbbc721f00735bcb5f6c84234e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:58 +0000
Subject: [PATCH 01/37] fix: paragraphbreaks drops empty paragraphs at either
 end and keeps literal <p></p> in the text

---
 askama/src/filters/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/askama/src/filters/mod.rs b/askama/src/filters/mod.rs
index e4871fa..6ede866 100644
--- a/askama/src/filters/mod.rs
+++ b/askama/src/filters/mod.rs
@@ -244,8 +244,13 @@ pub fn linebreaksbr(s: impl ToString) -> Result<impl fmt::Display, Infallible> {
 #[inline]
 pub fn paragraphbreaks(s: impl ToString) -> Result<impl fmt::Display, Infallible> {
     fn paragraphbreaks(s: String) -> Result<String, Infallible> {
-        let linebroken = s.replace("\n\n", "</p><p>").replace("<p></p>", "");
-        Ok(format!("<p>{linebroken}</p>"))
+        let mut paragraphs = String::new();
+        for paragraph in s.split("\n\n").filter(|p| !p.is_empty()) {
+            paragraphs.push_str("<p>");
+            paragraphs.push_str(paragraph);
+            paragraphs.push_str("</p>");
+        }
+        Ok(paragraphs)
     }
     paragraphbreaks(s.to_string())
 }
-- 
2.43.0


From 2247195d203fd1fb346b1dd77a55dd51423414b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:08 +0000
Subject: [PATCH 02/37] fix: leave the nesting level of a target which could
 not be parsed

---
 askama_parser/src/node.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/askama_parser/src/node.rs b/askama_parser/src/node.rs
index 708d880..ceac4a8 100644
--- a/askama_parser/src/node.rs
+++ b/askama_parser/src/node.rs
@@ -175,9 +175,9 @@ impl<'a> Target<'a> {
         map(
             separated_list1(ws(tag("or")), |i| {
                 s.nest(i)?;
-                let ret = Self::parse_one(i, s)?;
+                let ret = Self::parse_one(i, s);
                 s.leave();
-                Ok(ret)
+                ret
             }),
             |mut opts| match opts.len() {
                 1 => opts.pop().unwrap(),
-- 
2.43.0


From 3f85b422a42b568d94d45e1bd2c88b57cf76d2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:49 +0000
Subject: [PATCH 03/37] fix: report the position of an error at the start of a
 line on that line

---
 askama_parser/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/askama_parser/src/lib.rs b/askama_parser/src/lib.rs
index 09218aa..fde64d8 100644
--- a/askama_parser/src/lib.rs
+++ b/askama_parser/src/lib.rs
@@ -111,8 +111,10 @@ impl<'a> Ast<'a> {
             _ => format!("{source_after:?}"),
         };
 
-        let (row, last_line) = source_before.lines().enumerate().last().unwrap_or_default();
-        let column = last_line.chars().count();
+        // A position right after a line break belongs to the next line.
+        let line_start = source_before.rfind('\n').map_or(0, |i| i + 1);
+        let row = source_before[..line_start].matches('\n').count();
+        let column = source_before[line_start..].chars().count();
         Err(ParseError::Details {
             message,
             row,
-- 
2.43.0


From 1434a918ed35e45b467b2afdd3d4710ed9e092bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:08 +0000
Subject: [PATCH 04/37] fix: reject character literals which are no Rust
 character literals

---
 askama_parser/src/lib.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/askama_parser/src/lib.rs b/askama_parser/src/lib.rs
index fde64d8..ce464b7 100644
--- a/askama_parser/src/lib.rs
+++ b/askama_parser/src/lib.rs
@@ -416,6 +416,13 @@ fn char_lit(i: &str) -> ParseResult<'_> {
     };
 
     let (nb, max_value, err1, err2) = match c {
+        // Rust requires these characters to be escaped.
+        Char::Literal if matches!(s, "\n" | "\r" | "\t") => {
+            return Err(nom::Err::Failure(ErrorContext::new(
+                "invalid character",
+                start,
+            )));
+        }
         Char::Literal | Char::Escaped => return Ok((i, s)),
         Char::AsciiEscape(nb) => (
             nb,
@@ -439,6 +446,12 @@ fn char_lit(i: &str) -> ParseResult<'_> {
     if nb > max_value {
         return Err(nom::Err::Failure(ErrorContext::new(err2, start)));
     }
+    if char::from_u32(nb).is_none() {
+        return Err(nom::Err::Failure(ErrorContext::new(
+            "unicode escape must not be a surrogate",
+            start,
+        )));
+    }
 
     Ok((i, s))
 }
-- 
2.43.0


From 9aad6f69c79115077b39a4d90f66a743bd26a460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:26 +0000
Subject: [PATCH 05/37] Hook for verification harnesses: entry points of the
 derive crate under cfg(askama_verif)

---
 askama_derive/src/lib.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/askama_derive/src/lib.rs b/askama_derive/src/lib.rs
index e347001..46e9dda 100644
--- a/askama_derive/src/lib.rs
+++ b/askama_derive/src/lib.rs
@@ -1,9 +1,12 @@
 #![deny(elided_lifetimes_in_paths)]
 #![deny(unreachable_pub)]
+#![allow(unexpected_cfgs)]
 
 use std::fmt;
 use std::{borrow::Cow, collections::HashMap};
 
+#[cfg(askama_verif)]
+extern crate proc_macro;
 use proc_macro::TokenStream;
 use proc_macro2::Span;
 
@@ -20,7 +23,7 @@ use input::{Print, TemplateArgs, TemplateInput};
 #[cfg(test)]
 mod tests;
 
-#[proc_macro_derive(Template, attributes(template))]
+#[cfg_attr(not(askama_verif), proc_macro_derive(Template, attributes(template)))]
 pub fn derive_template(input: TokenStream) -> TokenStream {
     let ast = syn::parse::<syn::DeriveInput>(input).unwrap();
     match build_template(&ast) {
@@ -36,6 +39,22 @@ pub fn derive_template(input: TokenStream) -> TokenStream {
     }
 }
 
+/// Entry points for verification harnesses, which compile this crate as an ordinary library
+#[cfg(askama_verif)]
+pub mod verif {
+    /// What the derive macro generates for the given item, or the message of the compile error
+    pub fn derive(item: &str) -> Result<String, String> {
+        let ast = syn::parse_str::<syn::DeriveInput>(item).map_err(|e| e.to_string())?;
+        crate::build_template(&ast).map_err(|e| e.to_string())
+    }
+
+    /// What the derive macro generates for the given item next to a compile error
+    pub fn skeleton(item: &str) -> Result<String, String> {
+        let ast = syn::parse_str::<syn::DeriveInput>(item).map_err(|e| e.to_string())?;
+        crate::build_skeleton(&ast).map_err(|e| e.to_string())
+    }
+}
+
 fn build_skeleton(ast: &syn::DeriveInput) -> Result<String, CompileError> {
     let template_args = TemplateArgs::fallback();
     let config = Config::new("", None)?;
-- 
2.43.0


From 960d2572a6515c37bd775c8b5503910c17f4bef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:04 +0000
Subject: [PATCH 06/37] fix: write pending expressions before a variable of the
 same name as a field is set

---
 askama_derive/src/generator.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index 6d2283f..6f57cb4 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -881,12 +881,10 @@ impl<'a> Generator<'a> {
         let mut expr_buf = Buffer::new(0);
         self.visit_expr(&mut expr_buf, val)?;
 
+        // Need to flush the buffer before the variable is set: the expressions in there are
+        // evaluated first, and refer to the variable (or the field) visible so far.
+        self.write_buf_writable(buf)?;
         let shadowed = self.is_shadowing_variable(&l.var)?;
-        if shadowed {
-            // Need to flush the buffer if the variable is being shadowed,
-            // to ensure the old variable is used.
-            self.write_buf_writable(buf)?;
-        }
         if shadowed
             || !matches!(l.var, Target::Name(_))
             || matches!(&l.var, Target::Name(name) if self.locals.get(&Cow::Borrowed(name)).is_none())
-- 
2.43.0


From ddf32f8a628f76c4f46cc7fece0931f8e1baebc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:04 +0000
Subject: [PATCH 07/37] fix: assign to a variable declared before, even if its
 name is a Rust keyword

---
 askama_derive/src/generator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index 6f57cb4..d774452 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -887,7 +887,7 @@ impl<'a> Generator<'a> {
         let shadowed = self.is_shadowing_variable(&l.var)?;
         if shadowed
             || !matches!(l.var, Target::Name(_))
-            || matches!(&l.var, Target::Name(name) if self.locals.get(&Cow::Borrowed(name)).is_none())
+            || matches!(&l.var, Target::Name(name) if self.locals.get(&Cow::Borrowed(normalize_identifier(name))).is_none())
         {
             buf.write("let ");
         }
-- 
2.43.0


From 3a1b32b65892140eea023ec667f223dfee102a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:28 +0000
Subject: [PATCH 08/37] fix: evaluate all macro arguments in the scope of the
 caller, and allow keywords as parameter names

---
 askama_derive/src/generator.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index d774452..d4153e3 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -633,6 +633,9 @@ impl<'a> Generator<'a> {
         // * If there isn't one, then we pick the next argument (we can do it without checking
         //   anything since named arguments are always last).
         let mut allow_positional = true;
+        // All arguments are evaluated in the scope of the caller, so none of the parameters may
+        // become visible before the last argument was visited.
+        let mut params = Vec::with_capacity(def.args.len());
         for (index, arg) in def.args.iter().enumerate() {
             let expr = match named_arguments.get(&Cow::Borrowed(arg)) {
                 Some(expr) => {
@@ -651,22 +654,21 @@ impl<'a> Generator<'a> {
                     &args[index]
                 }
             };
+            let param = normalize_identifier(arg);
             match expr {
                 // If `expr` is already a form of variable then
                 // don't reintroduce a new variable. This is
                 // to avoid moving non-copyable values.
                 &Expr::Var(name) if name != "self" => {
                     let var = self.locals.resolve_or_self(name);
-                    self.locals
-                        .insert(Cow::Borrowed(arg), LocalMeta::with_ref(var));
+                    params.push((param, LocalMeta::with_ref(var)));
                 }
                 Expr::Attr(obj, attr) => {
                     let mut attr_buf = Buffer::new(0);
                     self.visit_attr(&mut attr_buf, obj, attr)?;
 
                     let var = self.locals.resolve(&attr_buf.buf).unwrap_or(attr_buf.buf);
-                    self.locals
-                        .insert(Cow::Borrowed(arg), LocalMeta::with_ref(var));
+                    params.push((param, LocalMeta::with_ref(var)));
                 }
                 // Everything else still needs to become variables,
                 // to avoid having the same logic be executed
@@ -679,15 +681,18 @@ impl<'a> Generator<'a> {
                         names.write(", ");
                         values.write(", ");
                     }
-                    names.write(arg);
+                    names.write(param);
 
                     values.write("(");
                     values.write(&self.visit_expr_root(expr)?);
                     values.write(")");
-                    self.locals.insert_with_default(Cow::Borrowed(arg));
+                    params.push((param, LocalMeta::default()));
                 }
             }
         }
+        for (param, meta) in params {
+            self.locals.insert(Cow::Borrowed(param), meta);
+        }
 
         debug_assert_eq!(names.buf.is_empty(), values.buf.is_empty());
         if !names.buf.is_empty() {
-- 
2.43.0


From 3c77ffd601b8f1aa845274611e91e90a8e66dff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:15 +0000
Subject: [PATCH 09/37] fix: pass named macro arguments the same way as
 positional ones, without moving fields

---
 askama_derive/src/generator.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index d4153e3..1e393dc 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -613,7 +613,7 @@ impl<'a> Generator<'a> {
         if let Some(Expr::NamedArgument(_, _)) = args.last() {
             // First we check that all named arguments actually exist in the called item.
             for arg in args.iter().rev() {
-                let Expr::NamedArgument(arg_name, _) = arg else {
+                let Expr::NamedArgument(arg_name, value) = arg else {
                     break;
                 };
                 if !def.args.iter().any(|arg| arg == arg_name) {
@@ -621,7 +621,7 @@ impl<'a> Generator<'a> {
                         "no argument named `{arg_name}` in macro {name:?}"
                     )));
                 }
-                named_arguments.insert(Cow::Borrowed(arg_name), arg);
+                named_arguments.insert(Cow::Borrowed(arg_name), &**value);
             }
         }
 
-- 
2.43.0


From 16b53a2a0a6b79bd4f288a26fa04d1492f31fe55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:16 +0000
Subject: [PATCH 10/37] fix: loop variables passed to a macro keep their value
 inside of its loops

---
 askama_derive/src/generator.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index 1e393dc..ca67240 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -663,7 +663,8 @@ impl<'a> Generator<'a> {
                     let var = self.locals.resolve_or_self(name);
                     params.push((param, LocalMeta::with_ref(var)));
                 }
-                Expr::Attr(obj, attr) => {
+                // The variables of the caller's loop are hidden by any loop inside of the macro.
+                Expr::Attr(obj, attr) if **obj != Expr::Var("loop") => {
                     let mut attr_buf = Buffer::new(0);
                     self.visit_attr(&mut attr_buf, obj, attr)?;
 
-- 
2.43.0


From c6b0a62d638dcc454bd52e211c91a179c68b69fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:17 +0000
Subject: [PATCH 11/37] fix: a let in a macro shadows the parameter of that
 name whatever was passed for it

---
 askama_derive/src/generator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index ca67240..9de4c00 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -687,7 +687,7 @@ impl<'a> Generator<'a> {
                     values.write("(");
                     values.write(&self.visit_expr_root(expr)?);
                     values.write(")");
-                    params.push((param, LocalMeta::default()));
+                    params.push((param, LocalMeta::initialized()));
                 }
             }
         }
-- 
2.43.0


From 43ef91f0063ded449412903016cf19b3f2ea3a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:06 +0000
Subject: [PATCH 12/37] fix: variables set in a block or an included template
 end with it

---
 askama_derive/src/generator.rs | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index 9de4c00..e3e3312 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -832,8 +832,11 @@ impl<'a> Generator<'a> {
         let locals = MapChain::with_parent(&self.locals);
         let mut child = Self::new(self.input, self.contexts, heritage.as_ref(), locals);
         child.buf_writable.discard = self.buf_writable.discard;
+        // Variables of the included template must not replace the ones of this template.
+        buf.writeln("{")?;
         let mut size_hint = child.handle(handle_ctx, handle_ctx.nodes, buf, AstLevel::Top)?;
         size_hint += child.write_buf_writable(buf)?;
+        buf.writeln("}")?;
         self.prepare_ws(i.ws);
 
         Ok(size_hint)
@@ -977,14 +980,14 @@ impl<'a> Generator<'a> {
         child.prepare_ws(def.ws1);
 
         child.super_block = Some(cur);
-        let size_hint = child.handle(&child_ctx, &def.nodes, buf, AstLevel::Block)?;
-
-        if !child.locals.is_current_empty() {
-            // Need to flush the buffer before popping the variable stack
-            child.write_buf_writable(buf)?;
-        }
+        // Variables of the block must not replace the ones around it.
+        buf.writeln("{")?;
+        let mut size_hint = child.handle(&child_ctx, &def.nodes, buf, AstLevel::Block)?;
 
         child.flush_ws(def.ws2);
+        // Need to flush the buffer before popping the variable stack
+        size_hint += child.write_buf_writable(buf)?;
+        buf.writeln("}")?;
         self.buf_writable = child.buf_writable;
 
         // Restore original block context and set whitespace suppression for
@@ -1948,10 +1951,6 @@ where
             .or_else(|| self.parent.and_then(|set| set.get(key)))
     }
 
-    fn is_current_empty(&self) -> bool {
-        self.scopes.last().unwrap().is_empty()
-    }
-
     fn insert(&mut self, key: K, val: V) {
         self.scopes.last_mut().unwrap().insert(key, val);
 
-- 
2.43.0


From 535a2a518dba6d16b9ff0e40b9e3ae8def9621ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:17 +0000
Subject: [PATCH 13/37] fix: filter blocks keep the text before them, and
 filter the output of control structures in them

---
 askama_derive/src/generator.rs | 40 +++++++++++-----------------------
 1 file changed, 13 insertions(+), 27 deletions(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index e3e3312..3d04ff2 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -717,6 +717,7 @@ impl<'a> Generator<'a> {
         filter: &'a FilterBlock<'_>,
     ) -> Result<usize, CompileError> {
         self.flush_ws(filter.ws1);
+        let mut size_hint = self.write_buf_writable(buf)?;
         let mut var_name = String::new();
         for id in 0.. {
             var_name = format!("__filter_block{id}");
@@ -725,36 +726,21 @@ impl<'a> Generator<'a> {
                 break;
             }
         }
-        let current_buf = mem::take(&mut self.buf_writable.buf);
 
+        // Everything inside of the block, control structures included, is written to the variable.
+        buf.writeln(&format!(
+            "let mut {var_name} = ::std::string::String::new();"
+        ))?;
+        buf.writeln("{")?;
+        buf.writeln("use ::std::fmt::Write as _;")?;
+        buf.writeln(&format!("let writer = &mut {var_name};"))?;
+        self.locals.push();
         self.prepare_ws(filter.ws1);
-        let mut size_hint = self.handle(ctx, &filter.nodes, buf, AstLevel::Nested)?;
+        size_hint += self.handle(ctx, &filter.nodes, buf, AstLevel::Nested)?;
         self.flush_ws(filter.ws2);
-
-        let WriteParts {
-            size_hint: write_size_hint,
-            buffers,
-        } = self.prepare_format(buf.indent + 1)?;
-        size_hint += match buffers {
-            None => return Ok(0),
-            Some(WritePartsBuffers { format, expr: None }) => {
-                buf.writeln(&format!("let {var_name} = {:#?};", &format.buf))?;
-                write_size_hint
-            }
-            Some(WritePartsBuffers {
-                format,
-                expr: Some(expr),
-            }) => {
-                buf.writeln(&format!(
-                    "let {var_name} = format!({:#?}, {});",
-                    &format.buf,
-                    expr.buf.trim(),
-                ))?;
-                write_size_hint
-            }
-        };
-
-        self.buf_writable.buf = current_buf;
+        size_hint += self.write_buf_writable(buf)?;
+        self.locals.pop();
+        buf.writeln("}")?;
 
         let mut filter_buf = Buffer::new(buf.indent);
         let Filter {
-- 
2.43.0


From a94b864e1dd56e0b07a64a75e44df8817aa8cc52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:18 +0000
Subject: [PATCH 14/37] fix: resolve include paths relative to the template
 which contains the include

---
 askama_derive/src/generator.rs | 2 +-
 askama_derive/src/heritage.rs  | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index 3d04ff2..3ec9fa3 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -775,7 +775,7 @@ impl<'a> Generator<'a> {
         let path = self
             .input
             .config
-            .find_template(i.path, Some(&self.input.path))?;
+            .find_template(i.path, Some(ctx.path.unwrap_or(&self.input.path)))?;
 
         // Make sure the compiler understands that the generated code depends on the template file.
         {
diff --git a/askama_derive/src/heritage.rs b/askama_derive/src/heritage.rs
index 76894cb..33abe8b 100644
--- a/askama_derive/src/heritage.rs
+++ b/askama_derive/src/heritage.rs
@@ -38,6 +38,7 @@ type BlockAncestry<'a> = HashMap<&'a str, Vec<(&'a Context<'a>, &'a BlockDef<'a>
 
 #[derive(Default, Clone)]
 pub(crate) struct Context<'a> {
+    pub(crate) path: Option<&'a Path>,
     pub(crate) nodes: &'a [Node<'a>],
     pub(crate) extends: Option<Rc<Path>>,
     pub(crate) blocks: HashMap<&'a str, &'a BlockDef<'a>>,
@@ -48,7 +49,7 @@ pub(crate) struct Context<'a> {
 impl Context<'_> {
     pub(crate) fn new<'n>(
         config: &Config<'_>,
-        path: &Path,
+        path: &'n Path,
         nodes: &'n [Node<'n>],
     ) -> Result<Context<'n>, CompileError> {
         let mut extends = None;
@@ -104,6 +105,7 @@ impl Context<'_> {
         }
 
         Ok(Context {
+            path: Some(path),
             nodes,
             extends,
             blocks,
-- 
2.43.0


From d723aa678b535ebde6cc1c1b4c7b1ab5503736c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:30 +0000
Subject: [PATCH 15/37] fix: report templates, macros and blocks which contain
 themselves instead of overflowing the stack

---
 askama_derive/src/generator.rs | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index 3ec9fa3..cd5271c 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -39,6 +39,10 @@ pub(crate) struct Generator<'a> {
     buf_writable: WritableBuffer<'a>,
     // Counter for write! hash named arguments
     named: usize,
+    // The included templates the current node is part of
+    includes: Vec<Rc<Path>>,
+    // The macro and block definitions the current node is part of
+    active_defs: Vec<*const ()>,
 }
 
 impl<'a> Generator<'a> {
@@ -61,9 +65,21 @@ impl<'a> Generator<'a> {
                 ..Default::default()
             },
             named: 0,
+            includes: Vec::new(),
+            active_defs: Vec::new(),
         }
     }
 
+    // All macros, blocks and includes are expanded in place, so they must not contain themselves.
+    fn enter_def<T>(&mut self, def: &T, err: impl FnOnce() -> String) -> Result<(), CompileError> {
+        let def: *const () = <*const T>::cast(def);
+        if self.active_defs.contains(&def) {
+            return Err(err().into());
+        }
+        self.active_defs.push(def);
+        Ok(())
+    }
+
     // Takes a Context and generates the relevant implementations.
     pub(crate) fn build(mut self, ctx: &Context<'a>) -> Result<String, CompileError> {
         let mut buf = Buffer::new(0);
@@ -590,6 +606,7 @@ impl<'a> Generator<'a> {
             }
         };
 
+        self.enter_def(*def, || format!("macro {name:?} calls itself"))?;
         self.flush_ws(ws); // Cannot handle_ws() here: whitespace from macro definition comes first
         self.locals.push();
         self.write_buf_writable(buf)?;
@@ -706,6 +723,7 @@ impl<'a> Generator<'a> {
         size_hint += self.write_buf_writable(buf)?;
         buf.writeln("}")?;
         self.locals.pop();
+        self.active_defs.pop();
         self.prepare_ws(ws);
         Ok(size_hint)
     }
@@ -777,6 +795,10 @@ impl<'a> Generator<'a> {
             .config
             .find_template(i.path, Some(ctx.path.unwrap_or(&self.input.path)))?;
 
+        if self.includes.contains(&path) {
+            return Err(format!("template {path:?} includes itself").into());
+        }
+
         // Make sure the compiler understands that the generated code depends on the template file.
         {
             let canonical_path = path.canonicalize().unwrap();
@@ -818,6 +840,8 @@ impl<'a> Generator<'a> {
         let locals = MapChain::with_parent(&self.locals);
         let mut child = Self::new(self.input, self.contexts, heritage.as_ref(), locals);
         child.buf_writable.discard = self.buf_writable.discard;
+        child.includes.clone_from(&self.includes);
+        child.includes.push(path);
         // Variables of the included template must not replace the ones of this template.
         buf.writeln("{")?;
         let mut size_hint = child.handle(handle_ctx, handle_ctx.nodes, buf, AstLevel::Top)?;
@@ -939,6 +963,10 @@ impl<'a> Generator<'a> {
             })
         })?;
 
+        self.enter_def(def, || {
+            format!("cannot define recursive blocks ({})", cur.0)
+        })?;
+
         // We clone the context of the child in order to preserve their macros and imports.
         // But also add all the imports and macros from this template that don't override the
         // child's ones to preserve this template's context.
@@ -961,6 +989,8 @@ impl<'a> Generator<'a> {
             MapChain::default(),
         );
         child.buf_writable = mem::take(&mut self.buf_writable);
+        child.includes = mem::take(&mut self.includes);
+        child.active_defs = mem::take(&mut self.active_defs);
 
         // Handle inner whitespace suppression spec and process block nodes
         child.prepare_ws(def.ws1);
@@ -975,6 +1005,9 @@ impl<'a> Generator<'a> {
         size_hint += child.write_buf_writable(buf)?;
         buf.writeln("}")?;
         self.buf_writable = child.buf_writable;
+        self.includes = child.includes;
+        self.active_defs = child.active_defs;
+        self.active_defs.pop();
 
         // Restore original block context and set whitespace suppression for
         // succeeding whitespace according to the outer WS spec
-- 
2.43.0


From acdad9ea0c9375f614e7ea1cf94f7f284e2b0eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:45 +0000
Subject: [PATCH 16/37] fix: report cycles of extends of more than one template
 instead of hanging

---
 askama_derive/src/input.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/askama_derive/src/input.rs b/askama_derive/src/input.rs
index 10b9927..0d291bb 100644
--- a/askama_derive/src/input.rs
+++ b/askama_derive/src/input.rs
@@ -141,15 +141,17 @@ impl TemplateInput<'_> {
                     match n {
                         Node::Extends(extends) if top => {
                             let extends = self.config.find_template(extends.path, Some(&path))?;
-                            let dependency_path = (path.clone(), extends.clone());
-                            if path == extends {
-                                // We add the path into the graph to have a better looking error.
-                                dependency_graph.push(dependency_path);
-                                return cyclic_graph_error(&dependency_graph);
-                            } else if dependency_graph.contains(&dependency_path) {
-                                return cyclic_graph_error(&dependency_graph);
+                            dependency_graph.push((path.clone(), extends.clone()));
+                            // None of the ancestors may be this template itself.
+                            let mut ancestors = vec![&extends];
+                            while let Some(ancestor) = ancestors.pop() {
+                                if *ancestor == path {
+                                    return cyclic_graph_error(&dependency_graph);
+                                }
+                                ancestors.extend(dependency_graph.iter().filter_map(
+                                    |(child, parent)| (child == ancestor).then_some(parent),
+                                ));
                             }
-                            dependency_graph.push(dependency_path);
                             add_to_check(extends)?;
                         }
                         Node::Macro(m) if top => {
-- 
2.43.0


From 1e9f52dc0c5f19b8a71a2d3dbf1ccf825537bcfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:20 +0000
Subject: [PATCH 17/37] fix: count the indentation of deeply nested templates
 without overflowing

---
 askama_derive/src/generator.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index cd5271c..dbc4844 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -1055,7 +1055,7 @@ impl<'a> Generator<'a> {
     /// This is the common code to generate an expression. It is used for filter blocks and for
     /// expressions more generally. It stores the size it represents and the buffers. Take a look
     /// at `WriteParts` for more details.
-    fn prepare_format(&mut self, indent: u8) -> Result<WriteParts, CompileError> {
+    fn prepare_format(&mut self, indent: usize) -> Result<WriteParts, CompileError> {
         if self.buf_writable.is_empty() {
             return Ok(WriteParts {
                 size_hint: 0,
@@ -1856,14 +1856,14 @@ struct Buffer {
     // The buffer to generate the code into
     buf: String,
     // The current level of indentation (in spaces)
-    indent: u8,
+    indent: usize,
     // Whether the output buffer is currently at the start of a line
     start: bool,
     discard: bool,
 }
 
 impl Buffer {
-    fn new(indent: u8) -> Self {
+    fn new(indent: usize) -> Self {
         Self {
             buf: String::new(),
             indent,
-- 
2.43.0


From b20d5bd3baf840d63e45ded894718aea672479a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:46 +0000
Subject: [PATCH 18/37] fix: keep track of the indentation in blocks which are
 left out of a fragment

---
 askama_derive/src/generator.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index dbc4844..fafa2d1 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -1909,6 +1909,10 @@ impl Buffer {
     }
 
     fn dedent(&mut self) -> Result<(), CompileError> {
+        // Nothing was indented in here either.
+        if self.discard {
+            return Ok(());
+        }
         if self.indent == 0 {
             return Err("dedent() called while indentation == 0".into());
         }
-- 
2.43.0


From 367585f1d10fab9652fe30cd06461ef0047d5d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:57 +0000
Subject: [PATCH 19/37] fix: blocks in filter blocks and macros do not panic

---
 askama_derive/src/generator.rs | 26 ++++++++++++++++++++------
 askama_derive/src/heritage.rs  |  3 +++
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index fafa2d1..ef7ce73 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -736,6 +736,16 @@ impl<'a> Generator<'a> {
     ) -> Result<usize, CompileError> {
         self.flush_ws(filter.ws1);
         let mut size_hint = self.write_buf_writable(buf)?;
+        if self.buf_writable.discard {
+            // There is nothing to filter, but the fragment to render might be in here.
+            self.locals.push();
+            self.prepare_ws(filter.ws1);
+            size_hint += self.handle(ctx, &filter.nodes, buf, AstLevel::Nested)?;
+            self.flush_ws(filter.ws2);
+            self.locals.pop();
+            self.prepare_ws(filter.ws2);
+            return Ok(size_hint);
+        }
         let mut var_name = String::new();
         for id in 0.. {
             var_name = format!("__filter_block{id}");
@@ -956,12 +966,16 @@ impl<'a> Generator<'a> {
         let heritage = self
             .heritage
             .ok_or_else(|| CompileError::from("no block ancestors available"))?;
-        let (child_ctx, def) = *heritage.blocks[cur.0].get(cur.1).ok_or_else(|| {
-            CompileError::from(match name {
-                None => format!("no super() block found for block '{}'", cur.0),
-                Some(name) => format!("no block found for name '{name}'"),
-            })
-        })?;
+        let (child_ctx, def) = *heritage
+            .blocks
+            .get(cur.0)
+            .and_then(|generations| generations.get(cur.1))
+            .ok_or_else(|| {
+                CompileError::from(match name {
+                    None => format!("no super() block found for block '{}'", cur.0),
+                    Some(name) => format!("no block found for name '{name}'"),
+                })
+            })?;
 
         self.enter_def(def, || {
             format!("cannot define recursive blocks ({})", cur.0)
diff --git a/askama_derive/src/heritage.rs b/askama_derive/src/heritage.rs
index 33abe8b..20a2885 100644
--- a/askama_derive/src/heritage.rs
+++ b/askama_derive/src/heritage.rs
@@ -98,6 +98,9 @@ impl Context<'_> {
                             nested.push(&arm.nodes);
                         }
                     }
+                    Node::FilterBlock(f) => {
+                        nested.push(&f.nodes);
+                    }
                     _ => {}
                 }
             }
-- 
2.43.0


From 0bb986834258f45013772e09372891cf449f14c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:24 +0000
Subject: [PATCH 20/37] fix: a whitespace only literal is minimized if the left
 hand side asks for it

---
 askama_derive/src/generator.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index ef7ce73..4f08c51 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -33,6 +33,10 @@ pub(crate) struct Generator<'a> {
     // Whitespace suppression from the previous non-literal. Will be used to
     // determine whether to flush prefix whitespace from the next literal.
     skip_ws: WhitespaceHandling,
+    // Inline whitespace control from the previous non-literal, if there was no
+    // text since. Applies to the same whitespace as the control of the next
+    // non-literal then.
+    prev_ws: Option<Whitespace>,
     // If currently in a block, this will contain the name of a potential parent block
     super_block: Option<(&'a str, usize)>,
     // Buffer for writable
@@ -59,6 +63,7 @@ impl<'a> Generator<'a> {
             locals,
             next_ws: None,
             skip_ws: WhitespaceHandling::Preserve,
+            prev_ws: None,
             super_block: None,
             buf_writable: WritableBuffer {
                 discard: input.block.is_some(),
@@ -1205,6 +1210,7 @@ impl<'a> Generator<'a> {
 
         if !val.is_empty() {
             self.skip_ws = WhitespaceHandling::Preserve;
+            self.prev_ws = None;
             self.buf_writable.push(Writable::Lit(val));
         }
 
@@ -1836,7 +1842,14 @@ impl<'a> Generator<'a> {
 
         // If `whitespace` is set to `suppress`, we keep the whitespace characters only if there is
         // a `+` character.
-        match self.should_trim_ws(ws.0) {
+        let handling = match (self.prev_ws, self.should_trim_ws(ws.0)) {
+            // Minimizing is preferred over preserving, on whichever side it was asked for.
+            (Some(Whitespace::Minimize), WhitespaceHandling::Preserve) => {
+                WhitespaceHandling::Minimize
+            }
+            (_, handling) => handling,
+        };
+        match handling {
             WhitespaceHandling::Preserve => {
                 let val = self.next_ws.unwrap();
                 if !val.is_empty() {
@@ -1863,6 +1876,7 @@ impl<'a> Generator<'a> {
     // next literal.
     fn prepare_ws(&mut self, ws: Ws) {
         self.skip_ws = self.should_trim_ws(ws.1);
+        self.prev_ws = ws.1;
     }
 }
 
-- 
2.43.0


From 695da375cae87ed29e977fa2892788048487a26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:57 +0000
Subject: [PATCH 21/37] fix: count the characters of delimiters, not their
 bytes

---
 askama_derive/src/config.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/askama_derive/src/config.rs b/askama_derive/src/config.rs
index aac8123..6764636 100644
--- a/askama_derive/src/config.rs
+++ b/askama_derive/src/config.rs
@@ -156,7 +156,7 @@ impl<'a> TryInto<Syntax<'a>> for RawSyntax<'a> {
             (syntax.comment_start, "comment_start"),
             (syntax.comment_end, "comment_end"),
         ] {
-            if s.len() < 2 {
+            if s.chars().nth(1).is_none() {
                 return Err(format!(
                     "{kind} delimiter must be at least two characters long: {s:?}"
                 )
-- 
2.43.0


From f329bad576b41a88ed34979502523ed8687776a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:12 +0000
Subject: [PATCH 22/37] fix: filters in the arguments of a filter block do not
 receive the content of the block

---
 askama_derive/src/generator.rs | 22 ++++++++++++----------
 askama_parser/src/node.rs      |  7 ++++++-
 2 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index 4f08c51..20a531e 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -782,7 +782,7 @@ impl<'a> Generator<'a> {
         } = &filter.filters;
         let mut arguments = arguments.clone();
 
-        insert_first_filter_argument(&mut arguments, var_name.clone());
+        fill_first_filter_argument(&mut arguments, var_name.clone());
 
         let wrap = self.visit_filter(&mut filter_buf, filter_name, &arguments)?;
 
@@ -2153,7 +2153,7 @@ fn median(sizes: &mut [usize]) -> usize {
 ///                arguments: vec![
 ///                    Filter {
 ///                        name: "a",
-///                        arguments: vec![],
+///                        arguments: vec![Generated("")],
 ///                    }.
 ///                ],
 ///            }
@@ -2163,14 +2163,16 @@ fn median(sizes: &mut [usize]) -> usize {
 /// }
 /// ```
 ///
-/// So in here, we want to insert the variable containing the content of the filter block inside
-/// the call to `"a"`. To do so, we recursively go through all `Filter` and finally insert our
-/// variable as the first argument to the `"a"` call.
-fn insert_first_filter_argument(args: &mut Vec<Expr<'_>>, var_name: String) {
-    if let Some(Expr::Filter(Filter { arguments, .. })) = args.first_mut() {
-        insert_first_filter_argument(arguments, var_name);
-    } else {
-        args.insert(0, Expr::Generated(var_name));
+/// So in here, we want to replace the first argument of the call to `"a"` with the variable
+/// containing the content of the filter block. To do so, we recursively go through all `Filter`
+/// and finally fill in the name of our variable.
+fn fill_first_filter_argument(args: &mut [Expr<'_>], var_name: String) {
+    match args.first_mut() {
+        Some(Expr::Filter(Filter { arguments, .. })) => {
+            fill_first_filter_argument(arguments, var_name);
+        }
+        Some(Expr::Generated(name)) => *name = var_name,
+        _ => {}
     }
 }
 
diff --git a/askama_parser/src/node.rs b/askama_parser/src/node.rs
index ceac4a8..042714c 100644
--- a/askama_parser/src/node.rs
+++ b/askama_parser/src/node.rs
@@ -614,7 +614,12 @@ impl<'a> FilterBlock<'a> {
 
         let mut filters = Filter {
             name: filter_name,
-            arguments: params.unwrap_or_default(),
+            arguments: {
+                // The first argument stands for the content of the block.
+                let mut args = params.unwrap_or_default();
+                args.insert(0, Expr::Generated(String::new()));
+                args
+            },
         };
         for (filter_name, args) in extra_filters {
             filters = Filter {
-- 
2.43.0


From a4a145daef481030a72326b8227ef2904df2ae01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:38 +0000
Subject: [PATCH 23/37] fix: report missing sources and unknown attribute paths
 as compile errors

---
 askama_derive/src/input.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/askama_derive/src/input.rs b/askama_derive/src/input.rs
index 0d291bb..4195f22 100644
--- a/askama_derive/src/input.rs
+++ b/askama_derive/src/input.rs
@@ -48,7 +48,7 @@ impl TemplateInput<'_> {
         // of `ext` is merged into a synthetic `path` value here.
         let source = source
             .as_ref()
-            .expect("template path or source not found in attributes");
+            .ok_or_else(|| CompileError::from("template path or source not found in attributes"))?;
         let path = match (&source, &ext) {
             (Source::Path(path), _) => config.find_template(path, None)?,
             (&Source::Source(_), Some(ext)) => {
@@ -261,7 +261,13 @@ impl TemplateArgs {
 
             let ident = match pair.path.get_ident() {
                 Some(ident) => ident,
-                None => unreachable!("not possible in syn::Meta::NameValue(…)"),
+                None => {
+                    return Err(format!(
+                        "unsupported attribute key {:?} found",
+                        pair.path.to_token_stream().to_string()
+                    )
+                    .into())
+                }
             };
 
             let value = match pair.value {
-- 
2.43.0


From cfb844debbe34b0049a07694830fa94c08276be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:00 +0000
Subject: [PATCH 24/37] fix: a variable set in a macro does not replace the
 variable a parameter stands for

Parameters to which a variable is passed are replaced by its name. A variable of
the same name that is declared inside of the macro gets another name now.
---
 askama_derive/src/generator.rs | 77 ++++++++++++++++++++++++----------
 1 file changed, 55 insertions(+), 22 deletions(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index 20a531e..6408b9a 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -683,7 +683,7 @@ impl<'a> Generator<'a> {
                 // to avoid moving non-copyable values.
                 &Expr::Var(name) if name != "self" => {
                     let var = self.locals.resolve_or_self(name);
-                    params.push((param, LocalMeta::with_ref(var)));
+                    params.push((param, Some(var)));
                 }
                 // The variables of the caller's loop are hidden by any loop inside of the macro.
                 Expr::Attr(obj, attr) if **obj != Expr::Var("loop") => {
@@ -691,7 +691,7 @@ impl<'a> Generator<'a> {
                     self.visit_attr(&mut attr_buf, obj, attr)?;
 
                     let var = self.locals.resolve(&attr_buf.buf).unwrap_or(attr_buf.buf);
-                    params.push((param, LocalMeta::with_ref(var)));
+                    params.push((param, Some(var)));
                 }
                 // Everything else still needs to become variables,
                 // to avoid having the same logic be executed
@@ -701,20 +701,29 @@ impl<'a> Generator<'a> {
                     if is_first_variable {
                         is_first_variable = false
                     } else {
-                        names.write(", ");
                         values.write(", ");
                     }
-                    names.write(param);
 
                     values.write("(");
                     values.write(&self.visit_expr_root(expr)?);
                     values.write(")");
-                    params.push((param, LocalMeta::initialized()));
+                    params.push((param, None));
                 }
             }
         }
-        for (param, meta) in params {
-            self.locals.insert(Cow::Borrowed(param), meta);
+        for (param, var) in &params {
+            if let Some(var) = var {
+                self.locals
+                    .insert(Cow::Borrowed(*param), LocalMeta::with_ref(var.clone()));
+            }
+        }
+        for (param, var) in params {
+            if var.is_none() {
+                if !names.buf.is_empty() {
+                    names.write(", ");
+                }
+                names.write(&self.declare(param, true));
+            }
         }
 
         debug_assert_eq!(names.buf.is_empty(), values.buf.is_empty());
@@ -1745,14 +1754,8 @@ impl<'a> Generator<'a> {
                 buf.write("_");
             }
             Target::Name(name) => {
-                let name = normalize_identifier(name);
-                match initialized {
-                    true => self
-                        .locals
-                        .insert(Cow::Borrowed(name), LocalMeta::initialized()),
-                    false => self.locals.insert_with_default(Cow::Borrowed(name)),
-                }
-                buf.write(name);
+                let name = self.declare(normalize_identifier(name), initialized);
+                buf.write(&name);
             }
             Target::OrChain(targets) => match targets.first() {
                 None => buf.write("_"),
@@ -1814,6 +1817,19 @@ impl<'a> Generator<'a> {
         }
     }
 
+    /// Adds a variable to the current scope, and returns what it is called in the generated code.
+    fn declare(&mut self, name: &'a str, initialized: bool) -> String {
+        let refs = match self.locals.get(&Cow::Borrowed(name)) {
+            // sets a variable that was introduced in a LetDecl before
+            Some(meta) if initialized && !meta.initialized => meta.refs.clone(),
+            _ => self.locals.name_for(name),
+        };
+        let var = refs.clone().unwrap_or_else(|| name.to_owned());
+        self.locals
+            .insert(Cow::Borrowed(name), LocalMeta { refs, initialized });
+        var
+    }
+
     /* Helper methods for dealing with whitespace nodes */
 
     // Combines `flush_ws()` and `prepare_ws()` to handle both trailing whitespace from the
@@ -2012,13 +2028,6 @@ where
         // compile error "identifier `a` used more than once".
     }
 
-    fn insert_with_default(&mut self, key: K)
-    where
-        V: Default,
-    {
-        self.insert(key, V::default());
-    }
-
     fn push(&mut self) {
         self.scopes.push(HashMap::new());
     }
@@ -2042,6 +2051,30 @@ impl MapChain<'_, Cow<'_, str>, LocalMeta> {
         let name = normalize_identifier(name);
         self.resolve(name).unwrap_or_else(|| format!("self.{name}"))
     }
+
+    /// Returns a name for a new variable if it must not be called `name` in the generated code,
+    /// because a macro parameter stands for a variable of this name.
+    fn name_for(&self, name: &str) -> Option<String> {
+        if !self.is_referenced(name, name) {
+            return None;
+        }
+        let plain = name.strip_prefix("r#").unwrap_or(name);
+        (1..)
+            .map(|id| format!("{plain}__{id}"))
+            .find(|var| !self.is_referenced(name, var) && self.get(&Cow::Borrowed(var)).is_none())
+    }
+
+    /// Returns `true` if another variable than `name` stands for the Rust variable `var`.
+    fn is_referenced(&self, name: &str, var: &str) -> bool {
+        let var = var.strip_prefix("r#").unwrap_or(var);
+        let is_ident = |c: char| c == '_' || c.is_alphanumeric();
+        let mentions = |refs: &String| refs.split(|c| !is_ident(c)).any(|ident| ident == var);
+        let mut locals = self.scopes.iter().flatten();
+        locals.any(|(other, meta)| *other != name && meta.refs.as_ref().map_or(false, mentions))
+            || self
+                .parent
+                .map_or(false, |parent| parent.is_referenced(name, var))
+    }
 }
 
 impl<K: Eq + hash::Hash, V> Default for MapChain<'_, K, V> {
-- 
2.43.0


From 1f088ab53c6446d0be0c3499c1761bc5a1fec88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:11 +0000
Subject: [PATCH 25/37] fix: match and if let take operators by value instead
 of their first operand by reference

---
 askama_derive/src/generator.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index 6408b9a..00476cd 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -397,6 +397,13 @@ impl<'a> Generator<'a> {
                             expr_buf.write(&format!(" {op} "));
                             self.visit_expr(&mut expr_buf, right)?;
                         }
+                        Expr::BinOp(..) | Expr::Range(..) => {
+                            // the whole value is matched by reference, not its first operand
+                            expr_buf.write("(");
+                            self.visit_expr(&mut expr_buf, expr)?;
+                            expr_buf.write(")");
+                            self.visit_target(buf, true, true, target);
+                        }
                         _ => {
                             self.visit_expr(&mut expr_buf, expr)?;
                             self.visit_target(buf, true, true, target);
@@ -457,7 +464,13 @@ impl<'a> Generator<'a> {
         let mut arm_sizes = Vec::new();
 
         let expr_code = self.visit_expr_root(expr)?;
-        buf.writeln(&format!("match &{expr_code} {{"))?;
+        match expr {
+            // the whole value is matched by reference, not its first operand
+            Expr::BinOp(..) | Expr::Range(..) => {
+                buf.writeln(&format!("match &({expr_code}) {{"))?
+            }
+            _ => buf.writeln(&format!("match &{expr_code} {{"))?,
+        }
 
         let mut arm_size = 0;
         for (i, arm) in arms.iter().enumerate() {
-- 
2.43.0


From a3940e9baee06835defa59af2141a59170f4d968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:39 +0000
Subject: [PATCH 26/37] fix: loops keep temporary values in their source alive

---
 askama_derive/src/generator.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index 00476cd..699f3aa 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -519,26 +519,29 @@ impl<'a> Generator<'a> {
         if has_else_nodes {
             buf.writeln("let mut _did_loop = false;")?;
         }
+        // A `match` keeps temporary values in the expression alive until the end of the loop, like
+        // `for` does.
         match loop_block.iter {
-            Expr::Range(_, _, _) => buf.writeln(&format!("let _iter = {expr_code};")),
-            Expr::Array(..) => buf.writeln(&format!("let _iter = {expr_code}.iter();")),
+            Expr::Range(_, _, _) => buf.writeln(&format!("match ({expr_code}).into_iter() {{")),
+            Expr::Array(..) => buf.writeln(&format!("match {expr_code}.iter() {{")),
             // If `iter` is a call then we assume it's something that returns
             // an iterator. If not then the user can explicitly add the needed
             // call without issues.
             Expr::Call(..) | Expr::Index(..) => {
-                buf.writeln(&format!("let _iter = ({expr_code}).into_iter();"))
+                buf.writeln(&format!("match ({expr_code}).into_iter() {{"))
             }
             // If accessing `self` then it most likely needs to be
             // borrowed, to prevent an attempt of moving.
             _ if expr_code.starts_with("self.") => {
-                buf.writeln(&format!("let _iter = (&{expr_code}).into_iter();"))
+                buf.writeln(&format!("match (&{expr_code}).into_iter() {{"))
             }
             // If accessing a field then it most likely needs to be
             // borrowed, to prevent an attempt of moving.
-            Expr::Attr(..) => buf.writeln(&format!("let _iter = (&{expr_code}).into_iter();")),
+            Expr::Attr(..) => buf.writeln(&format!("match (&{expr_code}).into_iter() {{")),
             // Otherwise, we borrow `iter` assuming that it implements `IntoIterator`.
-            _ => buf.writeln(&format!("let _iter = ({expr_code}).into_iter();")),
+            _ => buf.writeln(&format!("match ({expr_code}).into_iter() {{")),
         }?;
+        buf.writeln("_iter => {")?;
         if let Some(cond) = &loop_block.cond {
             self.locals.push();
             buf.write("let _iter = _iter.filter(|");
@@ -579,6 +582,8 @@ impl<'a> Generator<'a> {
             size_hint2 = self.write_buf_writable(buf)?;
         }
 
+        buf.writeln("}")?;
+        buf.writeln("}")?;
         buf.writeln("}")?;
         self.locals.pop();
 
-- 
2.43.0


From 97dbfedea777362e142ac10d80c06add8beef756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:04 +0000
Subject: [PATCH 27/37] fix: limit the size hint of nested loops instead of
 overflowing

---
 askama_derive/src/generator.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index 699f3aa..e09a793 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -17,6 +17,9 @@ use parser::node::{
 use parser::{Expr, Filter, Node};
 use quote::quote;
 
+// The most a loop contributes to the size hint of a template.
+const MAX_SIZE_HINT: usize = 1 << 20;
+
 pub(crate) struct Generator<'a> {
     // The template input state: original struct AST and attributes
     input: &'a TemplateInput<'a>,
@@ -587,7 +590,9 @@ impl<'a> Generator<'a> {
         buf.writeln("}")?;
         self.locals.pop();
 
-        Ok(flushed + ((size_hint1 * 3) + size_hint2) / 2)
+        // The hint grows exponentially in nested loops, so it has to be limited.
+        let size_hint = size_hint1.saturating_mul(3).saturating_add(size_hint2) / 2;
+        Ok(flushed + size_hint.min(MAX_SIZE_HINT))
     }
 
     fn write_call(
-- 
2.43.0


From 799219f4abb1c50ee422921a7913eeb238425673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:49 +0000
Subject: [PATCH 28/37] fix: return the error of a failing template from
 write_into instead of panicking

io::Write::write_fmt() panics if a Display implementation fails while the
writer does not, which is what an expression using ? does.
---
 askama/src/lib.rs | 43 ++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 40 insertions(+), 3 deletions(-)

diff --git a/askama/src/lib.rs b/askama/src/lib.rs
index 6f1f6c6..d79796f 100644
--- a/askama/src/lib.rs
+++ b/askama/src/lib.rs
@@ -66,7 +66,7 @@ mod error;
 pub mod filters;
 pub mod helpers;
 
-use std::fmt;
+use std::{fmt, io};
 
 pub use askama_derive::Template;
 pub use askama_escape::{Html, MarkupDisplay, Text};
@@ -93,7 +93,9 @@ pub trait Template: fmt::Display {
     /// Renders the template to the given `writer` io buffer
     #[inline]
     fn write_into(&self, writer: &mut (impl std::io::Write + ?Sized)) -> std::io::Result<()> {
-        writer.write_fmt(format_args!("{self}"))
+        let mut adapter = IoAdapter::new(writer);
+        let result = self.render_into(&mut adapter);
+        adapter.finish(result)
     }
 
     /// The template's extension, if provided
@@ -171,7 +173,7 @@ impl<T: Template> DynTemplate for T {
 
     #[inline]
     fn dyn_write_into(&self, writer: &mut dyn std::io::Write) -> std::io::Result<()> {
-        writer.write_fmt(format_args!("{self}"))
+        <Self as Template>::write_into(self, writer)
     }
 
     fn extension(&self) -> Option<&'static str> {
@@ -193,6 +195,41 @@ impl fmt::Display for dyn DynTemplate {
     }
 }
 
+/// Passes text on to an io writer, and keeps the error the writer fails with.
+///
+/// `io::Write::write_fmt()` can't be used for templates: it panics if a formatting implementation
+/// fails although the writer didn't, e.g. because of a `?` expression.
+struct IoAdapter<'a, W: ?Sized> {
+    writer: &'a mut W,
+    error: Option<io::Error>,
+}
+
+impl<'a, W: io::Write + ?Sized> IoAdapter<'a, W> {
+    fn new(writer: &'a mut W) -> Self {
+        Self {
+            writer,
+            error: None,
+        }
+    }
+
+    fn finish(self, result: Result<()>) -> io::Result<()> {
+        result.map_err(|err| {
+            self.error
+                .unwrap_or_else(|| io::Error::new(io::ErrorKind::Other, err))
+        })
+    }
+}
+
+impl<W: io::Write + ?Sized> fmt::Write for IoAdapter<'_, W> {
+    #[inline]
+    fn write_str(&mut self, s: &str) -> fmt::Result {
+        self.writer.write_all(s.as_bytes()).map_err(|err| {
+            self.error = Some(err);
+            fmt::Error
+        })
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use std::fmt;
-- 
2.43.0


From 3e0b15109882e4c735482226a675aab5ac966f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:05 +0000
Subject: [PATCH 29/37] fix: report a value that cannot be printed in filters
 instead of panicking

ToString::to_string() panics if the Display implementation of the value
fails, e.g. a template whose expression uses ?.
---
 askama/src/filters/mod.rs | 63 ++++++++++++++++++++++-----------------
 1 file changed, 35 insertions(+), 28 deletions(-)

diff --git a/askama/src/filters/mod.rs b/askama/src/filters/mod.rs
index 6ede866..fbf7710 100644
--- a/askama/src/filters/mod.rs
+++ b/askama/src/filters/mod.rs
@@ -219,21 +219,21 @@ pub fn format() {}
 /// A single newline becomes an HTML line break `<br>` and a new line
 /// followed by a blank line becomes a paragraph break `<p>`.
 #[inline]
-pub fn linebreaks(s: impl ToString) -> Result<impl fmt::Display, Infallible> {
-    fn linebreaks(s: String) -> Result<String, Infallible> {
+pub fn linebreaks(s: impl fmt::Display) -> Result<impl fmt::Display, fmt::Error> {
+    fn linebreaks(s: String) -> Result<String, fmt::Error> {
         let linebroken = s.replace("\n\n", "</p><p>").replace('\n', "<br/>");
         Ok(format!("<p>{linebroken}</p>"))
     }
-    linebreaks(s.to_string())
+    linebreaks(try_to_string(s)?)
 }
 
 /// Converts all newlines in a piece of plain text to HTML line breaks
 #[inline]
-pub fn linebreaksbr(s: impl ToString) -> Result<impl fmt::Display, Infallible> {
-    fn linebreaksbr(s: String) -> Result<String, Infallible> {
+pub fn linebreaksbr(s: impl fmt::Display) -> Result<impl fmt::Display, fmt::Error> {
+    fn linebreaksbr(s: String) -> Result<String, fmt::Error> {
         Ok(s.replace('\n', "<br/>"))
     }
-    linebreaksbr(s.to_string())
+    linebreaksbr(try_to_string(s)?)
 }
 
 /// Replaces only paragraph breaks in plain text with appropriate HTML
@@ -242,8 +242,8 @@ pub fn linebreaksbr(s: impl ToString) -> Result<impl fmt::Display, Infallible> {
 /// Paragraph tags only wrap content; empty paragraphs are removed.
 /// No `<br/>` tags are added.
 #[inline]
-pub fn paragraphbreaks(s: impl ToString) -> Result<impl fmt::Display, Infallible> {
-    fn paragraphbreaks(s: String) -> Result<String, Infallible> {
+pub fn paragraphbreaks(s: impl fmt::Display) -> Result<impl fmt::Display, fmt::Error> {
+    fn paragraphbreaks(s: String) -> Result<String, fmt::Error> {
         let mut paragraphs = String::new();
         for paragraph in s.split("\n\n").filter(|p| !p.is_empty()) {
             paragraphs.push_str("<p>");
@@ -252,36 +252,36 @@ pub fn paragraphbreaks(s: impl ToString) -> Result<impl fmt::Display, Infallible
         }
         Ok(paragraphs)
     }
-    paragraphbreaks(s.to_string())
+    paragraphbreaks(try_to_string(s)?)
 }
 
 /// Converts to lowercase
 #[inline]
-pub fn lower(s: impl ToString) -> Result<impl fmt::Display, Infallible> {
-    fn lower(s: String) -> Result<String, Infallible> {
+pub fn lower(s: impl fmt::Display) -> Result<impl fmt::Display, fmt::Error> {
+    fn lower(s: String) -> Result<String, fmt::Error> {
         Ok(s.to_lowercase())
     }
-    lower(s.to_string())
+    lower(try_to_string(s)?)
 }
 
 /// Alias for the `lower()` filter
 #[inline]
-pub fn lowercase(s: impl ToString) -> Result<impl fmt::Display, Infallible> {
+pub fn lowercase(s: impl fmt::Display) -> Result<impl fmt::Display, fmt::Error> {
     lower(s)
 }
 
 /// Converts to uppercase
 #[inline]
-pub fn upper(s: impl ToString) -> Result<impl fmt::Display, Infallible> {
-    fn upper(s: String) -> Result<String, Infallible> {
+pub fn upper(s: impl fmt::Display) -> Result<impl fmt::Display, fmt::Error> {
+    fn upper(s: String) -> Result<String, fmt::Error> {
         Ok(s.to_uppercase())
     }
-    upper(s.to_string())
+    upper(try_to_string(s)?)
 }
 
 /// Alias for the `upper()` filter
 #[inline]
-pub fn uppercase(s: impl ToString) -> Result<impl fmt::Display, Infallible> {
+pub fn uppercase(s: impl fmt::Display) -> Result<impl fmt::Display, fmt::Error> {
     upper(s)
 }
 
@@ -380,8 +380,8 @@ impl<S: fmt::Display> fmt::Display for TruncateFilter<S> {
 
 /// Indent lines with `width` spaces
 #[inline]
-pub fn indent(s: impl ToString, width: usize) -> Result<impl fmt::Display, Infallible> {
-    fn indent(s: String, width: usize) -> Result<String, Infallible> {
+pub fn indent(s: impl fmt::Display, width: usize) -> Result<impl fmt::Display, fmt::Error> {
+    fn indent(s: String, width: usize) -> Result<String, fmt::Error> {
         if width >= MAX_LEN || s.len() >= MAX_LEN {
             return Ok(s);
         }
@@ -397,7 +397,7 @@ pub fn indent(s: impl ToString, width: usize) -> Result<impl fmt::Display, Infal
         }
         Ok(indented)
     }
-    indent(s.to_string(), width)
+    indent(try_to_string(s)?, width)
 }
 
 #[cfg(feature = "num-traits")]
@@ -475,8 +475,8 @@ where
 
 /// Capitalize a value. The first character will be uppercase, all others lowercase.
 #[inline]
-pub fn capitalize(s: impl ToString) -> Result<impl fmt::Display, Infallible> {
-    fn capitalize(s: String) -> Result<String, Infallible> {
+pub fn capitalize(s: impl fmt::Display) -> Result<impl fmt::Display, fmt::Error> {
+    fn capitalize(s: String) -> Result<String, fmt::Error> {
         match s.chars().next() {
             Some(c) => {
                 let mut replacement: String = c.to_uppercase().collect();
@@ -486,7 +486,7 @@ pub fn capitalize(s: impl ToString) -> Result<impl fmt::Display, Infallible> {
             _ => Ok(s),
         }
     }
-    capitalize(s.to_string())
+    capitalize(try_to_string(s)?)
 }
 
 /// Centers the value in a field of a given width
@@ -512,18 +512,18 @@ impl<T: fmt::Display> fmt::Display for Center<T> {
 
 /// Count the words in that string.
 #[inline]
-pub fn wordcount(s: impl ToString) -> Result<usize, Infallible> {
-    fn wordcount(s: String) -> Result<usize, Infallible> {
+pub fn wordcount(s: impl fmt::Display) -> Result<usize, fmt::Error> {
+    fn wordcount(s: String) -> Result<usize, fmt::Error> {
         Ok(s.split_whitespace().count())
     }
-    wordcount(s.to_string())
+    wordcount(try_to_string(s)?)
 }
 
 /// Return a title cased version of the value. Words will start with uppercase letters, all
 /// remaining characters are lowercase.
 #[inline]
-pub fn title(s: impl ToString) -> Result<String, Infallible> {
-    let s = s.to_string();
+pub fn title(s: impl fmt::Display) -> Result<String, fmt::Error> {
+    let s = try_to_string(s)?;
     let mut need_capitalization = true;
 
     // Sadly enough, we can't mutate a string when iterating over its chars, likely because it could
@@ -549,6 +549,13 @@ pub fn title(s: impl ToString) -> Result<String, Infallible> {
     Ok(output)
 }
 
+/// Like [`ToString::to_string()`], but does not panic if the value cannot be printed
+fn try_to_string(s: impl fmt::Display) -> Result<String, fmt::Error> {
+    let mut result = String::new();
+    write!(result, "{s}")?;
+    Ok(result)
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 52986d6a57dca8b224f74b10567fcbbc9d6bb5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:06 +0000
Subject: [PATCH 30/37] fix: center values which ignore the width of the
 formatter

The padding was left to the Display implementation of the value, and
templates, results of other filters and most user types don't do it.
---
 askama/src/filters/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/askama/src/filters/mod.rs b/askama/src/filters/mod.rs
index fbf7710..f4157e0 100644
--- a/askama/src/filters/mod.rs
+++ b/askama/src/filters/mod.rs
@@ -503,7 +503,8 @@ struct Center<T> {
 impl<T: fmt::Display> fmt::Display for Center<T> {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         if self.width < MAX_LEN {
-            write!(f, "{: ^1$}", self.src, self.width)
+            // a value may ignore the width it is asked to fill, a string does not
+            write!(f, "{: ^1$}", try_to_string(&self.src)?, self.width)
         } else {
             write!(f, "{}", self.src)
         }
-- 
2.43.0


From 05a142dd257ae9d71ac5e6b0e02f0b10d191ee46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:11 +0000
Subject: [PATCH 31/37] fix: accept _ in the pattern of let whether or not it
 shadows a variable

---
 askama_derive/src/generator.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index e09a793..dfe8f59 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -930,6 +930,8 @@ impl<'a> Generator<'a> {
                 }
                 Ok(false)
             }
+            // `_` declares nothing
+            Target::Path(path) if path[..] == ["_"] => Ok(false),
             _ => Err("literals are not allowed on the left-hand side of an assignment".into()),
         }
     }
-- 
2.43.0


From afa6be2dbc4405177ff4d3644a25bce86e4f60e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:05 +0000
Subject: [PATCH 32/37] fix: answer with status 500 if a template fails to
 render in axum

---
 askama_axum/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/askama_axum/src/lib.rs b/askama_axum/src/lib.rs
index bbc47ab..75cf2a3 100644
--- a/askama_axum/src/lib.rs
+++ b/askama_axum/src/lib.rs
@@ -11,7 +11,7 @@ use axum_core::response::{IntoResponse, Response};
 /// Render a [`Template`] into a [`Response`], or render an error page.
 pub fn into_response<T: ?Sized + askama::Template>(tmpl: &T) -> Response {
     try_into_response(tmpl)
-        .map_err(|err| axum_core::response::ErrorResponse::from(err.to_string()))
+        .map_err(|err| (http::StatusCode::INTERNAL_SERVER_ERROR, err.to_string()))
         .into_response()
 }
 
-- 
2.43.0


From 2a40271a5256d30ff2097f2362ac9a556d5f959e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:13 +0000
Subject: [PATCH 33/37] fix: evaluate the object of an attribute given to a
 macro once

---
 askama_derive/src/generator.rs | 43 ++++++++++++++++++++++++----------
 1 file changed, 31 insertions(+), 12 deletions(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index dfe8f59..9c2561b 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -706,15 +706,31 @@ impl<'a> Generator<'a> {
                 // to avoid moving non-copyable values.
                 &Expr::Var(name) if name != "self" => {
                     let var = self.locals.resolve_or_self(name);
-                    params.push((param, Some(var)));
+                    params.push((param, Some(var), None));
                 }
                 // The variables of the caller's loop are hidden by any loop inside of the macro.
                 Expr::Attr(obj, attr) if **obj != Expr::Var("loop") => {
                     let mut attr_buf = Buffer::new(0);
-                    self.visit_attr(&mut attr_buf, obj, attr)?;
+                    if is_cacheable(obj) {
+                        self.visit_attr(&mut attr_buf, obj, attr)?;
 
-                    let var = self.locals.resolve(&attr_buf.buf).unwrap_or(attr_buf.buf);
-                    params.push((param, Some(var)));
+                        let var = self.locals.resolve(&attr_buf.buf).unwrap_or(attr_buf.buf);
+                        params.push((param, Some(var), None));
+                    } else {
+                        // The object must not be evaluated anew for each use of the parameter.
+                        let obj_var = format!("__arg{}_{index}", self.active_defs.len());
+                        if is_first_variable {
+                            is_first_variable = false
+                        } else {
+                            values.write(", ");
+                        }
+
+                        values.write("&(");
+                        values.write(&self.visit_expr_root(obj)?);
+                        values.write(")");
+                        self.visit_attr(&mut attr_buf, &Expr::Generated(obj_var.clone()), attr)?;
+                        params.push((param, Some(attr_buf.buf), Some(obj_var)));
+                    }
                 }
                 // Everything else still needs to become variables,
                 // to avoid having the same logic be executed
@@ -730,23 +746,26 @@ impl<'a> Generator<'a> {
                     values.write("(");
                     values.write(&self.visit_expr_root(expr)?);
                     values.write(")");
-                    params.push((param, None));
+                    params.push((param, None, None));
                 }
             }
         }
-        for (param, var) in &params {
+        for (param, var, _) in &params {
             if let Some(var) = var {
                 self.locals
                     .insert(Cow::Borrowed(*param), LocalMeta::with_ref(var.clone()));
             }
         }
-        for (param, var) in params {
-            if var.is_none() {
-                if !names.buf.is_empty() {
-                    names.write(", ");
-                }
-                names.write(&self.declare(param, true));
+        for (param, var, obj_var) in params {
+            let name = match (var, obj_var) {
+                (_, Some(obj_var)) => obj_var,
+                (None, None) => self.declare(param, true),
+                (Some(_), None) => continue,
+            };
+            if !names.buf.is_empty() {
+                names.write(", ");
             }
+            names.write(&name);
         }
 
         debug_assert_eq!(names.buf.is_empty(), values.buf.is_empty());
-- 
2.43.0


From 6a667a6408a9424f70540baf2fd6322784cc9157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:14 +0000
Subject: [PATCH 34/37] fix: reject a block attribute for a template without
 blocks

---
 askama_derive/src/lib.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/askama_derive/src/lib.rs b/askama_derive/src/lib.rs
index 46e9dda..cfd154b 100644
--- a/askama_derive/src/lib.rs
+++ b/askama_derive/src/lib.rs
@@ -87,19 +87,20 @@ pub(crate) fn build_template(ast: &syn::DeriveInput) -> Result<String, CompileEr
 
     let ctx = &contexts[&input.path];
     let heritage = if !ctx.blocks.is_empty() || ctx.extends.is_some() {
-        let heritage = Heritage::new(ctx, &contexts);
-
-        if let Some(block_name) = input.block {
-            if !heritage.blocks.contains_key(&block_name) {
-                return Err(format!("cannot find block {}", block_name).into());
-            }
-        }
-
-        Some(heritage)
+        Some(Heritage::new(ctx, &contexts))
     } else {
         None
     };
 
+    if let Some(block_name) = input.block {
+        let has_block = heritage
+            .as_ref()
+            .map_or(false, |heritage| heritage.blocks.contains_key(block_name));
+        if !has_block {
+            return Err(format!("cannot find block {}", block_name).into());
+        }
+    }
+
     if input.print == Print::Ast || input.print == Print::All {
         eprintln!("{:?}", templates[&input.path].nodes());
     }
-- 
2.43.0


From ddb00f2b86a4a582b39a16d232a872911b76cc9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:19 +0000
Subject: [PATCH 35/37] fix: do not end or extend a Rust macro call at a
 character literal

---
 askama_parser/src/expr.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/askama_parser/src/expr.rs b/askama_parser/src/expr.rs
index 94f7d40..0dfebea 100644
--- a/askama_parser/src/expr.rs
+++ b/askama_parser/src/expr.rs
@@ -350,7 +350,12 @@ impl<'a> Suffix<'a> {
             let mut in_str = false;
             let mut escaped = false;
 
+            let mut skip_to = 0;
+
             for (i, c) in input.char_indices() {
+                if i < skip_to {
+                    continue;
+                }
                 if !(c == '(' || c == ')') || !in_str {
                     match c {
                         '(' => nested += 1,
@@ -373,6 +378,12 @@ impl<'a> Suffix<'a> {
                         '\\' => {
                             escaped = !escaped;
                         }
+                        // What is in a character literal does not count. Lifetimes are no literals.
+                        '\'' if !in_str => {
+                            if let Ok((rest, _)) = char_lit(&input[i..]) {
+                                skip_to = input.len() - rest.len();
+                            }
+                        }
                         _ => (),
                     }
                 }
-- 
2.43.0


From 536e0b12e123f851cf8594ddb552fe95d62bddda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:29 +0000
Subject: [PATCH 36/37] fix: name bool and include_bytes by their absolute
 paths in the generated code

---
 askama_derive/src/generator.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index 9c2561b..d83120e 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -126,7 +126,7 @@ impl<'a> Generator<'a> {
                 let include_path = canonical_path.to_str().unwrap();
                 buf.writeln(
                     &quote! {
-                        include_bytes!(#include_path);
+                        ::std::include_bytes!(#include_path);
                     }
                     .to_string(),
                 )?;
@@ -423,7 +423,7 @@ impl<'a> Generator<'a> {
                     buf.write("*(&(");
                     let expr_code = self.visit_expr_root(expr)?;
                     buf.write(&expr_code);
-                    buf.write(") as &bool)");
+                    buf.write(") as &::std::primitive::bool)");
                 }
             } else {
                 buf.dedent()?;
@@ -549,7 +549,7 @@ impl<'a> Generator<'a> {
             self.locals.push();
             buf.write("let _iter = _iter.filter(|");
             self.visit_target(buf, true, true, &loop_block.var);
-            buf.write("| -> bool {");
+            buf.write("| -> ::std::primitive::bool {");
             self.visit_expr(buf, cond)?;
             buf.writeln("});")?;
             self.locals.pop();
@@ -871,7 +871,7 @@ impl<'a> Generator<'a> {
             let include_path = canonical_path.to_str().unwrap();
             buf.writeln(
                 &quote! {
-                    include_bytes!(#include_path);
+                    ::std::include_bytes!(#include_path);
                 }
                 .to_string(),
             )?;
-- 
2.43.0


From 6b401a788306cc9bbc672944d94d81e08bedfb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:14 +0000
Subject: [PATCH 37/37] fix: derive the same code and report the same error in
 every run

The order in which the used templates were listed in the code, and
which of several faulty templates was reported, followed the iteration
order of a HashMap and differed from one compilation to the next.
---
 askama_derive/src/generator.rs | 5 ++++-
 askama_derive/src/lib.rs       | 6 +++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index d83120e..69a5072 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -115,7 +115,10 @@ impl<'a> Generator<'a> {
         buf.writeln("::Result<()> {")?;
 
         // Make sure the compiler understands that the generated code depends on the template files.
-        for path in self.contexts.keys() {
+        // The order of the paths in the map differs from run to run, but the code must not.
+        let mut paths = self.contexts.keys().collect::<Vec<_>>();
+        paths.sort();
+        for path in paths {
             // Skip the fake path of templates defined in rust source.
             let path_is_valid = match self.input.source {
                 Source::Path(_) => true,
diff --git a/askama_derive/src/lib.rs b/askama_derive/src/lib.rs
index cfd154b..b00920d 100644
--- a/askama_derive/src/lib.rs
+++ b/askama_derive/src/lib.rs
@@ -80,8 +80,12 @@ pub(crate) fn build_template(ast: &syn::DeriveInput) -> Result<String, CompileEr
     let mut templates = HashMap::new();
     input.find_used_templates(&mut templates)?;
 
+    // If more than one of the templates is faulty, then always the same error has to be reported.
+    let mut used_templates = templates.iter().collect::<Vec<_>>();
+    used_templates.sort_by_key(|&(path, _)| path);
+
     let mut contexts = HashMap::new();
-    for (path, parsed) in &templates {
+    for (path, parsed) in used_templates {
         contexts.insert(path, Context::new(input.config, path, parsed.nodes())?);
     }
 
-- 
2.43.0

