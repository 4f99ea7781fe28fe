From b85d6f8b8569e467609a79469ff96770ec267d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:21 +0000
Subject: [PATCH 01/32] fix: drop pending spaces when a line break is ignored
 or already pending

A space followed by a push or line which has no effect of its own (at the
start of output, or when a line is already pending) leaked into the
beginning of the next line as a stray leading space.
---
 src/fmt/formatter.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fmt/formatter.rs b/src/fmt/formatter.rs
index 922ba69..d25ea33 100644
--- a/src/fmt/formatter.rs
+++ b/src/fmt/formatter.rs
@@ -109,23 +109,23 @@ impl<'a> Formatter<'a> {
     }
 
     fn push(&mut self) {
+        self.spaces = 0;
+
         self.line = match self.line {
             Whitespace::Initial => return,
             Whitespace::Line => return,
             _ => Whitespace::Push,
         };
-
-        self.spaces = 0;
     }
 
     /// Push a new line.
     fn line(&mut self) {
+        self.spaces = 0;
+
         self.line = match self.line {
             Whitespace::Initial => return,
             _ => Whitespace::Line,
         };
-
-        self.spaces = 0;
     }
 
     /// Push a space.
-- 
2.43.0


From d11f897100435abb06522aab320443931fff786f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:21 +0000
Subject: [PATCH 02/32] fix: map string escapes to the characters they denote

`\f` and `\v` were emitted for U+0012 and U+0011 (the octal values of form
feed and vertical tab minus two) instead of U+000C and U+000B, and Java
emitted `\b` and `\f` for U+0007 and U+0014. The generated literals decoded
to different characters than the ones being quoted.
---
 src/lang/dart/mod.rs | 4 ++--
 src/lang/java/mod.rs | 4 ++--
 src/lang/js.rs       | 4 ++--
 src/lang/mod.rs      | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/lang/dart/mod.rs b/src/lang/dart/mod.rs
index 077f932..cf2d765 100644
--- a/src/lang/dart/mod.rs
+++ b/src/lang/dart/mod.rs
@@ -100,7 +100,7 @@ impl_lang! {
                     // backspace
                     '\u{0008}' => out.write_str("\\b")?,
                     // form feed
-                    '\u{0012}' => out.write_str("\\f")?,
+                    '\u{000c}' => out.write_str("\\f")?,
                     // new line
                     '\n' => out.write_str("\\n")?,
                     // carriage return
@@ -108,7 +108,7 @@ impl_lang! {
                     // horizontal tab
                     '\t' => out.write_str("\\t")?,
                     // vertical tab
-                    '\u{0011}' => out.write_str("\\v")?,
+                    '\u{000b}' => out.write_str("\\v")?,
                     // Note: only relevant if we were to use single-quoted strings.
                     // '\'' => out.write_str("\\'")?,
                     '"' => out.write_str("\\\"")?,
diff --git a/src/lang/java/mod.rs b/src/lang/java/mod.rs
index 265bee9..a4e195a 100644
--- a/src/lang/java/mod.rs
+++ b/src/lang/java/mod.rs
@@ -44,10 +44,10 @@ impl_lang! {
             for c in input.chars() {
                 match c {
                     '\t' => out.write_str("\\t")?,
-                    '\u{0007}' => out.write_str("\\b")?,
+                    '\u{0008}' => out.write_str("\\b")?,
                     '\n' => out.write_str("\\n")?,
                     '\r' => out.write_str("\\r")?,
-                    '\u{0014}' => out.write_str("\\f")?,
+                    '\u{000c}' => out.write_str("\\f")?,
                     '\'' => out.write_str("\\'")?,
                     '"' => out.write_str("\\\"")?,
                     '\\' => out.write_str("\\\\")?,
diff --git a/src/lang/js.rs b/src/lang/js.rs
index 6d129e4..182a5ca 100644
--- a/src/lang/js.rs
+++ b/src/lang/js.rs
@@ -129,7 +129,7 @@ impl_lang! {
                     // backspace
                     '\u{0008}' => out.write_str("\\b")?,
                     // form feed
-                    '\u{0012}' => out.write_str("\\f")?,
+                    '\u{000c}' => out.write_str("\\f")?,
                     // new line
                     '\n' => out.write_str("\\n")?,
                     // carriage return
@@ -137,7 +137,7 @@ impl_lang! {
                     // horizontal tab
                     '\t' => out.write_str("\\t")?,
                     // vertical tab
-                    '\u{0011}' => out.write_str("\\v")?,
+                    '\u{000b}' => out.write_str("\\v")?,
                     // null character.
                     '\0' => out.write_str("\\0")?,
                     // Note: only relevant if we were to use single-quoted strings.
diff --git a/src/lang/mod.rs b/src/lang/mod.rs
index 85d2852..88c80aa 100644
--- a/src/lang/mod.rs
+++ b/src/lang/mod.rs
@@ -187,7 +187,7 @@ pub fn c_family_write_quoted(out: &mut fmt::Formatter, input: &str) -> fmt::Resu
             // backspace
             '\u{0008}' => out.write_str("\\b")?,
             // form feed
-            '\u{0012}' => out.write_str("\\f")?,
+            '\u{000c}' => out.write_str("\\f")?,
             // new line
             '\n' => out.write_str("\\n")?,
             // carriage return
@@ -195,7 +195,7 @@ pub fn c_family_write_quoted(out: &mut fmt::Formatter, input: &str) -> fmt::Resu
             // horizontal tab
             '\t' => out.write_str("\\t")?,
             // vertical tab
-            '\u{0011}' => out.write_str("\\v")?,
+            '\u{000b}' => out.write_str("\\v")?,
             '\'' => out.write_str("\\'")?,
             '"' => out.write_str("\\\"")?,
             '\\' => out.write_str("\\\\")?,
-- 
2.43.0


From ec6886fd898db4b16420108eb46e115b00548099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:21 +0000
Subject: [PATCH 03/32] fix: do not escape single quotes in C-family string
 literals

`\'` is not a legal escape inside of a double-quoted string in Go, and
escaping it is unnecessary in all other languages using this function.
---
 src/lang/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lang/mod.rs b/src/lang/mod.rs
index 88c80aa..619cb54 100644
--- a/src/lang/mod.rs
+++ b/src/lang/mod.rs
@@ -196,7 +196,8 @@ pub fn c_family_write_quoted(out: &mut fmt::Formatter, input: &str) -> fmt::Resu
             '\t' => out.write_str("\\t")?,
             // vertical tab
             '\u{000b}' => out.write_str("\\v")?,
-            '\'' => out.write_str("\\'")?,
+            // Note: `'` is not escaped, since it's only relevant in single-quoted
+            // strings and is an illegal escape in Go.
             '"' => out.write_str("\\\"")?,
             '\\' => out.write_str("\\\\")?,
             ' ' => out.write_char(' ')?,
-- 
2.43.0


From bc696f99fda03b28b5b6d5ae09e0fd508680ecc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:09 +0000
Subject: [PATCH 04/32] fix: write control characters in C strings as octal
 escapes

Hexadecimal escapes in C consume every hexadecimal digit which follows, so
"\x7fab" denoted a single (out of range) character. Universal character names
must not denote the control characters in U+0080..U+009F.
---
 src/lang/c.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/lang/c.rs b/src/lang/c.rs
index 15e0b7d..afca75a 100644
--- a/src/lang/c.rs
+++ b/src/lang/c.rs
@@ -20,7 +20,25 @@ impl_lang! {
         type Item = Import;
 
         fn write_quoted(out: &mut fmt::Formatter<'_>, input: &str) -> fmt::Result {
-            super::c_family_write_quoted(out, input)
+            for c in input.chars() {
+                let mut buf = [0; 4];
+                let s = c.encode_utf8(&mut buf);
+
+                // Hexadecimal escapes in C are unbounded so they would consume
+                // any hexadecimal digits which follow, and universal character
+                // names can't denote control characters. So control characters
+                // without a short escape are written as octal escapes, which
+                // are always three digits.
+                if c.is_control() && !matches!(c, '\u{0007}'..='\u{000d}') {
+                    for b in s.bytes() {
+                        write!(out, "\\{:03o}", b)?;
+                    }
+                } else {
+                    super::c_family_write_quoted(out, s)?;
+                }
+            }
+
+            Ok(())
         }
 
         fn format_file(
-- 
2.43.0


From 876ab3aaf106c9fd1bde26be578da45e92b47619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:09 +0000
Subject: [PATCH 05/32] fix: use fixed-length escapes in C# strings when
 followed by a digit

`\x` in C# consumes up to four hexadecimal digits, so "\x7fab" denoted a
single U+7FAB character.
---
 src/lang/csharp/mod.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/lang/csharp/mod.rs b/src/lang/csharp/mod.rs
index 5606b3a..b732b10 100644
--- a/src/lang/csharp/mod.rs
+++ b/src/lang/csharp/mod.rs
@@ -45,7 +45,21 @@ impl_lang! {
 
         fn write_quoted(out: &mut fmt::Formatter<'_>, input: &str) -> fmt::Result {
             // From: https://csharpindepth.com/articles/Strings
-            super::c_family_write_quoted(out, input)
+            let mut it = input.chars().peekable();
+
+            while let Some(c) = it.next() {
+                // `\x` consumes up to four hexadecimal digits, so it can only
+                // be used if it's followed by something else.
+                let terminated = matches!(it.peek(), Some(c) if !c.is_ascii_hexdigit());
+
+                if c.is_ascii_control() && !matches!(c, '\u{0007}'..='\u{000d}') && !terminated {
+                    write!(out, "\\u{:04x}", c as u32)?;
+                } else {
+                    super::c_family_write_quoted(out, c.encode_utf8(&mut [0; 4]))?;
+                }
+            }
+
+            Ok(())
         }
 
         fn format_file(
-- 
2.43.0


From 8643e3f93ec1d2bfed9b2ae0159cd2853d63a015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:09 +0000
Subject: [PATCH 06/32] fix: do not use the null escape in JavaScript strings

`\0` followed by a digit is a legacy octal escape, which denotes a different
character and is illegal in template literals and strict mode.
---
 src/lang/js.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/lang/js.rs b/src/lang/js.rs
index 182a5ca..f276d2c 100644
--- a/src/lang/js.rs
+++ b/src/lang/js.rs
@@ -138,8 +138,6 @@ impl_lang! {
                     '\t' => out.write_str("\\t")?,
                     // vertical tab
                     '\u{000b}' => out.write_str("\\v")?,
-                    // null character.
-                    '\0' => out.write_str("\\0")?,
                     // Note: only relevant if we were to use single-quoted strings.
                     // '\'' => out.write_str("\\'")?,
                     '"' => out.write_str("\\\"")?,
-- 
2.43.0


From 4e8da10de953209304c0d352c5c77841c7f62c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:09 +0000
Subject: [PATCH 07/32] fix: escape template literal syntax in JavaScript
 strings

Text in an interpolated string containing a backtick or `${` terminated the
template literal or started a substitution.
---
 src/lang/js.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lang/js.rs b/src/lang/js.rs
index f276d2c..b07b030 100644
--- a/src/lang/js.rs
+++ b/src/lang/js.rs
@@ -124,8 +124,13 @@ impl_lang! {
         fn write_quoted(out: &mut fmt::Formatter<'_>, input: &str) -> fmt::Result {
             // Reference: https://mathiasbynens.be/notes/javascript-escapes
 
-            for c in input.chars() {
+            let mut it = input.chars().peekable();
+
+            while let Some(c) = it.next() {
                 match c {
+                    // Note: only relevant in template literals.
+                    '`' => out.write_str("\\`")?,
+                    '$' if matches!(it.peek(), None | Some('{')) => out.write_str("\\$")?,
                     // backspace
                     '\u{0008}' => out.write_str("\\b")?,
                     // form feed
-- 
2.43.0


From ca3c3342f61f09dff2fb93d7d37a9c9722a5024d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:09 +0000
Subject: [PATCH 08/32] fix: only use escapes supported by Nix in Nix strings

Nix only knows about the `\n`, `\r`, and `\t` escapes. Any other escaped
character denotes itself, so for example `\u03c0` denoted the text "u03c0".
---
 src/lang/nix.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/lang/nix.rs b/src/lang/nix.rs
index 9e71ad6..3b08e61 100644
--- a/src/lang/nix.rs
+++ b/src/lang/nix.rs
@@ -21,7 +21,23 @@ impl_lang! {
         type Item = Import;
 
         fn write_quoted(out: &mut fmt::Formatter<'_>, input: &str) -> fmt::Result {
-            super::c_family_write_quoted(out, input)
+            // From: https://nix.dev/manual/nix/stable/language/string-literals
+
+            for c in input.chars() {
+                match c {
+                    // new line
+                    '\n' => out.write_str("\\n")?,
+                    // carriage return
+                    '\r' => out.write_str("\\r")?,
+                    // horizontal tab
+                    '\t' => out.write_str("\\t")?,
+                    '"' => out.write_str("\\\"")?,
+                    '\\' => out.write_str("\\\\")?,
+                    c => out.write_char(c)?,
+                };
+            }
+
+            Ok(())
         }
 
         fn format_file(
-- 
2.43.0


From 9bd6ffd4f65b21973d5539d3375c2d2c854be251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:09 +0000
Subject: [PATCH 09/32] fix: delimit interpolated Dart expressions which are
 not identifiers

`$a.b` only interpolates `a` in Dart, so any expression which is not a single
identifier must be written as `${a.b}`.
---
 src/lang/dart/mod.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/lang/dart/mod.rs b/src/lang/dart/mod.rs
index cf2d765..cd5e7e6 100644
--- a/src/lang/dart/mod.rs
+++ b/src/lang/dart/mod.rs
@@ -67,7 +67,15 @@ impl_lang! {
             _format: &Self::Format,
             literal: &str,
         ) -> fmt::Result {
-            write!(out, "${}", literal)?;
+            let identifier = literal.chars().all(|c| c.is_ascii_alphanumeric() || c == '_')
+                && !literal.starts_with(|c: char| c.is_ascii_digit());
+
+            if identifier {
+                write!(out, "${}", literal)?;
+            } else {
+                write!(out, "${{{}}}", literal)?;
+            }
+
             Ok(())
         }
 
-- 
2.43.0


From e815376997e91f87bdf91f4add753ee62d03f9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:09 +0000
Subject: [PATCH 10/32] fix: format strings nested more than one level deep

The closing quote of an inner string was mistaken for the end of the buffered
quoted string, which caused formatting to fail on well-formed streams like
`quoted(quoted(quoted("x")))`.
---
 src/fmt/formatter.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fmt/formatter.rs b/src/fmt/formatter.rs
index d25ea33..2bbfcd7 100644
--- a/src/fmt/formatter.rs
+++ b/src/fmt/formatter.rs
@@ -188,13 +188,13 @@ impl<'a> Formatter<'a> {
                     L::write_quoted(self, &buf)?;
                     buf.clear();
                 }
-                Item::CloseQuote if end_on_close_quote => {
-                    return Ok(());
-                }
                 Item::CloseQuote if *in_quote => {
                     *in_quote = false;
                     L::close_quote(self, config, format, mem::take(has_eval))?;
                 }
+                Item::CloseQuote if end_on_close_quote => {
+                    return Ok(());
+                }
                 Item::Lang(_, lang) => {
                     lang.format(self, config, format)?;
                 }
-- 
2.43.0


From fd08e74a6032324e9b87dfe89dfe6045a4b3a3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:45 +0000
Subject: [PATCH 11/32] fix: reject rows indented less than the first row

A row starting to the left of the first row doesn't match any previously known
indentation level, which is documented to be an error. Instead all whitespace
was dropped, which joined the last token of one row with the first token of
the next.
---
 genco-macros/src/encoder.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/genco-macros/src/encoder.rs b/genco-macros/src/encoder.rs
index 3f517be..81e3284 100644
--- a/genco-macros/src/encoder.rs
+++ b/genco-macros/src/encoder.rs
@@ -415,6 +415,12 @@ impl<'a> Encoder<'a> {
                     self.output.extend(q::quote!(#r.line();));
                 }
             } else if last_start_column > to.column {
+                // There are no known indentation levels to match against. Note
+                // that the start and end of a span are not rows on their own.
+                if self.indents.is_empty() && self.last.is_some() && to_span.is_some() {
+                    return Err(indentation_error(to.column, last_start_column, to_span));
+                }
+
                 while let Some((column, _)) = self.indents.pop() {
                     if column > to.column && !self.indents.is_empty() {
                         self.output.extend(q::quote!(#r.unindent();));
-- 
2.43.0


From 4ca062eb7ba1f82ceab1c5692156ec0c64cf1fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:45 +0000
Subject: [PATCH 12/32] fix: parse attributes on match arms

Attributes were parsed from after the body of the match rather than from inside
of it, so a match arm with an attribute was a syntax error.
---
 genco-macros/src/quote.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/genco-macros/src/quote.rs b/genco-macros/src/quote.rs
index 82c4fd2..835d7ae 100644
--- a/genco-macros/src/quote.rs
+++ b/genco-macros/src/quote.rs
@@ -196,7 +196,7 @@ impl<'a> Quote<'a> {
         let mut arms = Vec::new();
 
         while !body.is_empty() {
-            let attr = input.call(syn::Attribute::parse_outer)?;
+            let attr = body.call(syn::Attribute::parse_outer)?;
             let pattern = syn::Pat::parse_multi_with_leading_vert(&body)?;
 
             let condition = if body.peek(Token![if]) {
-- 
2.43.0


From 6e7bd9d989560b7857a70a853bbb53c86eedce20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:10 +0000
Subject: [PATCH 13/32] fix: do not combine aliased and qualified Python
 imports

An import which was both aliased and qualified rendered as `module.alias` with
only `import module` in the preamble, which is an undefined name. As documented,
aliasing implies not qualified and the other way around.
---
 src/lang/python.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/lang/python.rs b/src/lang/python.rs
index f6272ee..fe1e3bb 100644
--- a/src/lang/python.rs
+++ b/src/lang/python.rs
@@ -110,6 +110,14 @@ enum TypeModule {
 }
 
 impl TypeModule {
+    fn unqualified(self) -> Self {
+        match self {
+            Self::Qualified { module, .. } | Self::Unqualified { module } => {
+                Self::Unqualified { module }
+            }
+        }
+    }
+
     fn qualified(self) -> Self {
         match self {
             Self::Unqualified { module } => Self::Qualified {
@@ -175,6 +183,7 @@ impl Import {
         T: Into<ItemStr>,
     {
         Self {
+            module: self.module.unqualified(),
             alias: Some(alias.into()),
             ..self
         }
@@ -204,6 +213,7 @@ impl Import {
     pub fn qualified(self) -> Self {
         Self {
             module: self.module.qualified(),
+            alias: None,
             ..self
         }
     }
@@ -237,6 +247,7 @@ impl Import {
     {
         Self {
             module: self.module.with_alias(module_alias),
+            alias: None,
             ..self
         }
     }
-- 
2.43.0


From a6efc1421b5c5d2344292cf8868e665d46f5323b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:10 +0000
Subject: [PATCH 14/32] fix: render every default import of a JavaScript module

Only one of the default imports registered for a module was imported if there
were more than one with different names, leaving the others undefined.
---
 src/lang/js.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/lang/js.rs b/src/lang/js.rs
index b07b030..59fcaa4 100644
--- a/src/lang/js.rs
+++ b/src/lang/js.rs
@@ -435,7 +435,7 @@ impl JavaScript {
                 }
                 ImportKind::Default => {
                     let module = modules.entry(&import.module).or_default();
-                    module.default_import = Some(&import.name);
+                    module.default_imports.insert(&import.name);
                 }
                 ImportKind::Wildcard => {
                     wildcards.insert((&import.module, &import.name));
@@ -455,10 +455,20 @@ impl JavaScript {
         }
 
         for (name, module) in modules {
+            let mut defaults = module.default_imports.into_iter();
+            let default_import = defaults.next();
+
+            for default in defaults {
+                out.push();
+                quote_in! { *out =>
+                    import $default from $(ref t => render_from(t, config.module_path.as_deref(), name));
+                }
+            }
+
             out.push();
             quote_in! { *out =>
                 import $(ref tokens => {
-                    if let Some(default) = module.default_import {
+                    if let Some(default) = default_import {
                         tokens.append(ItemStr::from(default));
 
                         if !module.set.is_empty() {
@@ -498,7 +508,7 @@ impl JavaScript {
 
         #[derive(Default)]
         struct ResolvedModule<'a> {
-            default_import: Option<&'a ItemStr>,
+            default_imports: BTreeSet<&'a ItemStr>,
             set: BTreeSet<ImportedElement<'a>>,
         }
 
-- 
2.43.0


From 8b71f0c333d4dc071e14203d7ca7b6950bf5e228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:10 +0000
Subject: [PATCH 15/32] fix: import dart:core when it has been aliased

The alias was used but never declared, since all imports of dart:core were
assumed to be implicit.
---
 src/lang/dart/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lang/dart/mod.rs b/src/lang/dart/mod.rs
index cd5e7e6..02bf383 100644
--- a/src/lang/dart/mod.rs
+++ b/src/lang/dart/mod.rs
@@ -202,7 +202,13 @@ impl Dart {
 
         for import in input.walk_imports() {
             if &*import.path == DART_CORE {
-                continue;
+                if import.alias.is_none() {
+                    continue;
+                }
+
+                // Explicitly importing the core library disables the implicit,
+                // unprefixed import of it.
+                modules.insert((import.path.clone(), None));
             }
 
             modules.insert((import.path.clone(), import.alias.clone()));
-- 
2.43.0


From a6a9e978e017830fc0a73cbbedf9411377898b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:27 +0000
Subject: [PATCH 16/32] fix: qualify Java names which are shadowed by an import

A name in `java.lang` or in the package of the file was never qualified, even if
the same name was imported from a different package in which case it referred
to the wrong type.
---
 src/lang/java/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lang/java/mod.rs b/src/lang/java/mod.rs
index a4e195a..173bc9d 100644
--- a/src/lang/java/mod.rs
+++ b/src/lang/java/mod.rs
@@ -90,7 +90,11 @@ impl_lang! {
             let imported = format.imported.get(self.name.as_ref()).map(String::as_str);
             let pkg = Some(self.package.as_ref());
 
-            if &*self.package != JAVA_LANG && imported != pkg && file_package != pkg {
+            let implicit = &*self.package == JAVA_LANG || file_package == pkg;
+
+            // Note: names which are implicitly available are shadowed by names
+            // which are imported.
+            if imported != pkg && (imported.is_some() || !implicit) {
                 out.write_str(self.package.as_ref())?;
                 out.write_str(SEP)?;
             }
@@ -198,6 +202,7 @@ impl Java {
             }
 
             if Some(&*package) == file_package {
+                imported.insert(name.to_string(), package.to_string());
                 continue;
             }
 
-- 
2.43.0


From f8ca2c6cc3146fe7aa0a73ebd3c713297935b462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:27 +0000
Subject: [PATCH 17/32] fix: qualify ambiguous and shadowed C# names

All types in an imported namespace are in scope, so a name which is present in
more than one imported namespace can't be used unqualified. Names declared in
the current namespace shadow imported ones, so the latter must be qualified.
---
 src/lang/csharp/mod.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/lang/csharp/mod.rs b/src/lang/csharp/mod.rs
index b732b10..4343e1a 100644
--- a/src/lang/csharp/mod.rs
+++ b/src/lang/csharp/mod.rs
@@ -201,7 +201,14 @@ impl Csharp {
 
         let mut imported = BTreeSet::new();
 
-        for (namespace, name) in modules {
+        // Names in the current namespace shadow names which are imported.
+        for &(namespace, name) in &modules {
+            if Some(namespace) == config.namespace.as_deref() {
+                imported_names.insert(name.to_string(), namespace.to_string());
+            }
+        }
+
+        for &(namespace, name) in &modules {
             if Some(namespace) == config.namespace.as_deref() {
                 continue;
             }
@@ -223,6 +230,14 @@ impl Csharp {
             imported_names.insert(name.to_string(), namespace.to_string());
         }
 
+        // Names which are present in more than one of the imported namespaces
+        // are ambiguous, so no namespace can be used unqualified.
+        for &(namespace, name) in &modules {
+            if imported.contains(namespace) && imported_names[name] != namespace {
+                imported_names.insert(name.to_string(), String::new());
+            }
+        }
+
         out.line();
     }
 }
-- 
2.43.0


From 1254120f78915b3539cdd4f173d5d17763861506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:43 +0000
Subject: [PATCH 18/32] fix: collect imports from nested Nix variables

Only inherits and arguments directly in the value of a variable were collected,
so variables and withs used by the value, and anything used by those, were
undefined names in the generated file.
---
 src/lang/nix.rs | 47 +++++++++++++++++++++--------------------------
 1 file changed, 21 insertions(+), 26 deletions(-)

diff --git a/src/lang/nix.rs b/src/lang/nix.rs
index 3b08e61..83e3019 100644
--- a/src/lang/nix.rs
+++ b/src/lang/nix.rs
@@ -4,6 +4,7 @@ use core::fmt::Write as _;
 
 use alloc::collections::BTreeSet;
 use alloc::string::ToString;
+use alloc::vec::Vec;
 
 use crate as genco;
 use crate::fmt;
@@ -134,10 +135,26 @@ impl Config {
 }
 
 impl Nix {
+    /// Walk all imports, including the ones in the values of variables.
+    fn walk(tokens: &Tokens) -> Vec<&Import> {
+        let mut imports = tokens.walk_imports().collect::<Vec<_>>();
+        let mut n = 0;
+
+        while let Some(&import) = imports.get(n) {
+            if let Import::Variable(variable) = import {
+                imports.extend(variable.value.walk_imports());
+            }
+
+            n += 1;
+        }
+
+        imports
+    }
+
     fn arguments(out: &mut Tokens, tokens: &Tokens) {
         let mut arguments = BTreeSet::new();
 
-        for imports in tokens.walk_imports() {
+        for imports in Self::walk(tokens) {
             match imports {
                 Import::Argument(argument) => {
                     arguments.insert(argument.0.to_string());
@@ -148,23 +165,7 @@ impl Nix {
                         arguments.insert(a.to_string());
                     }
                 }
-                Import::Variable(variable) => {
-                    let value = &variable.value;
-                    for import in value.walk_imports() {
-                        match import {
-                            Import::Inherit(inherit) => {
-                                let argument = inherit.path.split('.').next();
-                                if let Some(a) = argument {
-                                    arguments.insert(a.to_string());
-                                }
-                            }
-                            Import::Argument(argument) => {
-                                arguments.insert(argument.0.to_string());
-                            }
-                            _ => (),
-                        }
-                    }
-                }
+                Import::Variable(..) => (),
                 Import::With(with) => {
                     let argument = with.argument.split('.').next();
                     if let Some(a) = argument {
@@ -196,7 +197,7 @@ impl Nix {
     fn withs(out: &mut Tokens, tokens: &Tokens) {
         let mut withs = BTreeSet::new();
 
-        for imports in tokens.walk_imports() {
+        for imports in Self::walk(tokens) {
             if let Import::With(with) = imports {
                 withs.insert(&with.argument);
             }
@@ -218,18 +219,12 @@ impl Nix {
         let mut inherits = BTreeSet::new();
         let mut variables = BTreeSet::new();
 
-        for imports in tokens.walk_imports() {
+        for imports in Self::walk(tokens) {
             match imports {
                 Import::Inherit(inherit) => {
                     inherits.insert((&inherit.path, &inherit.name));
                 }
                 Import::Variable(variable) => {
-                    let value = &variable.value;
-                    for import in value.walk_imports() {
-                        if let Import::Inherit(inherit) = import {
-                            inherits.insert((&inherit.path, &inherit.name));
-                        }
-                    }
                     variables.insert((&variable.name, &variable.value));
                 }
                 _ => (),
-- 
2.43.0


From 5707e8d3ebc98b3f37f99231c5814a6b43515089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:57 +0000
Subject: [PATCH 19/32] fix: reject evaluation inside of buffered strings

---
 src/fmt/formatter.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fmt/formatter.rs b/src/fmt/formatter.rs
index 2bbfcd7..91ac1be 100644
--- a/src/fmt/formatter.rs
+++ b/src/fmt/formatter.rs
@@ -174,6 +174,10 @@ impl<'a> Formatter<'a> {
                         self.write_str(literal)?;
                     }
                 }
+                // Buffered strings do not support evaluation.
+                Item::OpenQuote(true) | Item::OpenEval if end_on_close_quote => {
+                    return Err(core::fmt::Error);
+                }
                 Item::OpenQuote(e) if !*in_quote => {
                     *has_eval = *e;
                     *in_quote = true;
-- 
2.43.0


From 7274ffd810b6d0d3377734d0070b37cbef09200a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:20 +0000
Subject: [PATCH 20/32] fix: do not close an evaluation inside of a string

---
 src/fmt/formatter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fmt/formatter.rs b/src/fmt/formatter.rs
index 91ac1be..b53ddda 100644
--- a/src/fmt/formatter.rs
+++ b/src/fmt/formatter.rs
@@ -231,7 +231,7 @@ impl<'a> Formatter<'a> {
                     }
                 }
                 // Eval are only allowed within quotes.
-                Item::CloseEval if *end_on_eval => {
+                Item::CloseEval if *end_on_eval && !*in_quote => {
                     L::end_string_eval(self, config, format)?;
                     stack.pop();
                 }
-- 
2.43.0


From fca2a86a0a39e680c83e8e8e1df3af4796af28ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:05 +0000
Subject: [PATCH 21/32] fix: do not declare a Rust module twice when its parent
 imports it by name

---
 src/lang/rust.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/lang/rust.rs b/src/lang/rust.rs
index 439e1ea..8cbeb8b 100644
--- a/src/lang/rust.rs
+++ b/src/lang/rust.rs
@@ -41,6 +41,7 @@
 use core::fmt::Write as _;
 
 use alloc::collections::{BTreeMap, BTreeSet, VecDeque};
+use alloc::string::ToString;
 
 use crate::fmt;
 use crate::tokens::ItemStr;
@@ -461,6 +462,23 @@ impl Rust {
 
         let mut has_any = false;
 
+        // A module might be imported by name from its parent, in which case
+        // it's not declared a second time.
+        let mut parents = BTreeSet::new();
+
+        for (m, module) in &modules {
+            for (name, alias) in &module.names {
+                parents.insert((m.to_string() + SEP + name, *alias));
+            }
+        }
+
+        for (m, module) in &mut modules {
+            module.self_import &= !parents.contains(&(m.to_string(), None));
+            module
+                .self_aliases
+                .retain(|alias| !parents.contains(&(m.to_string(), Some(*alias))));
+        }
+
         for (m, module) in modules {
             let mut render = module.iter(m);
 
-- 
2.43.0


From 6f9d854c2db14363044670c21be3cf0cb165f9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:05 +0000
Subject: [PATCH 22/32] fix: qualify C# names which are shadowed by enclosing
 namespaces

---
 src/lang/csharp/mod.rs | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/lang/csharp/mod.rs b/src/lang/csharp/mod.rs
index 4343e1a..9a43604 100644
--- a/src/lang/csharp/mod.rs
+++ b/src/lang/csharp/mod.rs
@@ -201,11 +201,19 @@ impl Csharp {
 
         let mut imported = BTreeSet::new();
 
-        // Names in the current namespace shadow names which are imported.
-        for &(namespace, name) in &modules {
-            if Some(namespace) == config.namespace.as_deref() {
-                imported_names.insert(name.to_string(), namespace.to_string());
+        // Names in the current namespace, and the namespaces enclosing it,
+        // shadow names which are imported.
+        let mut shadowed = BTreeSet::new();
+        let mut enclosing = config.namespace.as_deref();
+
+        while let Some(current) = enclosing {
+            for &(namespace, name) in &modules {
+                if namespace == current && shadowed.insert(name) {
+                    imported_names.insert(name.to_string(), namespace.to_string());
+                }
             }
+
+            enclosing = current.rsplit_once(SEP).map(|(parent, _)| parent);
         }
 
         for &(namespace, name) in &modules {
@@ -214,10 +222,8 @@ impl Csharp {
             }
 
             match imported_names.get(name) {
-                // already imported...
-                Some(existing) if existing == namespace => continue,
                 // already imported, as something else...
-                Some(_) => continue,
+                Some(existing) if existing != namespace => continue,
                 _ => {}
             }
 
@@ -233,7 +239,10 @@ impl Csharp {
         // Names which are present in more than one of the imported namespaces
         // are ambiguous, so no namespace can be used unqualified.
         for &(namespace, name) in &modules {
-            if imported.contains(namespace) && imported_names[name] != namespace {
+            if imported.contains(namespace)
+                && imported_names[name] != namespace
+                && !shadowed.contains(name)
+            {
                 imported_names.insert(name.to_string(), String::new());
             }
         }
-- 
2.43.0


From 2aa97d911244fcf84683251bb95e58944644f6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:03 +0000
Subject: [PATCH 23/32] fix: respect whitespace around interpolated expressions
 in strings

The documentation says that `$(foo)` is not the same as `$(foo )` since the
latter will have a space preserved at the end. The span used for this was the one
of the first token of the expression rather than the one of the parenthesis, so
that spaces were dropped, and expressions spanning multiple rows were seen as
mismatched.
---
 genco-macros/src/string_parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/genco-macros/src/string_parser.rs b/genco-macros/src/string_parser.rs
index 5f7dc52..01585a9 100644
--- a/genco-macros/src/string_parser.rs
+++ b/genco-macros/src/string_parser.rs
@@ -288,7 +288,7 @@ impl<'a> StringParser<'a> {
                     let end = syn::parenthesized!(content in input).span;
 
                     let (req, stream) = crate::quote::Quote::new(self.cx)
-                        .with_span(content.span())?
+                        .with_span(end.span())?
                         .parse(&content)?;
                     requirements.merge_with(req);
                     let start = self.buf.cursor(start.span())?;
-- 
2.43.0


From 84f1f7d02462d58842a5e75921ad4d32a92126bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:18 +0000
Subject: [PATCH 24/32] fix: interpolate groups in strings like everything else

Groups were written with the spacing of their pretty-printed tokens instead of
the one in the source, and anything interpolated inside of them was written as it
is.
---
 genco-macros/src/string_parser.rs | 44 +++++++++++++++++++++++++++----
 1 file changed, 39 insertions(+), 5 deletions(-)

diff --git a/genco-macros/src/string_parser.rs b/genco-macros/src/string_parser.rs
index 01585a9..36db767 100644
--- a/genco-macros/src/string_parser.rs
+++ b/genco-macros/src/string_parser.rs
@@ -235,6 +235,18 @@ impl<'a> StringParser<'a> {
         let mut requirements = Requirements::default();
         let encoder = Encoder::new(self.cx, self.start, self.span);
 
+        self.parse_inner(&encoder, &mut requirements, input)?;
+
+        let (options, stream) = encoder.finalize(self.end)?;
+        Ok((options, requirements, stream))
+    }
+
+    fn parse_inner(
+        &self,
+        encoder: &Encoder<'_>,
+        requirements: &mut Requirements,
+        input: ParseStream,
+    ) -> Result<()> {
         while !input.is_empty() {
             if input.peek(syn::Token![$]) && input.peek2(syn::Token![$]) {
                 let start = input.parse::<syn::Token![$]>()?;
@@ -299,13 +311,35 @@ impl<'a> StringParser<'a> {
                 continue;
             }
 
-            let tt = input.parse::<TokenTree>()?;
-            let cursor = self.buf.cursor(tt.span())?;
-            encoder.extend_tt(&tt, cursor.start, Some(cursor.end))?;
+            // Recurse into groups since they can contain anything.
+            let content;
+
+            let (span, open, close) = if input.peek(token::Brace) {
+                let span = syn::braced!(content in input).span;
+                (span, '{', '}')
+            } else if input.peek(token::Paren) {
+                let span = syn::parenthesized!(content in input).span;
+                (span, '(', ')')
+            } else if input.peek(token::Bracket) {
+                let span = syn::bracketed!(content in input).span;
+                (span, '[', ']')
+            } else {
+                let tt = input.parse::<TokenTree>()?;
+                let cursor = self.buf.cursor(tt.span())?;
+                encoder.extend_tt(&tt, cursor.start, Some(cursor.end))?;
+                continue;
+            };
+
+            let cursor = self.buf.cursor(span.span())?;
+            let start = cursor.first_character();
+            let end = cursor.last_character();
+
+            encoder.encode_char(open, start.start, start.end)?;
+            self.parse_inner(encoder, requirements, &content)?;
+            encoder.encode_char(close, end.start, end.end)?;
         }
 
-        let (options, stream) = encoder.finalize(self.end)?;
-        Ok((options, requirements, stream))
+        Ok(())
     }
 }
 
-- 
2.43.0


From bfa316f9b9b646c3a357349a6348c335540a41f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:35 +0000
Subject: [PATCH 25/32] fix: do not end loops with a separator at a refutable
 pattern

A loop with join stopped at the first element which did not match its pattern,
while every other loop rejects such a pattern at compile time.
---
 genco-macros/src/encoder.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/genco-macros/src/encoder.rs b/genco-macros/src/encoder.rs
index 81e3284..30ef03c 100644
--- a/genco-macros/src/encoder.rs
+++ b/genco-macros/src/encoder.rs
@@ -248,7 +248,9 @@ impl<'a> Encoder<'a> {
                 {
                     let mut __it = IntoIterator::into_iter(#expr).peekable();
 
-                    while let Some(#pattern) = __it.next() {
+                    while let Some(__item) = __it.next() {
+                        let #pattern = __item;
+
                         #stream
 
                         if __it.peek().is_some() {
-- 
2.43.0


From 43957fb22b193aac2bf78913e1fe2a9daf65cde6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:45 +0000
Subject: [PATCH 26/32] fix: do not reject the end of a span which is indented
 less than its last row

The closing parenthesis of a separator or match arm is not a row on its own, but
was rejected as mismatched if the last row before it was indented.
---
 genco-macros/src/encoder.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/genco-macros/src/encoder.rs b/genco-macros/src/encoder.rs
index 30ef03c..dfc1ee3 100644
--- a/genco-macros/src/encoder.rs
+++ b/genco-macros/src/encoder.rs
@@ -417,9 +417,15 @@ impl<'a> Encoder<'a> {
                     self.output.extend(q::quote!(#r.line();));
                 }
             } else if last_start_column > to.column {
+                // Note that the end of a span is not a row on its own, and that
+                // any remaining indentation is unrolled once finalized.
+                if to_span.is_none() {
+                    return Ok(());
+                }
+
                 // There are no known indentation levels to match against. Note
-                // that the start and end of a span are not rows on their own.
-                if self.indents.is_empty() && self.last.is_some() && to_span.is_some() {
+                // that the start of a span is not a row on its own.
+                if self.indents.is_empty() && self.last.is_some() {
                     return Err(indentation_error(to.column, last_start_column, to_span));
                 }
 
-- 
2.43.0


From 291e1ad7b6427cc00a1aa6e9b63594521206032d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:01 +0000
Subject: [PATCH 27/32] fix: do not lose text in front of scopes which diverge

---
 genco-macros/src/encoder.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/genco-macros/src/encoder.rs b/genco-macros/src/encoder.rs
index dfc1ee3..5a540f7 100644
--- a/genco-macros/src/encoder.rs
+++ b/genco-macros/src/encoder.rs
@@ -202,9 +202,8 @@ impl<'a> Encoder<'a> {
     pub(crate) fn encode_scope(&mut self, binding: Option<syn::Ident>, content: TokenStream) {
         let Ctxt { receiver, .. } = self.cx;
 
-        if binding.is_some() {
-            self.item_buffer.flush(&mut self.output);
-        }
+        // NB: also without a binding, since the content might diverge.
+        self.item_buffer.flush(&mut self.output);
 
         let binding = binding.map(|b| q::quote_spanned!(b.span() => let #b = &mut *#receiver;));
 
-- 
2.43.0


From c1afaa20b3eb50a91ffccdc1983adff2f2a2bea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:21 +0000
Subject: [PATCH 28/32] fix: changes of indentation which do not fit into an
 item overflowed

---
 src/fmt/formatter.rs | 8 ++++----
 src/tokens/tokens.rs | 6 +++++-
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/fmt/formatter.rs b/src/fmt/formatter.rs
index b53ddda..57d49bb 100644
--- a/src/fmt/formatter.rs
+++ b/src/fmt/formatter.rs
@@ -59,7 +59,7 @@ pub struct Formatter<'a> {
     /// if a new line is pushed or indentation changes.
     spaces: usize,
     /// Current indentation level.
-    indent: i16,
+    indent: i64,
 }
 
 impl<'a> Formatter<'a> {
@@ -69,7 +69,7 @@ impl<'a> Formatter<'a> {
             write,
             line: Whitespace::Initial,
             spaces: 0usize,
-            indent: 0i16,
+            indent: 0i64,
             config,
         }
     }
@@ -136,7 +136,7 @@ impl<'a> Formatter<'a> {
     /// Increase indentation level.
     fn indentation(&mut self, n: i16) {
         self.push();
-        self.indent += n;
+        self.indent += i64::from(n);
     }
 
     /// Internal function for formatting.
@@ -283,7 +283,7 @@ impl<'a> Formatter<'a> {
                 self.write.write_line(self.config)?;
             }
 
-            let level = i16::max(self.indent, 0) as usize;
+            let level = i64::max(self.indent, 0) as usize;
 
             match self.config.indentation {
                 Indentation::Space(n) => {
diff --git a/src/tokens/tokens.rs b/src/tokens/tokens.rs
index 3e5f81e..6a7d41d 100644
--- a/src/tokens/tokens.rs
+++ b/src/tokens/tokens.rs
@@ -649,7 +649,11 @@ where
                 Some(Item::Push) => continue,
                 Some(Item::Space) => continue,
                 Some(Item::Line) => continue,
-                Some(Item::Indentation(u)) => n += u,
+                Some(Item::Indentation(u)) => match n.checked_add(u) {
+                    Some(sum) => n = sum,
+                    // NB: the sum does not fit into a single item.
+                    None => break Some(Item::Indentation(u)),
+                },
                 item => break item,
             }
         };
-- 
2.43.0


From 3a9de254ff8ed5ff53f170f2c422120fabaffaee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:25 +0000
Subject: [PATCH 29/32] fix: compare ItemStr by content

A string which is kept as a static and the same string kept in a box were
different, so imports made of them were declared twice (which rustc does
not accept), and equal streams were not equal.
---
 src/tokens/item_str.rs | 35 ++++++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/src/tokens/item_str.rs b/src/tokens/item_str.rs
index 928c84d..86d2fd1 100644
--- a/src/tokens/item_str.rs
+++ b/src/tokens/item_str.rs
@@ -1,6 +1,8 @@
 //! Helper trait to take ownership of strings.
 
+use core::cmp::Ordering;
 use core::fmt;
+use core::hash::{Hash, Hasher};
 use core::ops::Deref;
 
 use alloc::borrow::{Cow, ToOwned};
@@ -12,7 +14,9 @@ use crate::lang::Lang;
 use crate::tokens::{FormatInto, Item, Tokens};
 
 /// A managed string that permits immutable borrowing.
-#[derive(Debug, Clone, Hash, PartialOrd, Ord, PartialEq, Eq)]
+///
+/// Strings are equal if their content is, regardless of how they are stored.
+#[derive(Debug, Clone)]
 pub enum ItemStr {
     /// A boxed string.
     Box(Box<str>),
@@ -20,6 +24,35 @@ pub enum ItemStr {
     Static(&'static str),
 }
 
+impl PartialEq for ItemStr {
+    fn eq(&self, other: &Self) -> bool {
+        **self == **other
+    }
+}
+
+impl Eq for ItemStr {}
+
+impl PartialOrd for ItemStr {
+    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
+        Some(self.cmp(other))
+    }
+}
+
+impl Ord for ItemStr {
+    fn cmp(&self, other: &Self) -> Ordering {
+        (**self).cmp(&**other)
+    }
+}
+
+impl Hash for ItemStr {
+    fn hash<H>(&self, state: &mut H)
+    where
+        H: Hasher,
+    {
+        (**self).hash(state);
+    }
+}
+
 /// Convert stringy things.
 impl<L> FormatInto<L> for ItemStr
 where
-- 
2.43.0


From 3403de26e00969b3faa12616dc9cdef9701ad1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:41 +0000
Subject: [PATCH 30/32] fix: import from each JavaScript module once

A path and a global module, or different paths, might be imported from the
same place. Names were then declared twice, which is a syntax error.
---
 src/lang/js.rs | 45 ++++++++++++++++++++++++++++++++++-----------
 1 file changed, 34 insertions(+), 11 deletions(-)

diff --git a/src/lang/js.rs b/src/lang/js.rs
index 59fcaa4..096c720 100644
--- a/src/lang/js.rs
+++ b/src/lang/js.rs
@@ -52,7 +52,8 @@
 use core::fmt::Write as _;
 
 use alloc::collections::{BTreeMap, BTreeSet};
-use alloc::string::String;
+use alloc::string::{String, ToString};
+use alloc::vec::Vec;
 
 use crate::fmt;
 use crate::tokens::ItemStr;
@@ -447,21 +448,45 @@ impl JavaScript {
             return;
         }
 
+        let mut rendered = BTreeSet::new();
+
         for (module, name) in wildcards {
+            let from = resolve_from(config.module_path.as_deref(), module);
+
+            if !rendered.insert((from.clone(), name)) {
+                continue;
+            }
+
             out.push();
             quote_in! { *out =>
-                import * as $name from $(ref t => render_from(t, config.module_path.as_deref(), module));
+                import * as $name from $(quoted(from));
             }
         }
 
+        // Distinct modules might be imported from the same place.
+        let mut resolved = Vec::<(String, ResolvedModule<'_>)>::new();
+
         for (name, module) in modules {
+            let from = resolve_from(config.module_path.as_deref(), name);
+
+            match resolved.iter_mut().find(|(other, _)| *other == from) {
+                Some((_, existing)) => {
+                    existing.default_imports.extend(module.default_imports);
+                    existing.set.extend(module.set);
+                }
+                None => resolved.push((from, module)),
+            }
+        }
+
+        for (from, module) in resolved {
+            let from = &from;
             let mut defaults = module.default_imports.into_iter();
             let default_import = defaults.next();
 
             for default in defaults {
                 out.push();
                 quote_in! { *out =>
-                    import $default from $(ref t => render_from(t, config.module_path.as_deref(), name));
+                    import $default from $(quoted(from));
                 }
             }
 
@@ -500,7 +525,7 @@ impl JavaScript {
 
                         tokens.append("}");
                     }
-                }) from $(ref t => render_from(t, config.module_path.as_deref(), name));
+                }) from $(quoted(from));
             };
         }
 
@@ -518,13 +543,11 @@ impl JavaScript {
             Aliased(&'a ItemStr, &'a ItemStr),
         }
 
-        fn render_from(t: &mut js::Tokens, module_path: Option<&RelativePath>, module: &Module) {
-            quote_in! { *t =>
-                $(match (module_path, module) {
-                    (_, Module::Global(from)) => $(quoted(from)),
-                    (None, Module::Path(path)) => $(quoted(path.as_str())),
-                    (Some(module_path), Module::Path(path)) => $(quoted(module_path.relative(path).as_str())),
-                })
+        fn resolve_from(module_path: Option<&RelativePath>, module: &Module) -> String {
+            match (module_path, module) {
+                (_, Module::Global(from)) => from.to_string(),
+                (None, Module::Path(path)) => path.as_str().to_string(),
+                (Some(module_path), Module::Path(path)) => module_path.relative(path).into_string(),
             }
         }
     }
-- 
2.43.0


From 00c0c2ef07d94f98a68655a5e8ffc6e04cb43d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:19 +0000
Subject: [PATCH 31/32] fix: do not allocate for the upper bound of an iterator

---
 src/tokens/tokens.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/tokens/tokens.rs b/src/tokens/tokens.rs
index 6a7d41d..5f68559 100644
--- a/src/tokens/tokens.rs
+++ b/src/tokens/tokens.rs
@@ -203,8 +203,8 @@ where
         I: IntoIterator<Item = Item<L>>,
     {
         let it = it.into_iter();
-        let (low, high) = it.size_hint();
-        self.items.reserve(high.unwrap_or(low));
+        let (low, _) = it.size_hint();
+        self.items.reserve(low);
 
         for item in it {
             self.item(item);
@@ -1005,8 +1005,8 @@ where
 {
     fn from_iter<I: IntoIterator<Item = &'a Item<L>>>(iter: I) -> Self {
         let it = iter.into_iter();
-        let (low, high) = it.size_hint();
-        let mut tokens = Self::with_capacity(high.unwrap_or(low));
+        let (low, _) = it.size_hint();
+        let mut tokens = Self::with_capacity(low);
         tokens.extend(it.cloned());
         tokens
     }
@@ -1018,8 +1018,8 @@ where
 {
     fn from_iter<I: IntoIterator<Item = Item<L>>>(iter: I) -> Self {
         let it = iter.into_iter();
-        let (low, high) = it.size_hint();
-        let mut tokens = Self::with_capacity(high.unwrap_or(low));
+        let (low, _) = it.size_hint();
+        let mut tokens = Self::with_capacity(low);
         tokens.extend(it);
         tokens
     }
-- 
2.43.0


From 1929b5565fc0055474fd67f1f7e744beade62528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:39 +0000
Subject: [PATCH 32/32] fix: do not declare imports twice when an alias is the
 name itself

---
 src/lang/js.rs   |  6 ++++--
 src/lang/rust.rs | 21 ++++++++++++++++++---
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/lang/js.rs b/src/lang/js.rs
index 096c720..487b2ce 100644
--- a/src/lang/js.rs
+++ b/src/lang/js.rs
@@ -430,8 +430,10 @@ impl JavaScript {
                     let module = modules.entry(&import.module).or_default();
 
                     module.set.insert(match &import.alias {
-                        None => ImportedElement::Plain(&import.name),
-                        Some(alias) => ImportedElement::Aliased(&import.name, alias),
+                        Some(alias) if *alias != import.name => {
+                            ImportedElement::Aliased(&import.name, alias)
+                        }
+                        _ => ImportedElement::Plain(&import.name),
                     });
                 }
                 ImportKind::Default => {
diff --git a/src/lang/rust.rs b/src/lang/rust.rs
index 8cbeb8b..96c9d8d 100644
--- a/src/lang/rust.rs
+++ b/src/lang/rust.rs
@@ -358,6 +358,11 @@ impl Import {
         }
     }
 
+    /// The alias, if it's different from the name of the import.
+    fn renamed(&self) -> Option<&ItemStr> {
+        self.alias.as_ref().filter(|alias| **alias != self.name)
+    }
+
     /// Switch into a direct import mode.
     ///
     /// See [ImportMode::Direct].
@@ -431,7 +436,7 @@ impl Rust {
                     import: Some(ImportMode::Direct),
                 } => {
                     let module = modules.entry(module).or_default();
-                    module.names.insert((&import.name, import.alias.as_ref()));
+                    module.names.insert((&import.name, import.renamed()));
                 }
                 Module::Module {
                     module,
@@ -446,7 +451,7 @@ impl Rust {
                 } => match config.default_import {
                     ImportMode::Direct => {
                         let module = modules.entry(module).or_default();
-                        module.names.insert((&import.name, import.alias.as_ref()));
+                        module.names.insert((&import.name, import.renamed()));
                     }
                     ImportMode::Qualified => {
                         let module = modules.entry(module).or_default();
@@ -454,8 +459,18 @@ impl Rust {
                     }
                 },
                 Module::Aliased { module, alias } => {
+                    let renamed = match module.rsplit_once(SEP) {
+                        Some((_, name)) => name != &**alias,
+                        None => true,
+                    };
+
                     let module = modules.entry(module).or_default();
-                    module.self_aliases.insert(alias);
+
+                    if renamed {
+                        module.self_aliases.insert(alias);
+                    } else {
+                        module.self_import = true;
+                    }
                 }
             }
         }
-- 
2.43.0

