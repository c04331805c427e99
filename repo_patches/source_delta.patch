From 56dd507188080aea3970981ced79c2fa4b1f6ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:59 +0000
Subject: [PATCH 01/27] fix: use the code points of the control characters
 behind \b, \f and \v when quoting

---
 src/lang/dart/mod.rs | 4 ++--
 src/lang/java/mod.rs | 4 ++--
 src/lang/js.rs       | 4 ++--
 src/lang/mod.rs      | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/lang/dart/mod.rs b/src/lang/dart/mod.rs
index 077f932..cf2d765 100644
--- a/src/lang/dart/mod.rs
+++ b/src/lang/dart/mod.rs
@@ -100,7 +100,7 @@ impl_lang! {
                     // backspace
                     '\u{0008}' => out.write_str("\\b")?,
                     // form feed
-                    '\u{0012}' => out.write_str("\\f")?,
+                    '\u{000c}' => out.write_str("\\f")?,
                     // new line
                     '\n' => out.write_str("\\n")?,
                     // carriage return
@@ -108,7 +108,7 @@ impl_lang! {
                     // horizontal tab
                     '\t' => out.write_str("\\t")?,
                     // vertical tab
-                    '\u{0011}' => out.write_str("\\v")?,
+                    '\u{000b}' => out.write_str("\\v")?,
                     // Note: only relevant if we were to use single-quoted strings.
                     // '\'' => out.write_str("\\'")?,
                     '"' => out.write_str("\\\"")?,
diff --git a/src/lang/java/mod.rs b/src/lang/java/mod.rs
index 265bee9..a4e195a 100644
--- a/src/lang/java/mod.rs
+++ b/src/lang/java/mod.rs
@@ -44,10 +44,10 @@ impl_lang! {
             for c in input.chars() {
                 match c {
                     '\t' => out.write_str("\\t")?,
-                    '\u{0007}' => out.write_str("\\b")?,
+                    '\u{0008}' => out.write_str("\\b")?,
                     '\n' => out.write_str("\\n")?,
                     '\r' => out.write_str("\\r")?,
-                    '\u{0014}' => out.write_str("\\f")?,
+                    '\u{000c}' => out.write_str("\\f")?,
                     '\'' => out.write_str("\\'")?,
                     '"' => out.write_str("\\\"")?,
                     '\\' => out.write_str("\\\\")?,
diff --git a/src/lang/js.rs b/src/lang/js.rs
index 6d129e4..182a5ca 100644
--- a/src/lang/js.rs
+++ b/src/lang/js.rs
@@ -129,7 +129,7 @@ impl_lang! {
                     // backspace
                     '\u{0008}' => out.write_str("\\b")?,
                     // form feed
-                    '\u{0012}' => out.write_str("\\f")?,
+                    '\u{000c}' => out.write_str("\\f")?,
                     // new line
                     '\n' => out.write_str("\\n")?,
                     // carriage return
@@ -137,7 +137,7 @@ impl_lang! {
                     // horizontal tab
                     '\t' => out.write_str("\\t")?,
                     // vertical tab
-                    '\u{0011}' => out.write_str("\\v")?,
+                    '\u{000b}' => out.write_str("\\v")?,
                     // null character.
                     '\0' => out.write_str("\\0")?,
                     // Note: only relevant if we were to use single-quoted strings.
diff --git a/src/lang/mod.rs b/src/lang/mod.rs
index 85d2852..88c80aa 100644
--- a/src/lang/mod.rs
+++ b/src/lang/mod.rs
@@ -187,7 +187,7 @@ pub fn c_family_write_quoted(out: &mut fmt::Formatter, input: &str) -> fmt::Resu
             // backspace
             '\u{0008}' => out.write_str("\\b")?,
             // form feed
-            '\u{0012}' => out.write_str("\\f")?,
+            '\u{000c}' => out.write_str("\\f")?,
             // new line
             '\n' => out.write_str("\\n")?,
             // carriage return
@@ -195,7 +195,7 @@ pub fn c_family_write_quoted(out: &mut fmt::Formatter, input: &str) -> fmt::Resu
             // horizontal tab
             '\t' => out.write_str("\\t")?,
             // vertical tab
-            '\u{0011}' => out.write_str("\\v")?,
+            '\u{000b}' => out.write_str("\\v")?,
             '\'' => out.write_str("\\'")?,
             '"' => out.write_str("\\\"")?,
             '\\' => out.write_str("\\\\")?,
-- 
2.43.0


From f2444e8d43ee29249f874af7cb3c3ee8d6f10b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:59 +0000
Subject: [PATCH 02/27] fix: js: do not escape NUL as \0, which a following
 digit turns into a legacy octal escape

---
 src/lang/js.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/lang/js.rs b/src/lang/js.rs
index 182a5ca..f276d2c 100644
--- a/src/lang/js.rs
+++ b/src/lang/js.rs
@@ -138,8 +138,6 @@ impl_lang! {
                     '\t' => out.write_str("\\t")?,
                     // vertical tab
                     '\u{000b}' => out.write_str("\\v")?,
-                    // null character.
-                    '\0' => out.write_str("\\0")?,
                     // Note: only relevant if we were to use single-quoted strings.
                     // '\'' => out.write_str("\\'")?,
                     '"' => out.write_str("\\\"")?,
-- 
2.43.0


From 8b23f86fa154d7b1d2cc104607dd803fa3458ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:59 +0000
Subject: [PATCH 03/27] fix: js: escape backticks and the start of
 substitutions, since text is also quoted into template literals

---
 src/lang/js.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lang/js.rs b/src/lang/js.rs
index f276d2c..1667295 100644
--- a/src/lang/js.rs
+++ b/src/lang/js.rs
@@ -124,8 +124,14 @@ impl_lang! {
         fn write_quoted(out: &mut fmt::Formatter<'_>, input: &str) -> fmt::Result {
             // Reference: https://mathiasbynens.be/notes/javascript-escapes
 
-            for c in input.chars() {
+            let mut it = input.chars().peekable();
+
+            while let Some(c) = it.next() {
                 match c {
+                    // Note: the text might end up in a template literal, where
+                    // a backtick terminates it and `${` starts a substitution.
+                    '`' => out.write_str("\\`")?,
+                    '$' if matches!(it.peek(), Some('{') | None) => out.write_str("\\$")?,
                     // backspace
                     '\u{0008}' => out.write_str("\\b")?,
                     // form feed
-- 
2.43.0


From 9a8b634b49be8f10e4d7d3a45608d04f460d7581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:12 +0000
Subject: [PATCH 04/27] fix: nix: quote text by the rules of nix strings, so
 that ${ cannot start an interpolation

---
 src/lang/nix.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/lang/nix.rs b/src/lang/nix.rs
index 9e71ad6..c61f633 100644
--- a/src/lang/nix.rs
+++ b/src/lang/nix.rs
@@ -21,7 +21,21 @@ impl_lang! {
         type Item = Import;
 
         fn write_quoted(out: &mut fmt::Formatter<'_>, input: &str) -> fmt::Result {
-            super::c_family_write_quoted(out, input)
+            // From: https://nix.dev/manual/nix/latest/language/string-literals
+            for c in input.chars() {
+                match c {
+                    '\n' => out.write_str("\\n")?,
+                    '\r' => out.write_str("\\r")?,
+                    '\t' => out.write_str("\\t")?,
+                    '"' => out.write_str("\\\"")?,
+                    '\\' => out.write_str("\\\\")?,
+                    // prevents `${` from starting an interpolation.
+                    '$' => out.write_str("\\$")?,
+                    c => out.write_char(c)?,
+                }
+            }
+
+            Ok(())
         }
 
         fn format_file(
-- 
2.43.0


From a3da21c413dcbc0990b56c00bc2a5b5a7c75bf11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:45 +0000
Subject: [PATCH 05/27] fix: go: single quotes are not escaped in interpreted
 strings

---
 src/lang/go.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/lang/go.rs b/src/lang/go.rs
index 82c38db..0f4953f 100644
--- a/src/lang/go.rs
+++ b/src/lang/go.rs
@@ -66,7 +66,15 @@ impl_lang! {
 
         fn write_quoted(out: &mut fmt::Formatter<'_>, input: &str) -> fmt::Result {
             // From: https://golang.org/src/strconv/quote.go
-            super::c_family_write_quoted(out, input)
+            for c in input.chars() {
+                match c {
+                    // Note: `\'` is not a valid escape in a string.
+                    '\'' => out.write_char(c)?,
+                    c => super::c_family_write_quoted(out, c.encode_utf8(&mut [0; 4]))?,
+                }
+            }
+
+            Ok(())
         }
 
         fn format_file(
-- 
2.43.0


From 0b0b12af37e7d18ab87c4064ed71e20e2b013f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:45 +0000
Subject: [PATCH 06/27] fix: csharp: do not let a hexadecimal escape swallow
 the digits following it

---
 src/lang/csharp/mod.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/lang/csharp/mod.rs b/src/lang/csharp/mod.rs
index 5606b3a..35b3082 100644
--- a/src/lang/csharp/mod.rs
+++ b/src/lang/csharp/mod.rs
@@ -45,7 +45,22 @@ impl_lang! {
 
         fn write_quoted(out: &mut fmt::Formatter<'_>, input: &str) -> fmt::Result {
             // From: https://csharpindepth.com/articles/Strings
-            super::c_family_write_quoted(out, input)
+            let mut it = input.chars().peekable();
+
+            while let Some(c) = it.next() {
+                match c {
+                    // Note: `\x` takes up to four digits, so it cannot be used
+                    // where another digit might follow.
+                    '\0'..='\x06' | '\x0e'..='\x1f' | '\x7f'
+                        if it.peek().map_or(true, |c| c.is_ascii_hexdigit()) =>
+                    {
+                        write!(out, "\\u{:04x}", c as u32)?
+                    }
+                    c => super::c_family_write_quoted(out, c.encode_utf8(&mut [0; 4]))?,
+                }
+            }
+
+            Ok(())
         }
 
         fn format_file(
-- 
2.43.0


From 37745c3e51bfe76b6915b4cfdf9550666ff7c019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:45 +0000
Subject: [PATCH 07/27] fix: c: use escapes of fixed length, and only universal
 character names which are allowed

---
 src/lang/c.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/lang/c.rs b/src/lang/c.rs
index 15e0b7d..0840aa8 100644
--- a/src/lang/c.rs
+++ b/src/lang/c.rs
@@ -20,7 +20,20 @@ impl_lang! {
         type Item = Import;
 
         fn write_quoted(out: &mut fmt::Formatter<'_>, input: &str) -> fmt::Result {
-            super::c_family_write_quoted(out, input)
+            for c in input.chars() {
+                match c {
+                    // Note: `\x` takes any number of digits, so it would swallow
+                    // the ones following it.
+                    '\0'..='\x06' | '\x0e'..='\x1f' | '\x7f' => {
+                        write!(out, "\\{:03o}", c as u32)?
+                    }
+                    // Note: these are not allowed as universal character names.
+                    '\u{80}'..='\u{9f}' => out.write_char(c)?,
+                    c => super::c_family_write_quoted(out, c.encode_utf8(&mut [0; 4]))?,
+                }
+            }
+
+            Ok(())
         }
 
         fn format_file(
-- 
2.43.0


From a0bbccde1791e3ba622f2755cd8e4e3f214001a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:25 +0000
Subject: [PATCH 08/27] fix: reserve the lower bound of an iterator, its upper
 bound may exceed any capacity

---
 src/tokens/tokens.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/tokens/tokens.rs b/src/tokens/tokens.rs
index 3e5f81e..d3cfc7d 100644
--- a/src/tokens/tokens.rs
+++ b/src/tokens/tokens.rs
@@ -203,8 +203,8 @@ where
         I: IntoIterator<Item = Item<L>>,
     {
         let it = it.into_iter();
-        let (low, high) = it.size_hint();
-        self.items.reserve(high.unwrap_or(low));
+        let (low, _) = it.size_hint();
+        self.items.reserve(low);
 
         for item in it {
             self.item(item);
@@ -1001,8 +1001,8 @@ where
 {
     fn from_iter<I: IntoIterator<Item = &'a Item<L>>>(iter: I) -> Self {
         let it = iter.into_iter();
-        let (low, high) = it.size_hint();
-        let mut tokens = Self::with_capacity(high.unwrap_or(low));
+        let (low, _) = it.size_hint();
+        let mut tokens = Self::with_capacity(low);
         tokens.extend(it.cloned());
         tokens
     }
@@ -1014,8 +1014,8 @@ where
 {
     fn from_iter<I: IntoIterator<Item = Item<L>>>(iter: I) -> Self {
         let it = iter.into_iter();
-        let (low, high) = it.size_hint();
-        let mut tokens = Self::with_capacity(high.unwrap_or(low));
+        let (low, _) = it.size_hint();
+        let mut tokens = Self::with_capacity(low);
         tokens.extend(it);
         tokens
     }
-- 
2.43.0


From 7b39b9270ffc13ffc343705f216760d9b9e01f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:25 +0000
Subject: [PATCH 09/27] fix: do not overflow when indentation is nested too
 deeply

---
 src/fmt/formatter.rs | 2 +-
 src/tokens/tokens.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fmt/formatter.rs b/src/fmt/formatter.rs
index 922ba69..6fea857 100644
--- a/src/fmt/formatter.rs
+++ b/src/fmt/formatter.rs
@@ -136,7 +136,7 @@ impl<'a> Formatter<'a> {
     /// Increase indentation level.
     fn indentation(&mut self, n: i16) {
         self.push();
-        self.indent += n;
+        self.indent = self.indent.saturating_add(n);
     }
 
     /// Internal function for formatting.
diff --git a/src/tokens/tokens.rs b/src/tokens/tokens.rs
index d3cfc7d..c28815e 100644
--- a/src/tokens/tokens.rs
+++ b/src/tokens/tokens.rs
@@ -649,7 +649,7 @@ where
                 Some(Item::Push) => continue,
                 Some(Item::Space) => continue,
                 Some(Item::Line) => continue,
-                Some(Item::Indentation(u)) => n += u,
+                Some(Item::Indentation(u)) => n = n.saturating_add(u),
                 item => break item,
             }
         };
-- 
2.43.0


From 4fc594292764a2deeed580b91d931f3aad57c093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:12 +0000
Subject: [PATCH 10/27] fix: spaces in front of a line break never make it into
 the output, also at the start of it

---
 src/fmt/formatter.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fmt/formatter.rs b/src/fmt/formatter.rs
index 6fea857..70cd000 100644
--- a/src/fmt/formatter.rs
+++ b/src/fmt/formatter.rs
@@ -109,23 +109,23 @@ impl<'a> Formatter<'a> {
     }
 
     fn push(&mut self) {
+        self.spaces = 0;
+
         self.line = match self.line {
             Whitespace::Initial => return,
             Whitespace::Line => return,
             _ => Whitespace::Push,
         };
-
-        self.spaces = 0;
     }
 
     /// Push a new line.
     fn line(&mut self) {
+        self.spaces = 0;
+
         self.line = match self.line {
             Whitespace::Initial => return,
             _ => Whitespace::Line,
         };
-
-        self.spaces = 0;
     }
 
     /// Push a space.
-- 
2.43.0


From 7312b89d3334a7bebe00ef4e383a4cce2cf45e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:17 +0000
Subject: [PATCH 11/27] fix: close the innermost open quote, so that quotes
 nest to any depth

---
 src/fmt/formatter.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fmt/formatter.rs b/src/fmt/formatter.rs
index 70cd000..e7801d2 100644
--- a/src/fmt/formatter.rs
+++ b/src/fmt/formatter.rs
@@ -188,13 +188,13 @@ impl<'a> Formatter<'a> {
                     L::write_quoted(self, &buf)?;
                     buf.clear();
                 }
-                Item::CloseQuote if end_on_close_quote => {
-                    return Ok(());
-                }
                 Item::CloseQuote if *in_quote => {
                     *in_quote = false;
                     L::close_quote(self, config, format, mem::take(has_eval))?;
                 }
+                Item::CloseQuote if end_on_close_quote && !*end_on_eval => {
+                    return Ok(());
+                }
                 Item::Lang(_, lang) => {
                     lang.format(self, config, format)?;
                 }
@@ -227,7 +227,7 @@ impl<'a> Formatter<'a> {
                     }
                 }
                 // Eval are only allowed within quotes.
-                Item::CloseEval if *end_on_eval => {
+                Item::CloseEval if *end_on_eval && !*in_quote => {
                     L::end_string_eval(self, config, format)?;
                     stack.pop();
                 }
-- 
2.43.0


From 295169be690b2005e008b7e1111b5d7bccc1333f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:33 +0000
Subject: [PATCH 12/27] fix: formatting a stream that ends inside of a quote or
 an interpolation is an error

---
 src/fmt/formatter.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fmt/formatter.rs b/src/fmt/formatter.rs
index e7801d2..0d5c951 100644
--- a/src/fmt/formatter.rs
+++ b/src/fmt/formatter.rs
@@ -238,7 +238,11 @@ impl<'a> Formatter<'a> {
             }
         }
 
-        return Ok(());
+        // NB: reaching the end is only fine if everything that was opened has been closed.
+        return match stack.pop() {
+            Some(frame) if !frame.in_quote && !frame.end_on_eval && !end_on_close_quote => Ok(()),
+            _ => Err(core::fmt::Error),
+        };
 
         #[derive(Default, Clone)]
         struct Frame {
-- 
2.43.0


From 7f27d48cfc5f2fcb524c9e5b76124b411d9f965f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:47 +0000
Subject: [PATCH 13/27] fix: js: import a default export under every name it is
 used by

---
 src/lang/js.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/lang/js.rs b/src/lang/js.rs
index 1667295..36baf9f 100644
--- a/src/lang/js.rs
+++ b/src/lang/js.rs
@@ -436,7 +436,16 @@ impl JavaScript {
                 }
                 ImportKind::Default => {
                     let module = modules.entry(&import.module).or_default();
-                    module.default_import = Some(&import.name);
+
+                    match module.default_import {
+                        // a module has one default, but it can go by several names.
+                        Some(default) if *default != import.name => {
+                            module.set.insert(ImportedElement::Default(&import.name));
+                        }
+                        _ => {
+                            module.default_import = Some(&import.name);
+                        }
+                    }
                 }
                 ImportKind::Wildcard => {
                     wildcards.insert((&import.module, &import.name));
@@ -475,6 +484,9 @@ impl JavaScript {
 
                         while let Some(el) = it.next() {
                             match *el {
+                                ImportedElement::Default(name) => {
+                                    quote_in!(*tokens => default as $name);
+                                }
                                 ImportedElement::Plain(name) => {
                                     tokens.append(name);
                                 },
@@ -505,6 +517,7 @@ impl JavaScript {
 
         #[derive(PartialEq, Eq, PartialOrd, Ord, Hash)]
         enum ImportedElement<'a> {
+            Default(&'a ItemStr),
             Plain(&'a ItemStr),
             Aliased(&'a ItemStr, &'a ItemStr),
         }
-- 
2.43.0


From a9b0f6c54fc30ae1dea8d2a05f5ca86825fe4466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:47 +0000
Subject: [PATCH 14/27] fix: java: qualify types of java.lang and of the own
 package when another type has been imported by their name

---
 src/lang/java/mod.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/lang/java/mod.rs b/src/lang/java/mod.rs
index a4e195a..4c2b859 100644
--- a/src/lang/java/mod.rs
+++ b/src/lang/java/mod.rs
@@ -90,7 +90,12 @@ impl_lang! {
             let imported = format.imported.get(self.name.as_ref()).map(String::as_str);
             let pkg = Some(self.package.as_ref());
 
-            if &*self.package != JAVA_LANG && imported != pkg && file_package != pkg {
+            let qualified = match imported {
+                Some(..) => imported != pkg,
+                None => &*self.package != JAVA_LANG && file_package != pkg,
+            };
+
+            if qualified {
                 out.write_str(self.package.as_ref())?;
                 out.write_str(SEP)?;
             }
@@ -188,6 +193,13 @@ impl Java {
             return;
         }
 
+        // types in the package of the file are in scope without an import.
+        for (package, name) in &modules {
+            if Some(&**package) == file_package {
+                imported.insert(name.to_string(), package.to_string());
+            }
+        }
+
         for (package, name) in modules {
             if imported.contains_key(&*name) {
                 continue;
-- 
2.43.0


From 55ee2fa58f0ea0e8fe3a609f985d583e6addb7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:47 +0000
Subject: [PATCH 15/27] fix: csharp: qualify names which are in several used
 namespaces, or in the namespace of the file

---
 src/lang/csharp/mod.rs | 41 ++++++++++++++++++++++++++---------------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/src/lang/csharp/mod.rs b/src/lang/csharp/mod.rs
index 35b3082..62180b0 100644
--- a/src/lang/csharp/mod.rs
+++ b/src/lang/csharp/mod.rs
@@ -116,7 +116,7 @@ impl_lang! {
 
                 if let Some(imported) = format.imported_names.get(name) {
                     // a conflicting name is in the namespace.
-                    if imported != namespace {
+                    if imported.as_deref() != Some(namespace) {
                         return true;
                     }
                 }
@@ -136,8 +136,9 @@ pub struct Format {
     /// Keeping track of names which have been imported, do determine whether
     /// their use has to be qualified or not.
     ///
-    /// A missing name means that it has to be used in a qualified manner.
-    imported_names: BTreeMap<String, String>,
+    /// A name which is not imported as anything is ambiguous, and always has to
+    /// be used in a qualified manner.
+    imported_names: BTreeMap<String, Option<String>>,
 }
 
 /// Config data for Csharp formatting.
@@ -188,7 +189,7 @@ impl Csharp {
         out: &mut Tokens,
         tokens: &Tokens,
         config: &Config,
-        imported_names: &mut BTreeMap<String, String>,
+        imported_names: &mut BTreeMap<String, Option<String>>,
     ) {
         let mut modules = BTreeSet::new();
 
@@ -202,26 +203,36 @@ impl Csharp {
 
         let mut imported = BTreeSet::new();
 
-        for (namespace, name) in modules {
-            if Some(namespace) == config.namespace.as_deref() {
-                continue;
+        // names in the namespace of the file take precedence over the ones in
+        // namespaces being used.
+        for (namespace, name) in &modules {
+            if Some(*namespace) == config.namespace.as_deref() {
+                imported_names.insert(name.to_string(), Some(namespace.to_string()));
             }
+        }
 
-            match imported_names.get(name) {
-                // already imported...
-                Some(existing) if existing == namespace => continue,
-                // already imported, as something else...
-                Some(_) => continue,
-                _ => {}
+        for (namespace, name) in &modules {
+            // already imported, or imported as something else...
+            if imported_names.contains_key(*name) {
+                continue;
             }
 
             if !imported.contains(namespace) {
-                quote_in!(*out => using $namespace;);
+                quote_in!(*out => using $(*namespace););
                 out.push();
                 imported.insert(namespace);
             }
 
-            imported_names.insert(name.to_string(), namespace.to_string());
+            imported_names.insert(name.to_string(), Some(namespace.to_string()));
+        }
+
+        // a name which is in several of the namespaces being used is ambiguous.
+        for (name, namespace) in imported_names.iter_mut() {
+            let known = modules.iter().filter(|(_, n)| n == name);
+
+            if known.filter(|(n, _)| imported.contains(n)).count() > 1 {
+                *namespace = None;
+            }
         }
 
         out.line();
-- 
2.43.0


From 6d2655040cca9a044a0c65130f057f5461462c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:47 +0000
Subject: [PATCH 16/27] fix: dart: import dart:core when it is used with an
 alias

---
 src/lang/dart/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lang/dart/mod.rs b/src/lang/dart/mod.rs
index cf2d765..58416e8 100644
--- a/src/lang/dart/mod.rs
+++ b/src/lang/dart/mod.rs
@@ -194,7 +194,13 @@ impl Dart {
 
         for import in input.walk_imports() {
             if &*import.path == DART_CORE {
-                continue;
+                if import.alias.is_none() {
+                    continue;
+                }
+
+                // the implicit import of the core library goes away once it's
+                // imported explicitly.
+                modules.insert((import.path.clone(), None));
             }
 
             modules.insert((import.path.clone(), import.alias.clone()));
-- 
2.43.0


From c876f406c4c624561a245fda174c694bc59c0268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:47 +0000
Subject: [PATCH 17/27] fix: python: a member of a module is not known by its
 alias

---
 src/lang/python.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/lang/python.rs b/src/lang/python.rs
index f6272ee..f60f0f1 100644
--- a/src/lang/python.rs
+++ b/src/lang/python.rs
@@ -63,9 +63,9 @@ impl_lang! {
                 out.write_str(SEP)?;
             }
 
-            let name = match &self.alias {
-                Some(alias) => alias,
-                None => &self.name,
+            let name = match (&self.module, &self.alias) {
+                (TypeModule::Unqualified { .. }, Some(alias)) => alias,
+                _ => &self.name,
             };
 
             out.write_str(name)?;
@@ -110,6 +110,14 @@ enum TypeModule {
 }
 
 impl TypeModule {
+    fn unqualified(self) -> Self {
+        match self {
+            Self::Qualified { module, .. } | Self::Unqualified { module } => {
+                Self::Unqualified { module }
+            }
+        }
+    }
+
     fn qualified(self) -> Self {
         match self {
             Self::Unqualified { module } => Self::Qualified {
@@ -175,6 +183,7 @@ impl Import {
         T: Into<ItemStr>,
     {
         Self {
+            module: self.module.unqualified(),
             alias: Some(alias.into()),
             ..self
         }
-- 
2.43.0


From f0b00ac0a0d7e0d6d6cfe07e8fe0139567ed0353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:06 +0000
Subject: [PATCH 18/27] fix: compare strings by their contents, not by how they
 are stored

---
 src/tokens/item_str.rs | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/src/tokens/item_str.rs b/src/tokens/item_str.rs
index 928c84d..cea3506 100644
--- a/src/tokens/item_str.rs
+++ b/src/tokens/item_str.rs
@@ -1,6 +1,8 @@
 //! Helper trait to take ownership of strings.
 
+use core::cmp::Ordering;
 use core::fmt;
+use core::hash::{Hash, Hasher};
 use core::ops::Deref;
 
 use alloc::borrow::{Cow, ToOwned};
@@ -12,7 +14,7 @@ use crate::lang::Lang;
 use crate::tokens::{FormatInto, Item, Tokens};
 
 /// A managed string that permits immutable borrowing.
-#[derive(Debug, Clone, Hash, PartialOrd, Ord, PartialEq, Eq)]
+#[derive(Debug, Clone)]
 pub enum ItemStr {
     /// A boxed string.
     Box(Box<str>),
@@ -20,6 +22,36 @@ pub enum ItemStr {
     Static(&'static str),
 }
 
+// Strings are compared by what they contain, regardless of how they are stored.
+impl PartialEq for ItemStr {
+    fn eq(&self, other: &Self) -> bool {
+        **self == **other
+    }
+}
+
+impl Eq for ItemStr {}
+
+impl PartialOrd for ItemStr {
+    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
+        Some(self.cmp(other))
+    }
+}
+
+impl Ord for ItemStr {
+    fn cmp(&self, other: &Self) -> Ordering {
+        str::cmp(self, other)
+    }
+}
+
+impl Hash for ItemStr {
+    fn hash<H>(&self, state: &mut H)
+    where
+        H: Hasher,
+    {
+        str::hash(self, state)
+    }
+}
+
 /// Convert stringy things.
 impl<L> FormatInto<L> for ItemStr
 where
-- 
2.43.0


From 033021bd113db351efdc96ca2dd9eda4cfc408b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:12 +0000
Subject: [PATCH 19/27] fix: nix: declare what the values of variables use,
 however deep they are nested

---
 src/lang/nix.rs | 63 ++++++++++++++++++++++---------------------------
 1 file changed, 28 insertions(+), 35 deletions(-)

diff --git a/src/lang/nix.rs b/src/lang/nix.rs
index c61f633..cb7e64d 100644
--- a/src/lang/nix.rs
+++ b/src/lang/nix.rs
@@ -4,6 +4,7 @@ use core::fmt::Write as _;
 
 use alloc::collections::BTreeSet;
 use alloc::string::ToString;
+use alloc::vec::Vec;
 
 use crate as genco;
 use crate::fmt;
@@ -45,11 +46,14 @@ impl_lang! {
         ) -> fmt::Result {
             let mut header = Tokens::new();
 
+            let mut imports = Vec::new();
+            Self::collect(&mut imports, tokens);
+
             if !config.scoped {
-                Self::arguments(&mut header, tokens);
+                Self::arguments(&mut header, &imports);
             }
-            Self::withs(&mut header, tokens);
-            Self::imports(&mut header, tokens);
+            Self::withs(&mut header, &imports);
+            Self::imports(&mut header, &imports);
             let format = Format::default();
             header.format(out, config, &format)?;
             tokens.format(out, config, &format)?;
@@ -132,11 +136,22 @@ impl Config {
 }
 
 impl Nix {
-    fn arguments(out: &mut Tokens, tokens: &Tokens) {
+    /// Collect all imports, including the ones used by the values of variables.
+    fn collect<'a>(collected: &mut Vec<&'a Import>, tokens: &'a Tokens) {
+        for import in tokens.walk_imports() {
+            collected.push(import);
+
+            if let Import::Variable(variable) = import {
+                Self::collect(collected, &variable.value);
+            }
+        }
+    }
+
+    fn arguments(out: &mut Tokens, imports: &[&Import]) {
         let mut arguments = BTreeSet::new();
 
-        for imports in tokens.walk_imports() {
-            match imports {
+        for import in imports {
+            match import {
                 Import::Argument(argument) => {
                     arguments.insert(argument.0.to_string());
                 }
@@ -146,23 +161,7 @@ impl Nix {
                         arguments.insert(a.to_string());
                     }
                 }
-                Import::Variable(variable) => {
-                    let value = &variable.value;
-                    for import in value.walk_imports() {
-                        match import {
-                            Import::Inherit(inherit) => {
-                                let argument = inherit.path.split('.').next();
-                                if let Some(a) = argument {
-                                    arguments.insert(a.to_string());
-                                }
-                            }
-                            Import::Argument(argument) => {
-                                arguments.insert(argument.0.to_string());
-                            }
-                            _ => (),
-                        }
-                    }
-                }
+                Import::Variable(..) => (),
                 Import::With(with) => {
                     let argument = with.argument.split('.').next();
                     if let Some(a) = argument {
@@ -191,11 +190,11 @@ impl Nix {
         out.line();
     }
 
-    fn withs(out: &mut Tokens, tokens: &Tokens) {
+    fn withs(out: &mut Tokens, imports: &[&Import]) {
         let mut withs = BTreeSet::new();
 
-        for imports in tokens.walk_imports() {
-            if let Import::With(with) = imports {
+        for import in imports {
+            if let Import::With(with) = import {
                 withs.insert(&with.argument);
             }
         }
@@ -212,22 +211,16 @@ impl Nix {
         out.line();
     }
 
-    fn imports(out: &mut Tokens, tokens: &Tokens) {
+    fn imports(out: &mut Tokens, imports: &[&Import]) {
         let mut inherits = BTreeSet::new();
         let mut variables = BTreeSet::new();
 
-        for imports in tokens.walk_imports() {
-            match imports {
+        for import in imports {
+            match import {
                 Import::Inherit(inherit) => {
                     inherits.insert((&inherit.path, &inherit.name));
                 }
                 Import::Variable(variable) => {
-                    let value = &variable.value;
-                    for import in value.walk_imports() {
-                        if let Import::Inherit(inherit) = import {
-                            inherits.insert((&inherit.path, &inherit.name));
-                        }
-                    }
                     variables.insert((&variable.name, &variable.value));
                 }
                 _ => (),
-- 
2.43.0


From 99aef9e27d4a0cebe645ede10ec03cf2dc2df40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:03 +0000
Subject: [PATCH 20/27] fix: js: which of several default imports comes first
 does not depend on their order of use

---
 src/lang/js.rs | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/src/lang/js.rs b/src/lang/js.rs
index 36baf9f..08ca32f 100644
--- a/src/lang/js.rs
+++ b/src/lang/js.rs
@@ -436,16 +436,7 @@ impl JavaScript {
                 }
                 ImportKind::Default => {
                     let module = modules.entry(&import.module).or_default();
-
-                    match module.default_import {
-                        // a module has one default, but it can go by several names.
-                        Some(default) if *default != import.name => {
-                            module.set.insert(ImportedElement::Default(&import.name));
-                        }
-                        _ => {
-                            module.default_import = Some(&import.name);
-                        }
-                    }
+                    module.defaults.insert(&import.name);
                 }
                 ImportKind::Wildcard => {
                     wildcards.insert((&import.module, &import.name));
@@ -464,11 +455,17 @@ impl JavaScript {
             }
         }
 
-        for (name, module) in modules {
+        for (name, mut module) in modules {
             out.push();
+
+            // a module has one default, but it can go by several names.
+            let mut defaults = module.defaults.into_iter();
+            let default_import = defaults.next();
+            module.set.extend(defaults.map(ImportedElement::Default));
+
             quote_in! { *out =>
                 import $(ref tokens => {
-                    if let Some(default) = module.default_import {
+                    if let Some(default) = default_import {
                         tokens.append(ItemStr::from(default));
 
                         if !module.set.is_empty() {
@@ -511,7 +508,7 @@ impl JavaScript {
 
         #[derive(Default)]
         struct ResolvedModule<'a> {
-            default_import: Option<&'a ItemStr>,
+            defaults: BTreeSet<&'a ItemStr>,
             set: BTreeSet<ImportedElement<'a>>,
         }
 
-- 
2.43.0


From efd226186891230b23506766ed42f7e1478e4295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:51 +0000
Subject: [PATCH 21/27] fix: macros: attributes on the arms of a quoted match

The attributes of an arm were looked for after the whole match instead of in
front of the arm, so that an arm with an attribute was rejected.
---
 genco-macros/src/quote.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/genco-macros/src/quote.rs b/genco-macros/src/quote.rs
index 82c4fd2..835d7ae 100644
--- a/genco-macros/src/quote.rs
+++ b/genco-macros/src/quote.rs
@@ -196,7 +196,7 @@ impl<'a> Quote<'a> {
         let mut arms = Vec::new();
 
         while !body.is_empty() {
-            let attr = input.call(syn::Attribute::parse_outer)?;
+            let attr = body.call(syn::Attribute::parse_outer)?;
             let pattern = syn::Pat::parse_multi_with_leading_vert(&body)?;
 
             let condition = if body.peek(Token![if]) {
-- 
2.43.0


From dc09a029bf7b327706fe840a3ae4e4bf79f030af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:03 +0000
Subject: [PATCH 22/27] fix: macros: tokens that come from different places in
 the source

A token that is substituted by macro_rules! can be located after the token
that follows it, which made the macros panic.
---
 genco-macros/src/encoder.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/genco-macros/src/encoder.rs b/genco-macros/src/encoder.rs
index 3f517be..b9b3f9c 100644
--- a/genco-macros/src/encoder.rs
+++ b/genco-macros/src/encoder.rs
@@ -398,12 +398,18 @@ impl<'a> Encoder<'a> {
             return Ok(());
         }
 
+        // The tokens come from different places, like when a macro substitutes
+        // an argument, so there is no layout between them to detect.
+        if from.line > to.line {
+            self.item_buffer.flush(&mut self.output);
+            self.output.extend(q::quote!(#r.space();));
+            return Ok(());
+        }
+
         // Line changed. Determine whether to indent, unindent, or hard break the
         // line.
         self.item_buffer.flush(&mut self.output);
 
-        debug_assert!(from.line < to.line);
-
         let line = to.line - from.line > 1;
 
         if let Some(last_start_column) = self.last_start_column.take() {
-- 
2.43.0


From 5f8518ff11ef0b98545325723463a3cbe0b62a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:21 +0000
Subject: [PATCH 23/27] fix: macros: interpolations that cover several lines

The quoted tokens were taken to end where the first of them ends, which made
the macros panic if a later token was on another line.
---
 genco-macros/src/string_parser.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/genco-macros/src/string_parser.rs b/genco-macros/src/string_parser.rs
index 5f7dc52..469cc29 100644
--- a/genco-macros/src/string_parser.rs
+++ b/genco-macros/src/string_parser.rs
@@ -287,9 +287,7 @@ impl<'a> StringParser<'a> {
                     let content;
                     let end = syn::parenthesized!(content in input).span;
 
-                    let (req, stream) = crate::quote::Quote::new(self.cx)
-                        .with_span(content.span())?
-                        .parse(&content)?;
+                    let (req, stream) = crate::quote::Quote::new(self.cx).parse(&content)?;
                     requirements.merge_with(req);
                     let start = self.buf.cursor(start.span())?;
                     let end = self.buf.cursor(end.span())?;
-- 
2.43.0


From c0fd4b8062d8e515155a5620ee0e993c8ab9b420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:03 +0000
Subject: [PATCH 24/27] fix: macros: rows that start in front of the first one

A row that starts shallower than all rows before it was appended to the
preceding one without anything in between. Like any other row that matches no
known level of indentation, it is an error.
---
 genco-macros/src/encoder.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/genco-macros/src/encoder.rs b/genco-macros/src/encoder.rs
index b9b3f9c..54650b7 100644
--- a/genco-macros/src/encoder.rs
+++ b/genco-macros/src/encoder.rs
@@ -421,6 +421,12 @@ impl<'a> Encoder<'a> {
                     self.output.extend(q::quote!(#r.line();));
                 }
             } else if last_start_column > to.column {
+                // Rows have to match a known level, and there are none.
+                // The edges of a group that surrounds the tokens are not rows.
+                if self.indents.is_empty() && self.last.is_some() && to_span.is_some() {
+                    return Err(indentation_error(to.column, last_start_column, to_span));
+                }
+
                 while let Some((column, _)) = self.indents.pop() {
                     if column > to.column && !self.indents.is_empty() {
                         self.output.extend(q::quote!(#r.unindent();));
-- 
2.43.0


From f6adead4b426cdbee3bb8c052b22d96f4426af0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:14 +0000
Subject: [PATCH 25/27] fix: macros: interpolations in groups inside of strings

$[str](Hello ($name)) produced the text 'Hello ($name)' since the content of
groups was not looked at, and lost the whitespace in them.
---
 genco-macros/src/string_parser.rs | 55 +++++++++++++++++++++++++++++--
 1 file changed, 53 insertions(+), 2 deletions(-)

diff --git a/genco-macros/src/string_parser.rs b/genco-macros/src/string_parser.rs
index 469cc29..775a40d 100644
--- a/genco-macros/src/string_parser.rs
+++ b/genco-macros/src/string_parser.rs
@@ -235,6 +235,18 @@ impl<'a> StringParser<'a> {
         let mut requirements = Requirements::default();
         let encoder = Encoder::new(self.cx, self.start, self.span);
 
+        self.parse_inner(&encoder, &mut requirements, input)?;
+
+        let (options, stream) = encoder.finalize(self.end)?;
+        Ok((options, requirements, stream))
+    }
+
+    fn parse_inner(
+        &self,
+        encoder: &Encoder<'_>,
+        requirements: &mut Requirements,
+        input: ParseStream,
+    ) -> Result<()> {
         while !input.is_empty() {
             if input.peek(syn::Token![$]) && input.peek2(syn::Token![$]) {
                 let start = input.parse::<syn::Token![$]>()?;
@@ -297,13 +309,52 @@ impl<'a> StringParser<'a> {
                 continue;
             }
 
+            if input.peek(token::Paren) {
+                let content;
+                let span = syn::parenthesized!(content in input).span.span();
+                self.parse_group(encoder, requirements, ['(', ')'], span, &content)?;
+                continue;
+            }
+
+            if input.peek(token::Brace) {
+                let content;
+                let span = syn::braced!(content in input).span.span();
+                self.parse_group(encoder, requirements, ['{', '}'], span, &content)?;
+                continue;
+            }
+
+            if input.peek(token::Bracket) {
+                let content;
+                let span = syn::bracketed!(content in input).span.span();
+                self.parse_group(encoder, requirements, ['[', ']'], span, &content)?;
+                continue;
+            }
+
             let tt = input.parse::<TokenTree>()?;
             let cursor = self.buf.cursor(tt.span())?;
             encoder.extend_tt(&tt, cursor.start, Some(cursor.end))?;
         }
 
-        let (options, stream) = encoder.finalize(self.end)?;
-        Ok((options, requirements, stream))
+        Ok(())
+    }
+
+    fn parse_group(
+        &self,
+        encoder: &Encoder<'_>,
+        requirements: &mut Requirements,
+        [open, close]: [char; 2],
+        span: Span,
+        input: ParseStream,
+    ) -> Result<()> {
+        let cursor = self.buf.cursor(span)?;
+
+        let first = cursor.first_character();
+        encoder.encode_char(open, first.start, first.end)?;
+
+        self.parse_inner(encoder, requirements, input)?;
+
+        let last = cursor.last_character();
+        encoder.encode_char(close, last.start, last.end)
     }
 }
 
-- 
2.43.0


From e4f4e159ff8d27cb4c074678362a2bcaeba31bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:59 +0000
Subject: [PATCH 26/27] fix: dart: interpolations that are no identifiers

Only an identifier can follow a plain $ in a string of Dart. $(a.b) was written
as $a.b, which evaluates a alone.
---
 src/lang/dart/mod.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/lang/dart/mod.rs b/src/lang/dart/mod.rs
index 58416e8..0319d30 100644
--- a/src/lang/dart/mod.rs
+++ b/src/lang/dart/mod.rs
@@ -63,11 +63,22 @@ impl_lang! {
 
         fn string_eval_literal(
             out: &mut fmt::Formatter<'_>,
-            _config: &Self::Config,
-            _format: &Self::Format,
+            config: &Self::Config,
+            format: &Self::Format,
             literal: &str,
         ) -> fmt::Result {
-            write!(out, "${}", literal)?;
+            // Only identifiers can be interpolated without braces.
+            let identifier = literal.starts_with(|c: char| c == '_' || c.is_ascii_alphabetic())
+                && literal.chars().all(|c| c == '_' || c.is_ascii_alphanumeric());
+
+            if identifier {
+                write!(out, "${}", literal)?;
+            } else {
+                Self::start_string_eval(out, config, format)?;
+                out.write_str(literal)?;
+                Self::end_string_eval(out, config, format)?;
+            }
+
             Ok(())
         }
 
-- 
2.43.0


From b4715398e80c4f13b7abf8b7c416ca2ee281b750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:09 +0000
Subject: [PATCH 27/27] fix: macros: let bindings of struct literals

`$(let p = P { a: 1 })` was rejected: the expression was parsed as one
that a block follows, but nothing follows it.
---
 genco-macros/src/quote.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/genco-macros/src/quote.rs b/genco-macros/src/quote.rs
index 835d7ae..4c398ea 100644
--- a/genco-macros/src/quote.rs
+++ b/genco-macros/src/quote.rs
@@ -251,7 +251,7 @@ impl<'a> Quote<'a> {
 
         let name = syn::Pat::parse_single(input)?;
         input.parse::<Token![=]>()?;
-        let expr = syn::Expr::parse_without_eager_brace(input)?;
+        let expr = input.parse::<syn::Expr>()?;
 
         let ast = Ast::Let { name, expr };
 
-- 
2.43.0

