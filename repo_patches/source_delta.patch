From c98a5c32cb387359e1b08f95584fbe666cb693ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:07 +0000
Subject: [PATCH 01/15] fix: slice matched literal prefix by bytes, not
 characters

consume_str counted characters but used the count as a byte index, so a
mismatch inside a literal with multi-byte characters panicked or reported
the wrong text.
---
 chewed/src/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chewed/src/parse.rs b/chewed/src/parse.rs
index cd98d64..54d797c 100644
--- a/chewed/src/parse.rs
+++ b/chewed/src/parse.rs
@@ -30,7 +30,7 @@ pub trait Parser {
             if let Some(got) = self.peek() {
                 if got == exp {
                     self.next();
-                    count += 1
+                    count += exp.len_utf8()
                 } else {
                     let mut out = String::from(&s[..count]);
                     out.push(got);
-- 
2.43.0


From a83cd0686a3a5cf9b6ffbd160463c216252583ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:03 +0000
Subject: [PATCH 02/15] fix: do not share fix points that refer to different
 outer fix points

fix_map was keyed by the body of the fix point alone. Two structurally equal
bodies that refer to different enclosing fix points were given one type, so
the second one parsed the language of the first.
---
 src/chomp/typed/mod.rs | 25 ++++++++++++++++++++++++-
 src/lower/mod.rs       | 16 +++++++++++++---
 2 files changed, 37 insertions(+), 4 deletions(-)

diff --git a/src/chomp/typed/mod.rs b/src/chomp/typed/mod.rs
index f1f6967..c82f0f3 100644
--- a/src/chomp/typed/mod.rs
+++ b/src/chomp/typed/mod.rs
@@ -1,4 +1,4 @@
-use std::hash;
+use std::{collections::BTreeSet, hash};
 
 use proc_macro2::Span;
 
@@ -220,6 +220,29 @@ pub struct TypedExpression {
     pub span: Span,
 }
 
+impl TypedExpression {
+    /// The indices of the variables that are free in this expression.
+    pub fn free_variables(&self) -> BTreeSet<usize> {
+        match &self.inner {
+            RawTypedExpression::Epsilon(_) | RawTypedExpression::Literal(_) => BTreeSet::new(),
+            RawTypedExpression::Cat(Cat { terms, .. }) | RawTypedExpression::Alt(Alt { terms, .. }) => {
+                terms.iter().flat_map(Self::free_variables).collect()
+            }
+            RawTypedExpression::Fix(f) => f
+                .inner
+                .free_variables()
+                .into_iter()
+                .filter_map(|index| index.checked_sub(1))
+                .collect(),
+            RawTypedExpression::Variable(v) => {
+                let mut free = BTreeSet::new();
+                free.insert(v.index());
+                free
+            }
+        }
+    }
+}
+
 impl PartialEq for TypedExpression {
     fn eq(&self, other: &Self) -> bool {
         self.inner == other.inner && self.name == other.name
diff --git a/src/lower/mod.rs b/src/lower/mod.rs
index e74f86a..83b31fc 100644
--- a/src/lower/mod.rs
+++ b/src/lower/mod.rs
@@ -33,7 +33,8 @@ pub struct RustBackend {
     lit_map: HashMap<String, usize>,
     cat_map: HashMap<Vec<usize>, usize>,
     alt_map: HashMap<Vec<usize>, usize>,
-    fix_map: HashMap<TypedExpression, usize>,
+    // Key is the body and the IDs of the outer fix points it refers to
+    fix_map: HashMap<(TypedExpression, Vec<usize>), usize>,
     var_map: HashMap<usize, usize>, // Key is fix point ID
     name_map: HashMap<Ident, usize>,
     can_char: BTreeSet<usize>,
@@ -380,12 +381,21 @@ impl Backend for RustBackend {
     fn gen_fix(&mut self, name: Option<Name>, span: Span, fix: Fix) -> Self::Id {
         let inner = fix.unwrap();
 
-        if let Some(&id) = self.fix_map.get(&inner) {
+        // The same body means different things for different outer fix points.
+        let outer = inner
+            .free_variables()
+            .into_iter()
+            .filter_map(|index| index.checked_sub(1))
+            .map(|index| self.context[self.context.len() - index - 1])
+            .collect();
+        let key = (inner.clone(), outer);
+
+        if let Some(&id) = self.fix_map.get(&key) {
             return id;
         }
 
         let (id, name) = self.new_type_name("Fix", name, span);
-        self.fix_map.insert(inner.clone(), id);
+        self.fix_map.insert(key, id);
 
         self.data.push(Ty {
             name: TokenTree::from(name.clone()).into(),
-- 
2.43.0


From 4c4774225bdcc1ab38c35af39976e1f3914e9cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:31 +0000
Subject: [PATCH 03/15] fix: do not move the position when reading past the end
 of input

---
 chewed/src/parse.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/chewed/src/parse.rs b/chewed/src/parse.rs
index 54d797c..05d2a14 100644
--- a/chewed/src/parse.rs
+++ b/chewed/src/parse.rs
@@ -159,6 +159,7 @@ impl<I: ?Sized + Iterator<Item = char>> Parser for IterWrapper<I> {
                 }
                 Some('\x0D')
             }
+            None => None,
             x => {
                 self.pos.col += 1;
                 x
-- 
2.43.0


From 9efcfe7b42091f66ed66c08d043f6e5e4e0f3766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:31 +0000
Subject: [PATCH 04/15] fix: report the position of the offending character,
 not the one after it

---
 chewed/src/parse.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/chewed/src/parse.rs b/chewed/src/parse.rs
index 05d2a14..858624d 100644
--- a/chewed/src/parse.rs
+++ b/chewed/src/parse.rs
@@ -53,9 +53,12 @@ pub trait Parser {
 
     fn take_chars_from(&mut self, set: &'static [char], buffer: &mut [char]) -> Result<(), TakeError> {
         for pos in buffer {
-            match self.next() {
+            match self.peek() {
                 None => return Err(TakeError::EndOfStream(self.pos())),
-                Some(c) if set.contains(&c) => *pos = c,
+                Some(c) if set.contains(&c) => {
+                    self.next();
+                    *pos = c
+                }
                 Some(c) => return Err(TakeError::BadBranch(self.pos(), c, set))
             }
         }
-- 
2.43.0


From b83e418044e7a71a95d969153ce1399294bee644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:05 +0000
Subject: [PATCH 05/15] fix: report a list item's own error before looking for
 a separator

---
 chewed/src/parse.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/chewed/src/parse.rs b/chewed/src/parse.rs
index 858624d..756784a 100644
--- a/chewed/src/parse.rs
+++ b/chewed/src/parse.rs
@@ -104,7 +104,10 @@ impl<P: Parser + ?Sized, F: FnMut(&mut P) -> Result<R, TakeError>, R> Iterator f
         if c == self.stop {
             None
         } else {
-            let res = (self.parse)(self.iter).map(Some).transpose()?;
+            let res = match (self.parse)(self.iter) {
+                Err(e) => return Some(Err(e)),
+                res => res,
+            };
 
             match self.iter.peek() {
                 None => Some(Err(TakeError::EndOfStream(self.iter.pos()))),
-- 
2.43.0


From cb44dc646752d36cfdc3d61b0df8011cb0e6cc2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:25 +0000
Subject: [PATCH 06/15] fix: reject fix points of functions with several
 parameters

---
 src/chomp/typed/infer.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/chomp/typed/infer.rs b/src/chomp/typed/infer.rs
index bc2baea..baf8816 100644
--- a/src/chomp/typed/infer.rs
+++ b/src/chomp/typed/infer.rs
@@ -119,12 +119,13 @@ impl Folder for TypeInfer<'_> {
 
     fn fold_fix(&mut self, name: Option<Name>, span: Span, fix: Fix) -> Self::Out {
         let mut ty = Type::default();
-        let body = if let Expression::Lambda(l) = fix.inner.expr {
-            let mut body = *l.inner;
-            body.name = Name::merge_all(array::IntoIter::new([fix.inner.name, body.name, name.clone()]));
-            body
-        } else {
-            return Err(TypeError::ExpectedLambda { span, fix });
+        let body = match fix.inner.expr {
+            Expression::Lambda(l) if l.args.len() == 1 => {
+                let mut body = *l.inner;
+                body.name = Name::merge_all(array::IntoIter::new([fix.inner.name, body.name, name.clone()]));
+                body
+            }
+            _ => return Err(TypeError::ExpectedLambda { span, fix }),
         };
 
         loop {
-- 
2.43.0


From 11143afd92d99dc2bb5241bdb0909a83d16718c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:17 +0000
Subject: [PATCH 07/15] fix: accept keywords as parameter names, as everywhere
 else a name is read

---
 src/nibble/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nibble/mod.rs b/src/nibble/mod.rs
index f5417db..97bfbfe 100644
--- a/src/nibble/mod.rs
+++ b/src/nibble/mod.rs
@@ -277,7 +277,7 @@ impl Parse for Lambda {
         let slash_tok_left = input.parse()?;
         let mut args = Vec::new();
         loop {
-            args.push(input.parse()?);
+            args.push(input.call(Ident::parse_any)?);
             let lookahead = input.lookahead1();
 
             if lookahead.peek(Token![/]) {
@@ -401,7 +401,7 @@ impl Parse for LetStatement {
             if lookahead.peek(Token![=]) {
                 break;
             } else if lookahead.peek(Ident::peek_any) {
-                args.push(input.parse()?);
+                args.push(input.call(Ident::parse_any)?);
             } else {
                 return Err(lookahead.error());
             }
-- 
2.43.0


From 85ffac1eefc33996c891f9a28841eb3d45686274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:46 +0000
Subject: [PATCH 08/15] fix: report unicode escapes that are not characters
 instead of panicking

The self-hosted front end unwrapped the conversion of \u{...} escapes to
char, so surrogates and values above 10FFFF aborted the compiler.
---
 autonibble/src/lib.rs | 51 ++++++++++++++++++++++++++++---------------
 src/nibble/convert.rs |  7 +++++-
 2 files changed, 40 insertions(+), 18 deletions(-)

diff --git a/autonibble/src/lib.rs b/autonibble/src/lib.rs
index 2fed0f0..2212590 100644
--- a/autonibble/src/lib.rs
+++ b/autonibble/src/lib.rs
@@ -1,4 +1,7 @@
-use std::{convert::TryInto, mem};
+use std::{
+    convert::{TryFrom, TryInto},
+    mem,
+};
 
 use chomp::{
     chomp::{
@@ -277,7 +280,12 @@ impl Convert for Term1 {
             }),
             Term1::Literal1(literal) => Ok(NamedExpression {
                 name: None,
-                expr: literal.contents1.into_iter().collect::<Literal>().into(),
+                expr: literal
+                    .contents1
+                    .into_iter()
+                    .map(char::try_from)
+                    .collect::<Result<Literal, _>>()?
+                    .into(),
                 span: Span::call_site(),
             }),
             Term1::Parens1(parens) => parens.expr1.convert(context),
@@ -392,7 +400,7 @@ impl Iterator for Opt13 {
 }
 
 impl IntoIterator for Contents1 {
-    type Item = char;
+    type Item = LiteralChar1;
 
     type IntoIter = Opt11;
 
@@ -402,7 +410,7 @@ impl IntoIterator for Contents1 {
 }
 
 impl Iterator for Opt11 {
-    type Item = char;
+    type Item = LiteralChar1;
 
     fn next(&mut self) -> Option<Self::Item> {
         let orig = mem::replace(self, Opt11::None1(Epsilon));
@@ -410,27 +418,31 @@ impl Iterator for Opt11 {
             Opt11::None1(_) => None,
             Opt11::Plus1(contents) => {
                 *self = contents.opt1;
-                Some(contents.literal_char1.into())
+                Some(contents.literal_char1)
             }
         }
     }
 }
 
-impl From<LiteralChar1> for char {
-    fn from(c: LiteralChar1) -> Self {
+impl TryFrom<LiteralChar1> for char {
+    type Error = ConvertError;
+
+    fn try_from(c: LiteralChar1) -> Result<Self, Self::Error> {
         match c {
-            LiteralChar1::Literal1(c) => c.into(),
-            LiteralChar1::Escape1(e) => e.into(),
+            LiteralChar1::Literal1(c) => Ok(c.into()),
+            LiteralChar1::Escape1(e) => e.try_into(),
         }
     }
 }
 
-impl From<Escape1> for char {
-    fn from(e: Escape1) -> Self {
+impl TryFrom<Escape1> for char {
+    type Error = ConvertError;
+
+    fn try_from(e: Escape1) -> Result<Self, Self::Error> {
         match e.1 {
-            Alt171::Ascii1(a) => a.escape(),
-            Alt171::Oct1(o) => o.into(),
-            Alt171::Unicode1(u) => u.into(),
+            Alt171::Ascii1(a) => Ok(a.escape()),
+            Alt171::Oct1(o) => Ok(o.into()),
+            Alt171::Unicode1(u) => u.try_into(),
         }
     }
 }
@@ -458,10 +470,15 @@ impl From<Oct1> for char {
     }
 }
 
-impl From<Unicode1> for char {
-    fn from(u: Unicode1) -> Self {
+impl TryFrom<Unicode1> for char {
+    type Error = ConvertError;
+
+    fn try_from(u: Unicode1) -> Result<Self, Self::Error> {
         let s = u.up_to1.to_string();
-        u32::from_str_radix(&s, 16).unwrap().try_into().unwrap()
+        u32::from_str_radix(&s, 16)
+            .unwrap()
+            .try_into()
+            .map_err(|_| ConvertError::InvalidEscape(Span::call_site()))
     }
 }
 
diff --git a/src/nibble/convert.rs b/src/nibble/convert.rs
index ca6c95a..801051c 100644
--- a/src/nibble/convert.rs
+++ b/src/nibble/convert.rs
@@ -62,6 +62,7 @@ pub enum ConvertError {
     EmptyCat(Span),
     EmptyAlt(Span),
     EmptyCall(Span),
+    InvalidEscape(Span),
 }
 
 impl From<ConvertError> for syn::Error {
@@ -71,7 +72,8 @@ impl From<ConvertError> for syn::Error {
             ConvertError::UndeclaredName(name) => name.span(),
             ConvertError::EmptyCat(span)
             | ConvertError::EmptyAlt(span)
-            | ConvertError::EmptyCall(span) => span,
+            | ConvertError::EmptyCall(span)
+            | ConvertError::InvalidEscape(span) => span,
         };
 
         Self::new(span, msg)
@@ -93,6 +95,9 @@ impl fmt::Display for ConvertError {
             Self::EmptyCall(_) => {
                 write!(f, "call has no function")
             }
+            Self::InvalidEscape(_) => {
+                write!(f, "unicode escape is not a character")
+            }
         }
     }
 }
-- 
2.43.0


From f1917f7c097da4a8b089fcfb0266f88eb219668d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:52 +0000
Subject: [PATCH 09/15] fix: add the value of each hex digit instead of
 multiplying by it

The hand-written JSON parser computed every \uXXXX escape as 0.
---
 chomp-bench/src/json/mod.rs | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/chomp-bench/src/json/mod.rs b/chomp-bench/src/json/mod.rs
index 2279010..2e5f841 100644
--- a/chomp-bench/src/json/mod.rs
+++ b/chomp-bench/src/json/mod.rs
@@ -120,21 +120,21 @@ impl Parse for Value {
             for c in &chars {
                 match c {
                     '0' => out *= 16,
-                    '1' => out *= 16 + 1,
-                    '2' => out *= 16 + 2,
-                    '3' => out *= 16 + 3,
-                    '4' => out *= 16 + 4,
-                    '5' => out *= 16 + 5,
-                    '6' => out *= 16 + 6,
-                    '7' => out *= 16 + 7,
-                    '8' => out *= 16 + 8,
-                    '9' => out *= 16 + 9,
-                    'a' | 'A' => out *= 16 + 10,
-                    'b' | 'B' => out *= 16 + 11,
-                    'c' | 'C' => out *= 16 + 12,
-                    'd' | 'D' => out *= 16 + 13,
-                    'e' | 'E' => out *= 16 + 14,
-                    'f' | 'F' => out *= 16 + 15,
+                    '1' => out = out * 16 + 1,
+                    '2' => out = out * 16 + 2,
+                    '3' => out = out * 16 + 3,
+                    '4' => out = out * 16 + 4,
+                    '5' => out = out * 16 + 5,
+                    '6' => out = out * 16 + 6,
+                    '7' => out = out * 16 + 7,
+                    '8' => out = out * 16 + 8,
+                    '9' => out = out * 16 + 9,
+                    'a' | 'A' => out = out * 16 + 10,
+                    'b' | 'B' => out = out * 16 + 11,
+                    'c' | 'C' => out = out * 16 + 12,
+                    'd' | 'D' => out = out * 16 + 13,
+                    'e' | 'E' => out = out * 16 + 14,
+                    'f' | 'F' => out = out * 16 + 15,
                     _ => unreachable!(),
                 };
             }
-- 
2.43.0


From 7dcf98b18ad28c51a47b96ed0962cb6a301fb926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:52 +0000
Subject: [PATCH 10/15] fix: accept blanks inside empty arrays and objects

The hand-written JSON parser took a blank after the opening bracket for
the start of an item, so it rejected "[ ]" and "{ }".
---
 chomp-bench/src/json/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/chomp-bench/src/json/mod.rs b/chomp-bench/src/json/mod.rs
index 2e5f841..0ef9a9c 100644
--- a/chomp-bench/src/json/mod.rs
+++ b/chomp-bench/src/json/mod.rs
@@ -208,6 +208,7 @@ impl Parse for Value {
             '[' => {
                 const ARRAY_TAIL: &[char] = &[',', ']'];
                 input.consume_str("[")?;
+                skip_ws(input);
                 let a = input
                     .iter_strict(Self::take, ',', ']', ARRAY_TAIL, FIRST_WS)
                     .collect::<Result<_, _>>()
@@ -218,6 +219,7 @@ impl Parse for Value {
             '{' => {
                 const OBJECT_TAIL: &[char] = &[',', '}'];
                 input.consume_str("{")?;
+                skip_ws(input);
                 let o = input
                     .iter_strict(
                         |p| {
-- 
2.43.0


From 483980eda6b12a6718610ca51af69c038fc48536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:52 +0000
Subject: [PATCH 11/15] fix: display control characters in JSON strings

Characters below U+0020 without a short escape were treated as if they
were outside the basic plane, which overflowed.
---
 chomp-bench/src/json/mod.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/chomp-bench/src/json/mod.rs b/chomp-bench/src/json/mod.rs
index 0ef9a9c..26fbe39 100644
--- a/chomp-bench/src/json/mod.rs
+++ b/chomp-bench/src/json/mod.rs
@@ -48,12 +48,7 @@ impl fmt::Display for Value {
                     '\x0A' => write!(f, r#"\n"#),
                     '\x0D' => write!(f, r#"\r"#),
                     '\x09' => write!(f, r#"\t"#),
-                    _ => {
-                        let codepoint = u32::from(c) - 0x10000;
-                        let high: u16 = (codepoint / 0x400 + 0xD800).try_into().unwrap();
-                        let low: u16 = (codepoint % 0x400 + 0xDC00).try_into().unwrap();
-                        write!(f, r#"\u{:04X}\u{:04X}"#, high, low)
-                    }
+                    _ => write!(f, r#"\u{:04X}"#, u32::from(c)),
                 }?;
             }
             write!(f, "\"")
-- 
2.43.0


From e31f685b6643c4ed8340439878395b9275cada13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:59 +0000
Subject: [PATCH 12/15] fix: avoid collisions between generated names

---
 src/lower/mod.rs | 40 +++++++++++++++++++++++++++++++---------
 1 file changed, 31 insertions(+), 9 deletions(-)

diff --git a/src/lower/mod.rs b/src/lower/mod.rs
index 83b31fc..9ce6e1f 100644
--- a/src/lower/mod.rs
+++ b/src/lower/mod.rs
@@ -1,5 +1,5 @@
 use std::{
-    collections::{BTreeSet, HashMap},
+    collections::{BTreeSet, HashMap, HashSet},
     convert::TryInto,
 };
 
@@ -37,25 +37,40 @@ pub struct RustBackend {
     fix_map: HashMap<(TypedExpression, Vec<usize>), usize>,
     var_map: HashMap<usize, usize>, // Key is fix point ID
     name_map: HashMap<Ident, usize>,
+    type_names: HashSet<Ident>,
     can_char: BTreeSet<usize>,
     context: Vec<usize>,
 }
 
 type NamedSpan = (Option<Name>, Span);
 
+/// The first identifier made by `name`, counting up from `count`, that is not in `used`.
+fn fresh<F: Fn(usize) -> Ident>(used: &mut HashSet<Ident>, count: &mut usize, name: F) -> Ident {
+    loop {
+        let ident = name(*count);
+        if used.insert(ident.clone()) {
+            return ident;
+        }
+        *count += 1;
+    }
+}
+
 impl RustBackend {
     fn new_type_name(&mut self, prefix: &str, name: Option<Name>, span: Span) -> (usize, Ident) {
         let id = self.data.len();
 
-        match name {
-            None => (id, format_ident!("{}{}", prefix, id + 1, span = span)),
+        let name = match name {
+            None => fresh(&mut self.type_names, &mut (id + 1), |count| {
+                format_ident!("{}{}", prefix, count, span = span)
+            }),
             Some(name) => {
                 let name: Ident = name.to_camel_case().into();
                 let count = self.name_map.entry(name.clone()).or_insert(0);
                 *count += 1;
-                (id, format_ident!("{}{}", name, count))
+                fresh(&mut self.type_names, count, |count| format_ident!("{}{}", name, count))
             }
-        }
+        };
+        (id, name)
     }
 
     fn recurse_exprs<I: IntoIterator<Item = TypedExpression>>(
@@ -102,15 +117,18 @@ impl RustBackend {
         iter: I,
     ) -> impl Iterator<Item = Ident> + '_ {
         let mut name_map = HashMap::new();
+        let mut used = HashSet::new();
         iter.into_iter()
             .enumerate()
             .map(move |(index, (name, span))| match name {
-                None => format_ident!("{}{}", default, index + 1, span = span),
+                None => fresh(&mut used, &mut (index + 1), |count| {
+                    format_ident!("{}{}", default, count, span = span)
+                }),
                 Some(name) => {
                     let name: Ident = name.to_snake_case().into();
                     let count = name_map.entry(name.clone()).or_insert(0_usize);
                     *count += 1;
-                    format_ident!("{}{}", name, count)
+                    fresh(&mut used, count, |count| format_ident!("{}{}", name, count))
                 }
             })
     }
@@ -120,15 +138,18 @@ impl RustBackend {
         iter: I,
     ) -> impl Iterator<Item = Ident> + '_ {
         let mut name_map = HashMap::new();
+        let mut used = HashSet::new();
         iter.into_iter()
             .enumerate()
             .map(move |(index, (name, span))| match name {
-                None => format_ident!("{}{}", default, index + 1, span = span),
+                None => fresh(&mut used, &mut (index + 1), |count| {
+                    format_ident!("{}{}", default, count, span = span)
+                }),
                 Some(name) => {
                     let name: Ident = name.to_camel_case().into();
                     let count = name_map.entry(name.clone()).or_insert(0_usize);
                     *count += 1;
-                    format_ident!("{}{}", name, count)
+                    fresh(&mut used, count, |count| format_ident!("{}{}", name, count))
                 }
             })
     }
@@ -145,6 +166,7 @@ impl Default for RustBackend {
             fix_map: HashMap::new(),
             var_map: HashMap::new(),
             name_map: HashMap::new(),
+            type_names: HashSet::new(),
             can_char: BTreeSet::new(),
             context: Vec::new(),
         }
-- 
2.43.0


From e760ee6fa4e0c899196405b7317ff47ac542ec4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:00 +0000
Subject: [PATCH 13/15] fix: keep names identifiers after case conversion

---
 src/chomp/name.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/chomp/name.rs b/src/chomp/name.rs
index 450b6e9..60cecdd 100644
--- a/src/chomp/name.rs
+++ b/src/chomp/name.rs
@@ -32,15 +32,23 @@ impl From<Content> for Ident {
     }
 }
 
+/// Case conversion drops underscores, which can leave something that is not an identifier.
+fn as_ident(name: String) -> String {
+    match syn::parse_str::<Ident>(&format!("{}1", name)) {
+        Ok(_) => name,
+        Err(_) => format!("_{}", name),
+    }
+}
+
 impl CamelCase for Content {
     fn to_camel_case(&self) -> Self::Owned {
         match self {
             Self::Spanned(ident) => {
                 let span = ident.span();
                 let name = ident.unraw().to_string();
-                Ident::new(&name.to_camel_case(), span).into()
+                Ident::new(&as_ident(name.to_camel_case()), span).into()
             }
-            Self::Spanless(name) => name.to_camel_case().into(),
+            Self::Spanless(name) => as_ident(name.to_camel_case()).into(),
         }
     }
 }
@@ -51,9 +59,9 @@ impl SnakeCase for Content {
             Self::Spanned(ident) => {
                 let span = ident.span();
                 let name = ident.unraw().to_string();
-                Ident::new(&name.to_snake_case(), span).into()
+                Ident::new(&as_ident(name.to_snake_case()), span).into()
             }
-            Self::Spanless(name) => name.to_snake_case().into(),
+            Self::Spanless(name) => as_ident(name.to_snake_case()).into(),
         }
     }
 }
-- 
2.43.0


From 7a17adfd483d9b4892a4e7077c0cf682202f7a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:16 +0000
Subject: [PATCH 14/15] fix: report when the generated code cannot be written

---
 autonibble/src/main.rs | 5 ++++-
 src/main.rs            | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/autonibble/src/main.rs b/autonibble/src/main.rs
index 56c757d..d4b1a41 100644
--- a/autonibble/src/main.rs
+++ b/autonibble/src/main.rs
@@ -51,7 +51,10 @@ fn main() {
             backend.emit_code(None, Span::call_site(), id)
         })
         .and_then(|code| {
-            write!(io::stdout(), "{:#}", code).map_err(|e| Box::new(e) as Box<dyn Error>)
+            let mut stdout = io::stdout();
+            write!(stdout, "{:#}", code)
+                .and_then(|_| stdout.flush())
+                .map_err(|e| Box::new(e) as Box<dyn Error>)
         });
 
     if let Err(e) = res {
diff --git a/src/main.rs b/src/main.rs
index 0954074..7a6ab9f 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -50,7 +50,10 @@ fn main() {
             backend.emit_code(None, Span::call_site(), id)
         })
         .and_then(|code| {
-            write!(io::stdout(), "{:#}", code).map_err(|e| Box::new(e) as Box<dyn Error>)
+            let mut stdout = io::stdout();
+            write!(stdout, "{:#}", code)
+                .and_then(|_| stdout.flush())
+                .map_err(|e| Box::new(e) as Box<dyn Error>)
         });
 
     if let Err(e) = res {
-- 
2.43.0


From f1bba5fe635b027166c6588510e4b2943917567e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:56 +0000
Subject: [PATCH 15/15] fix: do not share a type between parts with different
 names

---
 src/lower/mod.rs | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/lower/mod.rs b/src/lower/mod.rs
index 9ce6e1f..3396417 100644
--- a/src/lower/mod.rs
+++ b/src/lower/mod.rs
@@ -31,8 +31,9 @@ pub struct RustBackend {
     data: Vec<Ty>,
     eps_id: Option<usize>,
     lit_map: HashMap<String, usize>,
-    cat_map: HashMap<Vec<usize>, usize>,
-    alt_map: HashMap<Vec<usize>, usize>,
+    // Keys are the IDs of the parts and the names of the fields (if any) or variants
+    cat_map: HashMap<(Vec<usize>, Option<Vec<Ident>>), usize>,
+    alt_map: HashMap<(Vec<usize>, Vec<Ident>), usize>,
     // Key is the body and the IDs of the outer fix points it refers to
     fix_map: HashMap<(TypedExpression, Vec<usize>), usize>,
     var_map: HashMap<usize, usize>, // Key is fix point ID
@@ -244,16 +245,18 @@ impl Backend for RustBackend {
     fn gen_cat(&mut self, name: Option<Name>, span: Span, cat: Cat) -> Self::Id {
         let (_, name_spans, ids) = self.recurse_exprs(cat);
 
-        if let Some(&id) = self.cat_map.get(&ids) {
+        let named = name_spans.iter().any(|(name, _)| name.is_some());
+        let (indexes, number_parts): (Vec<_>, Vec<_>) =
+            Self::indexes("part", name_spans.iter().cloned().map(|(_, span)| span)).unzip();
+        let name_parts: Vec<_> = Self::name_parts_snake("part", name_spans).collect();
+        let key = (ids.clone(), if named { Some(name_parts.clone()) } else { None });
+
+        if let Some(&id) = self.cat_map.get(&key) {
             return id;
         }
 
         let (id, name) = self.new_type_name("Cat", name, span);
         let ty_names: Vec<_> = self.ty_names(ids.iter().copied()).collect();
-        let named = name_spans.iter().any(|(name, _)| name.is_some());
-        let (indexes, number_parts): (Vec<_>, Vec<_>) =
-            Self::indexes("part", name_spans.iter().cloned().map(|(_, span)| span)).unzip();
-        let name_parts: Vec<_> = Self::name_parts_snake("part", name_spans).collect();
         let rest = if named {
             quote_spanned! {span=>
                 #[derive(Clone, Debug, Eq, Hash, PartialEq)]
@@ -296,7 +299,7 @@ impl Backend for RustBackend {
             }
         };
 
-        self.cat_map.insert(ids.clone(), id);
+        self.cat_map.insert(key, id);
         self.data.push(Ty {
             name: TokenTree::from(name).into(),
             rest,
@@ -308,13 +311,15 @@ impl Backend for RustBackend {
     fn gen_alt(&mut self, name: Option<Name>, span: Span, alt: Alt) -> Self::Id {
         let (tys, name_spans, ids) = self.recurse_exprs(alt);
 
-        if let Some(&id) = self.alt_map.get(&ids) {
+        let name_parts: Vec<_> = Self::name_parts_camel("Branch", name_spans).collect();
+        let key = (ids.clone(), name_parts.clone());
+
+        if let Some(&id) = self.alt_map.get(&key) {
             return id;
         }
 
         let (id, name) = self.new_type_name("Alt", name, span);
         let ty_names: Vec<_> = self.ty_names(ids.iter().copied()).collect();
-        let name_parts: Vec<_> = Self::name_parts_camel("Branch", name_spans).collect();
 
         let nullable = tys
             .iter()
@@ -391,7 +396,7 @@ impl Backend for RustBackend {
             })
         }
 
-        self.alt_map.insert(ids.clone(), id);
+        self.alt_map.insert(key, id);
         self.data.push(Ty {
             name: TokenTree::from(name).into(),
             rest,
-- 
2.43.0

