From 2f65a2c724b24acac86fbe5c964bb410719aa2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:40 +0000
Subject: [PATCH 01/29] fix: Debug attribute on a combinator did not compile
 with nom 8

nom::error::dbg_dmp takes a function, while nom 8 combinators are Parser
implementations: wrap the debugged parser in a closure.
---
 nom-derive-impl/src/parsertree.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nom-derive-impl/src/parsertree.rs b/nom-derive-impl/src/parsertree.rs
index b0498f6..ffd6e72 100644
--- a/nom-derive-impl/src/parsertree.rs
+++ b/nom-derive-impl/src/parsertree.rs
@@ -145,7 +145,7 @@ impl ToTokens for ParserExpr {
             }
             ParserExpr::DbgDmp(expr, i) => {
                 let ident = format!("{}", i);
-                quote! { nom::error::dbg_dmp(#expr, #ident) }
+                quote! { nom::error::dbg_dmp(|__i__| nom::Parser::parse(&mut #expr, __i__), #ident) }
             }
             ParserExpr::Into(expr) => {
                 quote! { nom::combinator::into(#expr) }
-- 
2.43.0


From 49d6d4f1273f195693223728f8fe4e680170c80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:40 +0000
Subject: [PATCH 02/29] fix: Verify condition starting with a literal was
 expanded as a Map

---
 nom-derive-impl/src/structs.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nom-derive-impl/src/structs.rs b/nom-derive-impl/src/structs.rs
index ce8d1e5..7440c38 100644
--- a/nom-derive-impl/src/structs.rs
+++ b/nom-derive-impl/src/structs.rs
@@ -250,7 +250,11 @@ fn get_parser(
                 let ts_arg = meta.arg().unwrap();
                 if let Some(TokenTree::Literal(_)) = ts_arg.clone().into_iter().next() {
                     let ts_arg = syn::parse2::<Expr>(ts_arg.clone())?;
-                    return Ok(ParserExpr::Map(Box::new(expr), ts_arg.to_token_stream()));
+                    return Ok(ParserExpr::Verify(
+                        Box::new(expr),
+                        ident.clone(),
+                        ts_arg.to_token_stream(),
+                    ));
                 }
                 let ts_arg = meta.arg().unwrap();
                 return Ok(ParserExpr::Verify(
-- 
2.43.0


From 6789998dd7f984c8ba460f423a83b676ac47ba65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:40 +0000
Subject: [PATCH 03/29] fix: cast the whole expression given to Count, Take,
 Align, Skip and Move

The argument can be any expression, but 'a + 1' was expanded to
'a + 1 as usize'.
---
 nom-derive-impl/src/parsertree.rs | 4 ++--
 nom-derive-impl/src/structs.rs    | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/nom-derive-impl/src/parsertree.rs b/nom-derive-impl/src/parsertree.rs
index ffd6e72..3f1aeb5 100644
--- a/nom-derive-impl/src/parsertree.rs
+++ b/nom-derive-impl/src/parsertree.rs
@@ -141,7 +141,7 @@ impl ToTokens for ParserExpr {
                 quote! { nom::combinator::cond(#c, #expr) }
             }
             ParserExpr::Count(expr, n) => {
-                quote! { nom::multi::count(#expr, #n as usize) }
+                quote! { nom::multi::count(#expr, (#n) as usize) }
             }
             ParserExpr::DbgDmp(expr, i) => {
                 let ident = format!("{}", i);
@@ -171,7 +171,7 @@ impl ToTokens for ParserExpr {
                 quote! { nom::bytes::streaming::tag(&#s[..]) }
             }
             ParserExpr::Take(s) => {
-                quote! { nom::bytes::streaming::take(#s as usize) }
+                quote! { nom::bytes::streaming::take((#s) as usize) }
             }
             ParserExpr::Value(ts) => {
                 quote! {
diff --git a/nom-derive-impl/src/structs.rs b/nom-derive-impl/src/structs.rs
index 7440c38..c6b87fa 100644
--- a/nom-derive-impl/src/structs.rs
+++ b/nom-derive-impl/src/structs.rs
@@ -287,7 +287,7 @@ fn quote_align(align: &TokenStream, config: &Config) -> TokenStream {
     quote! {
         let (#input, _) = {
             let offset = #input.as_ptr() as usize - #orig_input.as_ptr() as usize;
-            let align = #align as usize;
+            let align = (#align) as usize;
             let align = ((align - (offset % align)) % align);
             nom::bytes::streaming::take(align)(#input)
         }?;
@@ -302,7 +302,7 @@ fn quote_move(offset: &TokenStream, config: &Config) -> TokenStream {
         let #input = {
             let start = #orig_input.as_ptr() as usize;
             let pos = #input.as_ptr() as usize - start;
-            let offset = #offset as isize;
+            let offset = (#offset) as isize;
             let offset_u = offset.abs() as usize;
             let new_offset = if offset < 0 {
                 if offset_u > pos {
@@ -326,7 +326,7 @@ fn quote_move_abs(offset: &TokenStream, config: &Config) -> TokenStream {
     let orig_input = syn::Ident::new(config.orig_input_name(), offset.span());
     quote! {
         let #input = {
-            let offset = #offset as usize;
+            let offset = (#offset) as usize;
             if offset > #orig_input.len() {
                 return Err(nom::Err::Incomplete(nom::Needed::new(offset)));
             }
@@ -339,7 +339,7 @@ fn quote_skip(skip: &TokenStream, config: &Config) -> TokenStream {
     let input = syn::Ident::new(config.input_name(), skip.span());
     quote! {
         let (#input, _) = {
-            let skip = #skip as usize;
+            let skip = (#skip) as usize;
             nom::bytes::streaming::take(skip)(#input)
         }?;
     }
-- 
2.43.0


From 5d5a3146969acc9e844c27d29185f0f35c4c43e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:12 +0000
Subject: [PATCH 04/29] fix: code derived for enums with a selector required
 Parser to be imported

The struct generator already imports the trait in the function body.
---
 nom-derive-impl/src/gen/enums.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nom-derive-impl/src/gen/enums.rs b/nom-derive-impl/src/gen/enums.rs
index 217736a..c031074 100644
--- a/nom-derive-impl/src/gen/enums.rs
+++ b/nom-derive-impl/src/gen/enums.rs
@@ -75,6 +75,7 @@ impl Generator for GenEnum {
             quote! { _ => Err(nom::Err::Error(nom::error_position!(#input, nom::error::ErrorKind::Switch))) }
         };
         let tokens = quote! {
+            use nom::Parser;
             let #input = #orig_input;
             #tl_pre
             let (#input, enum_def) = match selector {
-- 
2.43.0


From 4f03b4c1bdde16ba6aace71d2e9878de289cb787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:12 +0000
Subject: [PATCH 05/29] fix: LengthData panicked when input is shorter than the
 announced length

---
 src/helpers.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/helpers.rs b/src/helpers.rs
index c0a8c9e..481c0b2 100644
--- a/src/helpers.rs
+++ b/src/helpers.rs
@@ -1,5 +1,6 @@
 use crate::traits::*;
 use core::marker::PhantomData;
+use nom::bytes::streaming::take;
 use nom::error::ParseError;
 use nom::{IResult, ToUsize};
 
@@ -24,17 +25,17 @@ where
 {
     fn parse(i: I) -> IResult<I, Self, E> {
         let (rem, length) = L::parse(i)?;
-        let (rem, data) = rem.take_split(length.to_usize());
+        let (rem, data) = take(length.to_usize())(rem)?;
         Ok((rem, LengthData::new(data)))
     }
     fn parse_be(i: I) -> IResult<I, Self, E> {
         let (rem, length) = L::parse_be(i)?;
-        let (rem, data) = rem.take_split(length.to_usize());
+        let (rem, data) = take(length.to_usize())(rem)?;
         Ok((rem, LengthData::new(data)))
     }
     fn parse_le(i: I) -> IResult<I, Self, E> {
         let (rem, length) = L::parse_le(i)?;
-        let (rem, data) = rem.take_split(length.to_usize());
+        let (rem, data) = take(length.to_usize())(rem)?;
         Ok((rem, LengthData::new(data)))
     }
 }
-- 
2.43.0


From e72ffb3c317cea165b5d517feb0707511f9d7573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:12 +0000
Subject: [PATCH 06/29] fix: Move panicked (overflow) on isize::MIN

---
 nom-derive-impl/src/structs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nom-derive-impl/src/structs.rs b/nom-derive-impl/src/structs.rs
index c6b87fa..6fdb607 100644
--- a/nom-derive-impl/src/structs.rs
+++ b/nom-derive-impl/src/structs.rs
@@ -303,7 +303,7 @@ fn quote_move(offset: &TokenStream, config: &Config) -> TokenStream {
             let start = #orig_input.as_ptr() as usize;
             let pos = #input.as_ptr() as usize - start;
             let offset = (#offset) as isize;
-            let offset_u = offset.abs() as usize;
+            let offset_u = offset.unsigned_abs();
             let new_offset = if offset < 0 {
                 if offset_u > pos {
                     return Err(nom::Err::Error(nom::error::make_error(#input, nom::error::ErrorKind::TooLarge)));
-- 
2.43.0


From 3e1c671a9f826389eac082753d60273a60e43757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:12 +0000
Subject: [PATCH 07/29] fix: Move and MoveAbs asked for more data than what is
 missing

Like all nom streaming parsers, report the number of missing bytes: a client
waiting for the whole offset could wait for data which will never come.
---
 nom-derive-impl/src/structs.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nom-derive-impl/src/structs.rs b/nom-derive-impl/src/structs.rs
index 6fdb607..c37220a 100644
--- a/nom-derive-impl/src/structs.rs
+++ b/nom-derive-impl/src/structs.rs
@@ -311,7 +311,7 @@ fn quote_move(offset: &TokenStream, config: &Config) -> TokenStream {
                 pos - offset_u
             } else {
                 if pos + offset_u > #orig_input.len() {
-                    return Err(nom::Err::Incomplete(nom::Needed::new(offset_u)));
+                    return Err(nom::Err::Incomplete(nom::Needed::new(pos + offset_u - #orig_input.len())));
                 }
                 pos + offset_u
             };
@@ -328,7 +328,7 @@ fn quote_move_abs(offset: &TokenStream, config: &Config) -> TokenStream {
         let #input = {
             let offset = (#offset) as usize;
             if offset > #orig_input.len() {
-                return Err(nom::Err::Incomplete(nom::Needed::new(offset)));
+                return Err(nom::Err::Incomplete(nom::Needed::new(offset - #orig_input.len())));
             }
             &#orig_input[offset..]
         };
-- 
2.43.0


From 9ba4d606a11bec6a8238b2bec634d18b0c0be740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:12 +0000
Subject: [PATCH 08/29] fix: a default variant that is not last changed the
 order of the other variants

Selectors are matched in order, and patterns can overlap.
---
 nom-derive-impl/src/gen/enums.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nom-derive-impl/src/gen/enums.rs b/nom-derive-impl/src/gen/enums.rs
index c031074..ca422e7 100644
--- a/nom-derive-impl/src/gen/enums.rs
+++ b/nom-derive-impl/src/gen/enums.rs
@@ -214,8 +214,8 @@ impl GenEnum {
                 .expect("default case is handled but couldn't find index");
             let last_index = self.variants_defs.len() - 1;
             if pos != last_index {
-                // self.variants_defs.swap(pos, last_index);
-                variants_code.swap(pos, last_index);
+                // keep the order of the other variants: patterns can overlap
+                variants_code[pos..].rotate_left(1);
             }
         }
         Ok((default_case_handled, variants_code))
-- 
2.43.0


From 9dbedc2bf98733a44434df49d20b1a3d0280df70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:30 +0000
Subject: [PATCH 09/29] fix: SetEndian on a field was not applied to the
 following fields

The documentation states that all parsers after the attribute (including the
annotated field) are affected.
---
 nom-derive-impl/src/structs.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/nom-derive-impl/src/structs.rs b/nom-derive-impl/src/structs.rs
index c37220a..b3ca8f9 100644
--- a/nom-derive-impl/src/structs.rs
+++ b/nom-derive-impl/src/structs.rs
@@ -447,6 +447,9 @@ pub(crate) fn parse_fields(f: &Fields, config: &mut Config) -> Result<StructPars
             // so the caller must check and add attributes
         }
     }
+    // a SetEndian attribute on a field applies to this field and all following fields (but not to
+    // other variants, if parsing an enum)
+    let object_endianness = config.object_endianness;
     for (idx, field) in f.iter().enumerate() {
         let ident_str = if let Some(s) = field.ident.as_ref() {
             s.to_string()
@@ -455,6 +458,9 @@ pub(crate) fn parse_fields(f: &Fields, config: &mut Config) -> Result<StructPars
         };
         let meta_list = meta::parse_nom_attribute(&field.attrs)?;
         // eprintln!("meta_list: {:?}", meta_list);
+        if meta_list.iter().any(|m| m.is_type(MetaAttrType::SetEndian)) {
+            config.object_endianness = ParserEndianness::SetEndian;
+        }
         let mut p = get_field_parser(field, &meta_list, config)?;
 
         if config.complete {
@@ -481,6 +487,7 @@ pub(crate) fn parse_fields(f: &Fields, config: &mut Config) -> Result<StructPars
         let sp = StructParser::new(ident_str, item, pre, post);
         parsers.push(sp);
     }
+    config.object_endianness = object_endianness;
     Ok(StructParserTree {
         empty,
         unnamed,
-- 
2.43.0


From de6882b454f9b10b57fb155322c835bff61fec6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:49 +0000
Subject: [PATCH 10/29] fix: Complete attribute was ignored on fieldless enums

---
 nom-derive-impl/src/gen/fieldless_enums.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/nom-derive-impl/src/gen/fieldless_enums.rs b/nom-derive-impl/src/gen/fieldless_enums.rs
index 4f3d92f..428bf19 100644
--- a/nom-derive-impl/src/gen/fieldless_enums.rs
+++ b/nom-derive-impl/src/gen/fieldless_enums.rs
@@ -73,9 +73,10 @@ impl Generator for GenFieldlessEnum {
         let parser = &self.repr_parser.with_endianness(endianness);
         // generate body
         let tokens = quote! {
+            use nom::Parser;
             let #input = #orig_input;
             #tl_pre
-            let (#input, selector) = #parser(#input)?;
+            let (#input, selector) = #parser.parse(#input)?;
             let enum_def =
                 #(#variants_code else)*
             { return Err(nom::Err::Error(nom::error::make_error(#orig_input, nom::error::ErrorKind::Switch))); };
@@ -154,6 +155,11 @@ impl GenFieldlessEnum {
                 ));
             }
         };
+        let repr_parser = if config.complete {
+            repr_parser.complete()
+        } else {
+            repr_parser
+        };
 
         let variants_code: Vec<_> = data_enum
             .variants
-- 
2.43.0


From 4c7d758c2f9452467431e9df3d4575ca7c673756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:49 +0000
Subject: [PATCH 11/29] fix: Complete attribute on an enum was ignored for unit
 variants with a parser

---
 nom-derive-impl/src/enums.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nom-derive-impl/src/enums.rs b/nom-derive-impl/src/enums.rs
index fc489f4..620103f 100644
--- a/nom-derive-impl/src/enums.rs
+++ b/nom-derive-impl/src/enums.rs
@@ -35,6 +35,9 @@ pub(crate) fn parse_variant(
                 p = Some(ParserExpr::Raw(s.clone()));
             }
         }
+        if config.complete {
+            p = p.map(ParserExpr::complete);
+        }
         let (pre, post) = get_pre_post_exec(&meta_list, config);
         let p = p.unwrap_or(ParserExpr::Nop);
         let item = ParserTreeItem::new(Some(variant.ident.clone()), p);
-- 
2.43.0


From ee49e01d385339b1e6c9eb90e8eefe5a3d52bb2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:49 +0000
Subject: [PATCH 12/29] fix: or-patterns were rejected in Selector when using
 the string syntax

---
 nom-derive-impl/src/meta/attr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nom-derive-impl/src/meta/attr.rs b/nom-derive-impl/src/meta/attr.rs
index 863a1de..51a3c9a 100644
--- a/nom-derive-impl/src/meta/attr.rs
+++ b/nom-derive-impl/src/meta/attr.rs
@@ -304,7 +304,7 @@ struct PatternAndGuard {
 
 impl Parse for PatternAndGuard {
     fn parse(input: ParseStream) -> syn::Result<Self> {
-        let pat = Pat::parse_single(input)?;
+        let pat = Pat::parse_multi_with_leading_vert(input)?;
         let guard = if input.peek(Token![if]) {
             let tk_if: Token![if] = input.parse()?;
             let expr: syn::Expr = input.parse()?;
-- 
2.43.0


From c850a36ac2a8cd57e1ed5036032f8129e7e00e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:56 +0000
Subject: [PATCH 13/29] fix: fields named offset, start or pos were hidden in
 Align and Move expressions

---
 nom-derive-impl/src/structs.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nom-derive-impl/src/structs.rs b/nom-derive-impl/src/structs.rs
index b3ca8f9..eaa5f69 100644
--- a/nom-derive-impl/src/structs.rs
+++ b/nom-derive-impl/src/structs.rs
@@ -286,8 +286,8 @@ fn quote_align(align: &TokenStream, config: &Config) -> TokenStream {
     let orig_input = syn::Ident::new(config.orig_input_name(), align.span());
     quote! {
         let (#input, _) = {
-            let offset = #input.as_ptr() as usize - #orig_input.as_ptr() as usize;
             let align = (#align) as usize;
+            let offset = #input.as_ptr() as usize - #orig_input.as_ptr() as usize;
             let align = ((align - (offset % align)) % align);
             nom::bytes::streaming::take(align)(#input)
         }?;
@@ -300,9 +300,9 @@ fn quote_move(offset: &TokenStream, config: &Config) -> TokenStream {
     let orig_input = syn::Ident::new(config.orig_input_name(), offset.span());
     quote! {
         let #input = {
+            let offset = (#offset) as isize;
             let start = #orig_input.as_ptr() as usize;
             let pos = #input.as_ptr() as usize - start;
-            let offset = (#offset) as isize;
             let offset_u = offset.unsigned_abs();
             let new_offset = if offset < 0 {
                 if offset_u > pos {
-- 
2.43.0


From 93e56e1ca043fc0f6590c27e3cc803c14963469a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:43 +0000
Subject: [PATCH 14/29] fix: code derived with GenericErrors and a selector or
 extra arguments required std

---
 nom-derive-impl/src/gen/generator.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nom-derive-impl/src/gen/generator.rs b/nom-derive-impl/src/gen/generator.rs
index f44e539..0bead90 100644
--- a/nom-derive-impl/src/gen/generator.rs
+++ b/nom-derive-impl/src/gen/generator.rs
@@ -105,7 +105,7 @@ pub(crate) trait Generator {
                     quote!(<#ident_e>),
                     quote! {where
                         #ident_e: nom_derive::nom::error::ParseError<&#lft [u8]>,
-                        #ident_e: std::fmt::Debug,
+                        #ident_e: core::fmt::Debug,
                     },
                 )
             } else {
@@ -313,7 +313,7 @@ pub(crate) fn gen_fn_decl(
                 #ident_e: nom_derive::nom::error::ParseError<&#lft [u8]>
             };
             fn_where_clause.predicates.push(dep);
-            let dep: WherePredicate = parse_quote! { #ident_e: std::fmt::Debug };
+            let dep: WherePredicate = parse_quote! { #ident_e: core::fmt::Debug };
             fn_where_clause.predicates.push(dep);
             // add error type to function generics
             fn_generics = Some(quote!(<#ident_e>));
-- 
2.43.0


From 779545ff04357166fdfad68ee46b0685ca991f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:57 +0000
Subject: [PATCH 15/29] fix: arrays could not be used with generic error types

---
 src/traits.rs | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/src/traits.rs b/src/traits.rs
index dc13f4f..7f11a85 100644
--- a/src/traits.rs
+++ b/src/traits.rs
@@ -20,7 +20,7 @@ use nom::bytes::streaming::take;
 use nom::combinator::map_res;
 
 #[cfg(feature = "alloc")]
-use nom::error::FromExternalError;
+use nom::error::{make_error, ErrorKind, FromExternalError};
 
 #[cfg(not(feature = "alloc"))]
 use nom::multi::fill;
@@ -236,23 +236,33 @@ where
 impl<T, I, E, const N: usize> Parse<I, E> for [T; N]
 where
     I: Clone + PartialEq + InputSlice,
-    E: ParseError<I> + FromExternalError<I, Vec<T>>,
+    E: ParseError<I>,
     T: Parse<I, E>,
 {
     fn parse(i: I) -> IResult<I, Self, E> {
-        map_res(many_m_n(N, N, complete(<T>::parse)), Self::try_from).parse(i)
+        parse_array(<T>::parse, i)
     }
     fn parse_be(i: I) -> IResult<I, Self, E> {
-        map_res(many_m_n(N, N, complete(<T>::parse_be)), |v| {
-            Self::try_from(v)
-        })
-        .parse(i)
+        parse_array(<T>::parse_be, i)
     }
     fn parse_le(i: I) -> IResult<I, Self, E> {
-        map_res(many_m_n(N, N, complete(<T>::parse_le)), |v| {
-            Self::try_from(v)
-        })
-        .parse(i)
+        parse_array(<T>::parse_le, i)
+    }
+}
+
+#[rustversion::since(1.51)]
+#[cfg(feature = "alloc")]
+fn parse_array<T, I, E, F, const N: usize>(f: F, i: I) -> IResult<I, [T; N], E>
+where
+    I: Clone + PartialEq + InputSlice,
+    E: ParseError<I>,
+    F: Parser<I, Output = T, Error = E>,
+{
+    let (rem, v) = many_m_n(N, N, complete(f)).parse(i.clone())?;
+    // conversion can't fail: there are exactly N items
+    match <[T; N]>::try_from(v) {
+        Ok(a) => Ok((rem, a)),
+        Err(_) => Err(nom::Err::Error(make_error(i, ErrorKind::MapRes))),
     }
 }
 
-- 
2.43.0


From dc775681924115aa9974e599b194358e215dc563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:09 +0000
Subject: [PATCH 16/29] fix: missing bounds on the error type for String and
 Debug with GenericErrors

---
 nom-derive-impl/src/gen/enums.rs     | 10 +++++
 nom-derive-impl/src/gen/generator.rs | 18 +++++---
 nom-derive-impl/src/gen/structs.rs   | 65 ++++++++++++++++------------
 nom-derive-impl/src/parsertree.rs    | 15 +++++++
 4 files changed, 75 insertions(+), 33 deletions(-)

diff --git a/nom-derive-impl/src/gen/enums.rs b/nom-derive-impl/src/gen/enums.rs
index ca422e7..dcedd51 100644
--- a/nom-derive-impl/src/gen/enums.rs
+++ b/nom-derive-impl/src/gen/enums.rs
@@ -11,6 +11,7 @@ use crate::r#gen::get_extra_args;
 use crate::structs::get_pre_post_exec;
 use crate::Result;
 
+use super::structs::add_extra_where_predicates;
 use super::Generator;
 
 pub struct GenEnum {
@@ -23,6 +24,7 @@ pub struct GenEnum {
     tl_pre: Option<TokenStream>,
     tl_post: Option<TokenStream>,
     variants_defs: Vec<VariantParserTree>,
+    impl_where_predicates: Option<Vec<WherePredicate>>,
 }
 
 impl Generator for GenEnum {
@@ -58,6 +60,10 @@ impl Generator for GenEnum {
         &self.orig_generics
     }
 
+    fn impl_where_predicates(&self) -> Option<&Vec<WherePredicate>> {
+        self.impl_where_predicates.as_ref()
+    }
+
     #[inline]
     fn config(&self) -> &Config {
         &self.config
@@ -129,6 +135,9 @@ impl GenEnum {
             .map(|v| parse_variant(v, &mut config))
             .collect::<Result<Vec<_>>>()?;
 
+        let parsers = variants_defs.iter().flat_map(|def| &def.struct_def.parsers);
+        let impl_where_predicates = add_extra_where_predicates(parsers, &config);
+
         Ok(Self {
             name,
             config,
@@ -137,6 +146,7 @@ impl GenEnum {
             tl_pre,
             tl_post,
             variants_defs,
+            impl_where_predicates,
         })
     }
 
diff --git a/nom-derive-impl/src/gen/generator.rs b/nom-derive-impl/src/gen/generator.rs
index 0bead90..7a995eb 100644
--- a/nom-derive-impl/src/gen/generator.rs
+++ b/nom-derive-impl/src/gen/generator.rs
@@ -35,6 +35,7 @@ pub(crate) trait Generator {
             ParserEndianness::BigEndian,
             self.extra_args(),
             self.config(),
+            self.impl_where_predicates(),
         );
         if self.has_impl_for_endianness(ParserEndianness::BigEndian) {
             let fn_body = self.gen_fn_body(ParserEndianness::BigEndian)?;
@@ -62,6 +63,7 @@ pub(crate) trait Generator {
             ParserEndianness::LittleEndian,
             self.extra_args(),
             self.config(),
+            self.impl_where_predicates(),
         );
         if self.has_impl_for_endianness(ParserEndianness::LittleEndian) {
             let fn_body = self.gen_fn_body(ParserEndianness::LittleEndian)?;
@@ -101,11 +103,13 @@ pub(crate) trait Generator {
         };
         let tokens_parse = {
             let (fn_generics, where_clause) = if self.config().generic_errors && special_case {
+                let predicates = self.impl_where_predicates().into_iter().flatten();
                 (
                     quote!(<#ident_e>),
                     quote! {where
                         #ident_e: nom_derive::nom::error::ParseError<&#lft [u8]>,
                         #ident_e: core::fmt::Debug,
+                        #(#predicates),*
                     },
                 )
             } else {
@@ -164,11 +168,6 @@ pub(crate) trait Generator {
             let dep: WherePredicate = parse_quote! { #param_ident: Parse< &#lft [u8] #maybe_err > };
             gen_wh.predicates.push(dep);
         }
-        if let Some(impl_where_predicates) = self.impl_where_predicates() {
-            for wh in impl_where_predicates {
-                gen_wh.predicates.push(wh.clone());
-            }
-        }
 
         // Global impl
         let impl_tokens = if self.extra_args().is_some() || self.config().selector_type().is_some()
@@ -198,6 +197,11 @@ pub(crate) trait Generator {
                     parse_quote!(#ident_e: nom::error::ParseError<& #lft [u8]>);
                 gen_wh.predicates.push(wh);
                 gen_impl.params.push(GenericParam::Type(param_e));
+                if let Some(impl_where_predicates) = self.impl_where_predicates() {
+                    for wh in impl_where_predicates {
+                        gen_wh.predicates.push(wh.clone());
+                    }
+                }
                 quote! { #ident_e }
             } else {
                 quote! { nom::error::Error<&#lft [u8]> }
@@ -276,6 +280,7 @@ pub(crate) fn gen_fn_decl(
     endianness: ParserEndianness,
     extra_args: Option<&TokenStream>,
     config: &Config,
+    extra_predicates: Option<&Vec<WherePredicate>>,
 ) -> TokenStream {
     let parse = match endianness {
         ParserEndianness::BigEndian => "parse_be",
@@ -315,6 +320,9 @@ pub(crate) fn gen_fn_decl(
             fn_where_clause.predicates.push(dep);
             let dep: WherePredicate = parse_quote! { #ident_e: core::fmt::Debug };
             fn_where_clause.predicates.push(dep);
+            for wh in extra_predicates.into_iter().flatten() {
+                fn_where_clause.predicates.push(wh.clone());
+            }
             // add error type to function generics
             fn_generics = Some(quote!(<#ident_e>));
         }
diff --git a/nom-derive-impl/src/gen/structs.rs b/nom-derive-impl/src/gen/structs.rs
index 0eafc1a..94b5740 100644
--- a/nom-derive-impl/src/gen/structs.rs
+++ b/nom-derive-impl/src/gen/structs.rs
@@ -1,4 +1,5 @@
-use proc_macro2::TokenStream;
+use proc_macro2::{TokenStream, TokenTree};
+use quote::ToTokens;
 use syn::*;
 
 use crate::config::Config;
@@ -146,7 +147,7 @@ impl GenStruct {
 
         let s = parse_struct(datastruct, &mut config)?;
 
-        let impl_where_predicates = add_extra_where_predicates(&s, &config);
+        let impl_where_predicates = add_extra_where_predicates(&s.parsers, &config);
 
         Ok(GenStruct {
             name,
@@ -162,35 +163,43 @@ impl GenStruct {
 }
 
 /// Find additional where clauses to add (for ex. `String` requires `FromExternalError<&[u8], Utf8Error>`)
-#[allow(clippy::single_match)]
-fn add_extra_where_predicates(
-    parser_tree: &StructParserTree,
+pub(super) fn add_extra_where_predicates<'p>(
+    parsers: impl IntoIterator<Item = &'p StructParser>,
     config: &Config,
 ) -> Option<Vec<WherePredicate>> {
-    if config.generic_errors {
-        let mut v = Vec::new();
-        let lft = Lifetime::new(config.lifetime_name(), Span::call_site());
-        let err = Ident::new(config.error_name(), Span::call_site());
-        // visit parser tree and look for types with requirement on Error type
-        for p in &parser_tree.parsers {
-            if let Some(ty) = p.item.expr.last_type() {
-                if let Ok(s) = get_type_first_ident(&ty.0) {
-                    match s.as_ref() {
-                        "String" => {
-                            let wh: WherePredicate = parse_quote! {#err: nom::error::FromExternalError<&#lft [u8], core::str::Utf8Error>};
-                            v.push(wh)
-                        }
-                        _ => (),
-                    }
-                }
-            }
-        }
-        if !v.is_empty() {
-            Some(v)
-        } else {
-            None
+    if !config.generic_errors {
+        return None;
+    }
+    let lft = Lifetime::new(config.lifetime_name(), Span::call_site());
+    let err = Ident::new(config.error_name(), Span::call_site());
+    let (mut has_string, mut has_debug) = (false, false);
+    // visit parsers and look for requirements on Error type
+    for p in parsers {
+        if let Some(ty) = p.item.expr.last_type() {
+            has_string |= contains_ident(ty.to_token_stream(), "String");
         }
-    } else {
+        has_debug |= p.item.expr.has_debug();
+    }
+    let mut v: Vec<WherePredicate> = Vec::new();
+    if has_string {
+        v.push(
+            parse_quote! {#err: nom::error::FromExternalError<&#lft [u8], core::str::Utf8Error>},
+        );
+    }
+    if has_debug {
+        v.push(parse_quote! {#err: core::fmt::Debug});
+    }
+    if v.is_empty() {
         None
+    } else {
+        Some(v)
     }
 }
+
+fn contains_ident(ts: TokenStream, name: &str) -> bool {
+    ts.into_iter().any(|tt| match tt {
+        TokenTree::Ident(ident) => ident == name,
+        TokenTree::Group(group) => contains_ident(group.stream(), name),
+        _ => false,
+    })
+}
diff --git a/nom-derive-impl/src/parsertree.rs b/nom-derive-impl/src/parsertree.rs
index 3f1aeb5..6c56758 100644
--- a/nom-derive-impl/src/parsertree.rs
+++ b/nom-derive-impl/src/parsertree.rs
@@ -120,6 +120,21 @@ impl ParserExpr {
             _ => None,
         }
     }
+
+    /// True if a parser in this expression displays (and thus formats) errors
+    pub fn has_debug(&self) -> bool {
+        match self {
+            ParserExpr::DbgDmp(_, _) => true,
+            ParserExpr::Complete(expr)
+            | ParserExpr::Cond(expr, _)
+            | ParserExpr::Count(expr, _)
+            | ParserExpr::Into(expr)
+            | ParserExpr::LengthCount(expr, _)
+            | ParserExpr::Map(expr, _)
+            | ParserExpr::Verify(expr, _, _) => expr.has_debug(),
+            _ => false,
+        }
+    }
 }
 
 impl ToTokens for ParserExpr {
-- 
2.43.0


From 60e6cc0169f79f6900b0efd5dce3a2bc936f92ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:05 +0000
Subject: [PATCH 17/29] fix: unneeded Debug bound on the error type with
 GenericErrors

---
 nom-derive-impl/src/gen/generator.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/nom-derive-impl/src/gen/generator.rs b/nom-derive-impl/src/gen/generator.rs
index 7a995eb..8adb998 100644
--- a/nom-derive-impl/src/gen/generator.rs
+++ b/nom-derive-impl/src/gen/generator.rs
@@ -108,7 +108,6 @@ pub(crate) trait Generator {
                     quote!(<#ident_e>),
                     quote! {where
                         #ident_e: nom_derive::nom::error::ParseError<&#lft [u8]>,
-                        #ident_e: core::fmt::Debug,
                         #(#predicates),*
                     },
                 )
@@ -318,8 +317,6 @@ pub(crate) fn gen_fn_decl(
                 #ident_e: nom_derive::nom::error::ParseError<&#lft [u8]>
             };
             fn_where_clause.predicates.push(dep);
-            let dep: WherePredicate = parse_quote! { #ident_e: core::fmt::Debug };
-            fn_where_clause.predicates.push(dep);
             for wh in extra_predicates.into_iter().flatten() {
                 fn_where_clause.predicates.push(wh.clone());
             }
-- 
2.43.0


From a8783aa82b60db422477fab0fc576d0ed1c9dae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:09 +0000
Subject: [PATCH 18/29] fix: attributes on variants of fieldless enums were not
 checked

---
 nom-derive-impl/src/gen/fieldless_enums.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nom-derive-impl/src/gen/fieldless_enums.rs b/nom-derive-impl/src/gen/fieldless_enums.rs
index 428bf19..63bd5b2 100644
--- a/nom-derive-impl/src/gen/fieldless_enums.rs
+++ b/nom-derive-impl/src/gen/fieldless_enums.rs
@@ -161,6 +161,11 @@ impl GenFieldlessEnum {
             repr_parser
         };
 
+        // no attribute changes how a variant is parsed, but unknown or misplaced ones must be reported
+        for variant in &data_enum.variants {
+            meta::parse_nom_attribute(&variant.attrs)?;
+        }
+
         let variants_code: Vec<_> = data_enum
             .variants
             .iter()
-- 
2.43.0


From 81c58db68fb60537f38ee94e711d56e376afa2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:34 +0000
Subject: [PATCH 19/29] fix: arrays of items that can be empty failed at the
 end of input

---
 src/traits.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/traits.rs b/src/traits.rs
index 7f11a85..375b1cf 100644
--- a/src/traits.rs
+++ b/src/traits.rs
@@ -26,7 +26,7 @@ use nom::error::{make_error, ErrorKind, FromExternalError};
 use nom::multi::fill;
 
 #[cfg(feature = "alloc")]
-use nom::multi::{many0, many_m_n};
+use nom::multi::{count, many0};
 
 pub trait InputSlice: Input<Item = u8> {}
 impl InputSlice for &[u8] {}
@@ -258,7 +258,7 @@ where
     E: ParseError<I>,
     F: Parser<I, Output = T, Error = E>,
 {
-    let (rem, v) = many_m_n(N, N, complete(f)).parse(i.clone())?;
+    let (rem, v) = count(complete(f), N).parse(i.clone())?;
     // conversion can't fail: there are exactly N items
     match <[T; N]>::try_from(v) {
         Ok(a) => Ok((rem, a)),
-- 
2.43.0


From 2e3c15b02d4adc76d19b343a097cddd4311d38d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:45 +0000
Subject: [PATCH 20/29] fix: Ignore on an array of options, vectors or markers
 did not compile

---
 nom-derive-impl/src/structs.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nom-derive-impl/src/structs.rs b/nom-derive-impl/src/structs.rs
index eaa5f69..af08979 100644
--- a/nom-derive-impl/src/structs.rs
+++ b/nom-derive-impl/src/structs.rs
@@ -121,6 +121,8 @@ fn get_type_default(ty: &Type) -> Result<ParserExpr> {
         //     "0".to_string()
         // }
         // "f32" | "f64" => "0.0".to_string(),
+        // the first ident is the one of the items, for an array
+        _ if matches!(ty, Type::Array(_)) => quote! { <#ty>::default() },
         "Option" => quote! { None },
         "PhantomData" => quote! { PhantomData },
         "Vec" => quote! { Vec::new() },
-- 
2.43.0


From e98408b3f910a353cbe0d93ddd6d3a1b6793719d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:10 +0000
Subject: [PATCH 21/29] fix: derive panicked on lifetime parameters with bounds

---
 nom-derive-impl/src/gen/generator.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nom-derive-impl/src/gen/generator.rs b/nom-derive-impl/src/gen/generator.rs
index 8adb998..536286d 100644
--- a/nom-derive-impl/src/gen/generator.rs
+++ b/nom-derive-impl/src/gen/generator.rs
@@ -154,7 +154,8 @@ pub(crate) trait Generator {
         } else {
             parse_quote!(#where_clause)
         };
-        let lfts: Vec<_> = orig_generics.lifetimes().collect();
+        // only the lifetimes: they may have bounds
+        let lfts: Vec<_> = orig_generics.lifetimes().map(|l| &l.lifetime).collect();
         if !lfts.is_empty() {
             // input slice must outlive all lifetimes from Self
             let wh: WherePredicate = parse_quote! { #lft: #(#lfts)+* };
-- 
2.43.0


From 53d0002027c09a10bc40f21a078fa5fb36b6e800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:20 +0000
Subject: [PATCH 22/29] fix: types given by a macro were rejected

---
 nom-derive-impl/src/structs.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/nom-derive-impl/src/structs.rs b/nom-derive-impl/src/structs.rs
index af08979..c9b1673 100644
--- a/nom-derive-impl/src/structs.rs
+++ b/nom-derive-impl/src/structs.rs
@@ -65,7 +65,16 @@ fn get_type_parser(ty: &Type, meta_list: &[MetaAttr], config: &Config) -> Result
     }
 }
 
+/// The type itself, when given by a macro (`$t:ty`) and so wrapped in an invisible group
+fn ungroup(mut ty: &Type) -> &Type {
+    while let Type::Group(group) = ty {
+        ty = &group.elem;
+    }
+    ty
+}
+
 fn get_item_subtype_parser(ty: &Type, expected: &str, attr: &str) -> Result<TokenStream> {
+    let ty = ungroup(ty);
     if let Type::Path(typepath) = ty {
         let path = &typepath.path;
         if path.segments.len() != 1 {
@@ -93,7 +102,7 @@ fn get_item_subtype_parser(ty: &Type, expected: &str, attr: &str) -> Result<Toke
 }
 
 pub(crate) fn get_type_first_ident(ty: &Type) -> Result<String> {
-    match ty {
+    match ungroup(ty) {
         Type::Path(typepath) => {
             let path = &typepath.path;
             if path.segments.len() != 1 {
@@ -122,7 +131,7 @@ fn get_type_default(ty: &Type) -> Result<ParserExpr> {
         // }
         // "f32" | "f64" => "0.0".to_string(),
         // the first ident is the one of the items, for an array
-        _ if matches!(ty, Type::Array(_)) => quote! { <#ty>::default() },
+        _ if matches!(ungroup(ty), Type::Array(_)) => quote! { <#ty>::default() },
         "Option" => quote! { None },
         "PhantomData" => quote! { PhantomData },
         "Vec" => quote! { Vec::new() },
-- 
2.43.0


From 716957b373ac95bf71ba45b2e63fa4434a632a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:20 +0000
Subject: [PATCH 23/29] fix: Align, Skip, Move, ErrorIf did not compile with an
 argument given by a macro

---
 nom-derive-impl/src/structs.rs | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/nom-derive-impl/src/structs.rs b/nom-derive-impl/src/structs.rs
index c9b1673..dedfbfc 100644
--- a/nom-derive-impl/src/structs.rs
+++ b/nom-derive-impl/src/structs.rs
@@ -292,9 +292,16 @@ fn get_field_parser(field: &Field, meta_list: &[MetaAttr], config: &Config) -> R
     )
 }
 
+/// Identifier of an input, located at `span` for error messages
+///
+/// `span` can be one of a token given to a macro (`$e:expr`), where the input is not visible
+fn input_ident(name: &str, span: Span) -> Ident {
+    Ident::new(name, Span::call_site().located_at(span))
+}
+
 fn quote_align(align: &TokenStream, config: &Config) -> TokenStream {
-    let input = syn::Ident::new(config.input_name(), align.span());
-    let orig_input = syn::Ident::new(config.orig_input_name(), align.span());
+    let input = input_ident(config.input_name(), align.span());
+    let orig_input = input_ident(config.orig_input_name(), align.span());
     quote! {
         let (#input, _) = {
             let align = (#align) as usize;
@@ -307,8 +314,8 @@ fn quote_align(align: &TokenStream, config: &Config) -> TokenStream {
 
 // like quote_skip, but offset is an isize
 fn quote_move(offset: &TokenStream, config: &Config) -> TokenStream {
-    let input = syn::Ident::new(config.input_name(), offset.span());
-    let orig_input = syn::Ident::new(config.orig_input_name(), offset.span());
+    let input = input_ident(config.input_name(), offset.span());
+    let orig_input = input_ident(config.orig_input_name(), offset.span());
     quote! {
         let #input = {
             let offset = (#offset) as isize;
@@ -333,8 +340,8 @@ fn quote_move(offset: &TokenStream, config: &Config) -> TokenStream {
 
 // like quote_move, with absolute value as offset
 fn quote_move_abs(offset: &TokenStream, config: &Config) -> TokenStream {
-    let input = syn::Ident::new(config.input_name(), offset.span());
-    let orig_input = syn::Ident::new(config.orig_input_name(), offset.span());
+    let input = input_ident(config.input_name(), offset.span());
+    let orig_input = input_ident(config.orig_input_name(), offset.span());
     quote! {
         let #input = {
             let offset = (#offset) as usize;
@@ -347,7 +354,7 @@ fn quote_move_abs(offset: &TokenStream, config: &Config) -> TokenStream {
 }
 
 fn quote_skip(skip: &TokenStream, config: &Config) -> TokenStream {
-    let input = syn::Ident::new(config.input_name(), skip.span());
+    let input = input_ident(config.input_name(), skip.span());
     quote! {
         let (#input, _) = {
             let skip = (#skip) as usize;
@@ -357,7 +364,7 @@ fn quote_skip(skip: &TokenStream, config: &Config) -> TokenStream {
 }
 
 fn quote_error_if(cond: &TokenStream, config: &Config) -> TokenStream {
-    let input = syn::Ident::new(config.input_name(), cond.span());
+    let input = input_ident(config.input_name(), cond.span());
     quote! {
         if #cond {
             return Err(nom::Err::Error(nom::error::make_error(#input, nom::error::ErrorKind::Verify)));
@@ -415,7 +422,7 @@ pub(crate) fn get_pre_post_exec(
                 tk_pre.extend(qq);
             }
             MetaAttrType::Exact => {
-                let input = syn::Ident::new(config.input_name(), m.span());
+                let input = input_ident(config.input_name(), m.span());
                 let cond = quote! { !#input.is_empty() };
                 let qq = quote_error_if(&cond, config);
                 tk_post.extend(qq);
-- 
2.43.0


From a14ea669d9c859ae9a74219318c2a9e052acc97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:07 +0000
Subject: [PATCH 24/29] fix: code derived with a type named Parser did not
 compile

---
 nom-derive-impl/src/gen/enums.rs           | 2 +-
 nom-derive-impl/src/gen/fieldless_enums.rs | 2 +-
 nom-derive-impl/src/gen/structs.rs         | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/nom-derive-impl/src/gen/enums.rs b/nom-derive-impl/src/gen/enums.rs
index dcedd51..2f411ba 100644
--- a/nom-derive-impl/src/gen/enums.rs
+++ b/nom-derive-impl/src/gen/enums.rs
@@ -81,7 +81,7 @@ impl Generator for GenEnum {
             quote! { _ => Err(nom::Err::Error(nom::error_position!(#input, nom::error::ErrorKind::Switch))) }
         };
         let tokens = quote! {
-            use nom::Parser;
+            use nom::Parser as _;
             let #input = #orig_input;
             #tl_pre
             let (#input, enum_def) = match selector {
diff --git a/nom-derive-impl/src/gen/fieldless_enums.rs b/nom-derive-impl/src/gen/fieldless_enums.rs
index 63bd5b2..f459a12 100644
--- a/nom-derive-impl/src/gen/fieldless_enums.rs
+++ b/nom-derive-impl/src/gen/fieldless_enums.rs
@@ -73,7 +73,7 @@ impl Generator for GenFieldlessEnum {
         let parser = &self.repr_parser.with_endianness(endianness);
         // generate body
         let tokens = quote! {
-            use nom::Parser;
+            use nom::Parser as _;
             let #input = #orig_input;
             #tl_pre
             let (#input, selector) = #parser.parse(#input)?;
diff --git a/nom-derive-impl/src/gen/structs.rs b/nom-derive-impl/src/gen/structs.rs
index 94b5740..5db600c 100644
--- a/nom-derive-impl/src/gen/structs.rs
+++ b/nom-derive-impl/src/gen/structs.rs
@@ -103,7 +103,7 @@ impl Generator for GenStruct {
         };
 
         let fn_body = quote! {
-            use nom::Parser;
+            use nom::Parser as _;
             let #input = #orig_input;
             #tl_pre
             #(#pre let (#input, #idents) = #parser_tokens (#input) ?; #post)*
-- 
2.43.0


From 96eb41ca5877229d598a3342c0994f3ee8b753e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:52 +0000
Subject: [PATCH 25/29] fix: type parameters with GenericErrors and a selector
 or extra arguments did not compile

---
 nom-derive-impl/src/gen/generator.rs | 44 +++++++++++++++++++++-------
 1 file changed, 33 insertions(+), 11 deletions(-)

diff --git a/nom-derive-impl/src/gen/generator.rs b/nom-derive-impl/src/gen/generator.rs
index 536286d..04e6778 100644
--- a/nom-derive-impl/src/gen/generator.rs
+++ b/nom-derive-impl/src/gen/generator.rs
@@ -35,7 +35,7 @@ pub(crate) trait Generator {
             ParserEndianness::BigEndian,
             self.extra_args(),
             self.config(),
-            self.impl_where_predicates(),
+            &self.fn_where_predicates(),
         );
         if self.has_impl_for_endianness(ParserEndianness::BigEndian) {
             let fn_body = self.gen_fn_body(ParserEndianness::BigEndian)?;
@@ -63,7 +63,7 @@ pub(crate) trait Generator {
             ParserEndianness::LittleEndian,
             self.extra_args(),
             self.config(),
-            self.impl_where_predicates(),
+            &self.fn_where_predicates(),
         );
         if self.has_impl_for_endianness(ParserEndianness::LittleEndian) {
             let fn_body = self.gen_fn_body(ParserEndianness::LittleEndian)?;
@@ -103,7 +103,7 @@ pub(crate) trait Generator {
         };
         let tokens_parse = {
             let (fn_generics, where_clause) = if self.config().generic_errors && special_case {
-                let predicates = self.impl_where_predicates().into_iter().flatten();
+                let predicates = self.fn_where_predicates();
                 (
                     quote!(<#ident_e>),
                     quote! {where
@@ -125,6 +125,23 @@ pub(crate) trait Generator {
         Ok(tokens_parse)
     }
 
+    /// Predicates to add to the functions when the error type is one of their parameters
+    fn fn_where_predicates(&self) -> Vec<WherePredicate> {
+        let lft = Lifetime::new(self.config().lifetime_name(), Span::call_site());
+        let ident_e = Ident::new(self.config().error_name(), Span::call_site());
+        // make sure generic parameters inplement Parse
+        let mut predicates: Vec<WherePredicate> = self
+            .orig_generics()
+            .type_params()
+            .map(|param| {
+                let param_ident = &param.ident;
+                parse_quote! { #param_ident: Parse<&#lft [u8], #ident_e> }
+            })
+            .collect();
+        predicates.extend(self.impl_where_predicates().into_iter().flatten().cloned());
+        predicates
+    }
+
     fn gen_impl(&self) -> Result<TokenStream> {
         let name = self.name();
         let lft = Lifetime::new(self.config().lifetime_name(), Span::call_site());
@@ -162,16 +179,21 @@ pub(crate) trait Generator {
             gen_wh.predicates.push(wh);
         };
 
+        let special_case = self.extra_args().is_some() || self.config().selector_type().is_some();
+
         // make sure generic parameters inplement Parse
-        for param in orig_generics.type_params() {
-            let param_ident = &param.ident;
-            let dep: WherePredicate = parse_quote! { #param_ident: Parse< &#lft [u8] #maybe_err > };
-            gen_wh.predicates.push(dep);
+        // (see `fn_where_predicates` when the error type is a parameter of the functions)
+        if !(self.config().generic_errors && special_case) {
+            for param in orig_generics.type_params() {
+                let param_ident = &param.ident;
+                let dep: WherePredicate =
+                    parse_quote! { #param_ident: Parse< &#lft [u8] #maybe_err > };
+                gen_wh.predicates.push(dep);
+            }
         }
 
         // Global impl
-        let impl_tokens = if self.extra_args().is_some() || self.config().selector_type().is_some()
-        {
+        let impl_tokens = if special_case {
             // There are extra arguments, so we can't generate the Parse impl
             // Generate an equivalent implementation
             if self.config().generic_errors {
@@ -280,7 +302,7 @@ pub(crate) fn gen_fn_decl(
     endianness: ParserEndianness,
     extra_args: Option<&TokenStream>,
     config: &Config,
-    extra_predicates: Option<&Vec<WherePredicate>>,
+    extra_predicates: &[WherePredicate],
 ) -> TokenStream {
     let parse = match endianness {
         ParserEndianness::BigEndian => "parse_be",
@@ -318,7 +340,7 @@ pub(crate) fn gen_fn_decl(
                 #ident_e: nom_derive::nom::error::ParseError<&#lft [u8]>
             };
             fn_where_clause.predicates.push(dep);
-            for wh in extra_predicates.into_iter().flatten() {
+            for wh in extra_predicates {
                 fn_where_clause.predicates.push(wh.clone());
             }
             // add error type to function generics
-- 
2.43.0


From 672c222248eafdd458193816b1f615cfb78f3350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:29 +0000
Subject: [PATCH 26/29] fix: closures, casts and references given to Parse and
 Tag did not compile

---
 nom-derive-impl/src/parsertree.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nom-derive-impl/src/parsertree.rs b/nom-derive-impl/src/parsertree.rs
index 6c56758..0065f56 100644
--- a/nom-derive-impl/src/parsertree.rs
+++ b/nom-derive-impl/src/parsertree.rs
@@ -181,9 +181,11 @@ impl ToTokens for ParserExpr {
                     { |__i__| Ok((__i__, PhantomData)) }
                 }
             }
-            ParserExpr::Raw(s) => s.to_token_stream(),
+            ParserExpr::Raw(s) => {
+                quote! { (#s) }
+            }
             ParserExpr::Tag(s) => {
-                quote! { nom::bytes::streaming::tag(&#s[..]) }
+                quote! { nom::bytes::streaming::tag(&(#s)[..]) }
             }
             ParserExpr::Take(s) => {
                 quote! { nom::bytes::streaming::take((#s) as usize) }
-- 
2.43.0


From aea0997f91faf763f3a536f18b0d5d5e5716a0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:29 +0000
Subject: [PATCH 27/29] fix: struct literals in ErrorIf did not compile

---
 nom-derive-impl/src/structs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nom-derive-impl/src/structs.rs b/nom-derive-impl/src/structs.rs
index dedfbfc..5f42786 100644
--- a/nom-derive-impl/src/structs.rs
+++ b/nom-derive-impl/src/structs.rs
@@ -366,7 +366,7 @@ fn quote_skip(skip: &TokenStream, config: &Config) -> TokenStream {
 fn quote_error_if(cond: &TokenStream, config: &Config) -> TokenStream {
     let input = input_ident(config.input_name(), cond.span());
     quote! {
-        if #cond {
+        if { #cond } {
             return Err(nom::Err::Error(nom::error::make_error(#input, nom::error::ErrorKind::Verify)));
         }
     }
-- 
2.43.0


From 447a8ec52afeb21cad0e887534d18d72ab11f81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:29 +0000
Subject: [PATCH 28/29] fix: String fields with GenericErrors and SetEndian did
 not compile

---
 nom-derive-impl/src/parsertree.rs | 17 ++++++++++++++---
 nom-derive-impl/src/structs.rs    | 13 +------------
 2 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/nom-derive-impl/src/parsertree.rs b/nom-derive-impl/src/parsertree.rs
index 0065f56..f236cd8 100644
--- a/nom-derive-impl/src/parsertree.rs
+++ b/nom-derive-impl/src/parsertree.rs
@@ -47,6 +47,7 @@ pub enum ParserExpr {
     CallParse(TypeItem),
     CallParseBE(TypeItem),
     CallParseLE(TypeItem),
+    CallParseSetEndian(TypeItem),
     Complete(Box<ParserExpr>),
     Cond(Box<ParserExpr>, TokenStream),
     Count(Box<ParserExpr>, TokenStream),
@@ -106,9 +107,10 @@ impl ParserExpr {
 
     pub fn last_type(&self) -> Option<&TypeItem> {
         match self {
-            ParserExpr::CallParse(e) | ParserExpr::CallParseBE(e) | ParserExpr::CallParseLE(e) => {
-                Some(e)
-            }
+            ParserExpr::CallParse(e)
+            | ParserExpr::CallParseBE(e)
+            | ParserExpr::CallParseLE(e)
+            | ParserExpr::CallParseSetEndian(e) => Some(e),
             ParserExpr::Complete(expr)
             | ParserExpr::Cond(expr, _)
             | ParserExpr::Count(expr, _)
@@ -149,6 +151,15 @@ impl ToTokens for ParserExpr {
             ParserExpr::CallParseLE(s) => {
                 quote! { <#s>::parse_le }
             }
+            ParserExpr::CallParseSetEndian(s) => {
+                quote! {
+                    (if __endianness == nom::number::Endianness::Big {
+                        <#s>::parse_be
+                    } else {
+                        <#s>::parse_le
+                    })
+                }
+            }
             ParserExpr::Complete(expr) => {
                 quote! { nom::combinator::complete(#expr) }
             }
diff --git a/nom-derive-impl/src/structs.rs b/nom-derive-impl/src/structs.rs
index 5f42786..4e78ea2 100644
--- a/nom-derive-impl/src/structs.rs
+++ b/nom-derive-impl/src/structs.rs
@@ -49,18 +49,7 @@ fn get_type_parser(ty: &Type, meta_list: &[MetaAttr], config: &Config) -> Result
     match endian {
         ParserEndianness::BigEndian => Ok(ParserExpr::CallParseBE(TypeItem(ty.clone()))),
         ParserEndianness::LittleEndian => Ok(ParserExpr::CallParseLE(TypeItem(ty.clone()))),
-        ParserEndianness::SetEndian => {
-            let be = ParserExpr::CallParseBE(TypeItem(ty.clone()));
-            let le = ParserExpr::CallParseLE(TypeItem(ty.clone()));
-            let qq = quote! {
-                if __endianness == nom::number::Endianness::Big {
-                    #be
-                } else {
-                    #le
-                }
-            };
-            Ok(ParserExpr::Raw(qq))
-        }
+        ParserEndianness::SetEndian => Ok(ParserExpr::CallParseSetEndian(TypeItem(ty.clone()))),
         ParserEndianness::Unspecified => Ok(ParserExpr::CallParse(TypeItem(ty.clone()))),
     }
 }
-- 
2.43.0


From 5646fe9bf29b624d121f21ade3013026a253a123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:29 +0000
Subject: [PATCH 29/29] fix: attributes with an empty argument list were not
 reported by the derive

---
 nom-derive-impl/src/meta/attr.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nom-derive-impl/src/meta/attr.rs b/nom-derive-impl/src/meta/attr.rs
index 51a3c9a..8c2e79f 100644
--- a/nom-derive-impl/src/meta/attr.rs
+++ b/nom-derive-impl/src/meta/attr.rs
@@ -271,6 +271,10 @@ where
             meta.span(),
             "Unexpected type for nom attribute content (!LitStr)",
         )),
+        Meta::List(meta_list) if meta_list.tokens.is_empty() => Err(syn::Error::new(
+            meta.span(),
+            "Missing argument for nom attribute",
+        )),
         Meta::List(meta_list) => {
             // let lit_str: LitStr = meta_list.parse_args()?;
 
-- 
2.43.0

