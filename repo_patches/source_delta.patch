From 0d83ccdad13b24f16119209de14da1ad6def8493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:16 +0000
Subject: [PATCH 01/16] fix: accept `name =-1`: `=` joined to the value's first
 punctuation is still `name = value`

---
 structmeta/src/helpers.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/structmeta/src/helpers.rs b/structmeta/src/helpers.rs
index 57c9e2b..f213d53 100644
--- a/structmeta/src/helpers.rs
+++ b/structmeta/src/helpers.rs
@@ -1,4 +1,4 @@
-use proc_macro2::{Ident, Spacing, Span, TokenStream};
+use proc_macro2::{Ident, Span, TokenStream};
 use syn::{
     MacroDelimiter, Result, Token, braced, bracketed,
     ext::IdentExt,
@@ -104,11 +104,7 @@ pub fn try_parse_name(
     Ok(None)
 }
 fn peek_eq_op(input: ParseStream) -> bool {
-    if let Some((p, _)) = input.cursor().punct() {
-        p.as_char() == '=' && p.spacing() == Spacing::Alone
-    } else {
-        false
-    }
+    input.peek(Token![=]) && !input.peek(Token![==]) && !input.peek(Token![=>])
 }
 fn name_index_of(
     names: &[&str],
-- 
2.43.0


From 6dc9f60fab50f24a3f437af33363f66782ef2f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:29 +0000
Subject: [PATCH 02/16] fix: a tie between more distant names does not hide the
 nearest parameter name

---
 structmeta/src/helpers.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/structmeta/src/helpers.rs b/structmeta/src/helpers.rs
index f213d53..6f2f496 100644
--- a/structmeta/src/helpers.rs
+++ b/structmeta/src/helpers.rs
@@ -161,6 +161,7 @@ fn find_similar_name<'a>(names: &[&[&'a str]], ident: &Ident) -> Option<&'a str>
     let mut c1 = Vec::new();
     let mut r = None;
     let mut r_d = usize::MAX;
+    let mut is_tie = false;
     for &names in names {
         for &name in names {
             c1.clear();
@@ -169,14 +170,14 @@ fn find_similar_name<'a>(names: &[&[&'a str]], ident: &Ident) -> Option<&'a str>
                 if d < r_d {
                     r_d = d;
                     r = Some(name);
-                }
-                if d == r_d && Some(name) != r {
-                    return None;
+                    is_tie = false;
+                } else if d == r_d && Some(name) != r {
+                    is_tie = true;
                 }
             }
         }
     }
-    r
+    if is_tie { None } else { r }
 }
 
 fn distance(s0: &[char], s1: &[char]) -> Option<usize> {
-- 
2.43.0


From 211ca667d338cc81719021b44c13be64ab5d4f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:54 +0000
Subject: [PATCH 03/16] fix: recognise Option, Vec, bool, ... in types passed
 through macro_rules fragments

---
 structmeta-derive/src/syn_utils.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/structmeta-derive/src/syn_utils.rs b/structmeta-derive/src/syn_utils.rs
index 1dd939a..2c6f246 100644
--- a/structmeta-derive/src/syn_utils.rs
+++ b/structmeta-derive/src/syn_utils.rs
@@ -71,6 +71,11 @@ pub fn is_type(ty: &Type, ns: &[&[&str]], name: &str) -> bool {
     }
 }
 pub fn get_arguments_of<'a>(ty: &'a Type, ns: &[&[&str]], name: &str) -> Option<&'a PathArguments> {
+    // A type passed through a `macro_rules!` fragment is wrapped in a group without delimiters.
+    let mut ty = ty;
+    while let Type::Group(group) = ty {
+        ty = &group.elem;
+    }
     if let Type::Path(ty) = ty {
         if ty.qself.is_some() {
             return None;
-- 
2.43.0


From d4cefbbf2650b1235ed59e99375c26c13ed193bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:00 +0000
Subject: [PATCH 04/16] fix: refer to NameArgs by absolute path in generated
 code

---
 structmeta-derive/src/struct_meta.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structmeta-derive/src/struct_meta.rs b/structmeta-derive/src/struct_meta.rs
index f7bfffd..0a90b6d 100644
--- a/structmeta-derive/src/struct_meta.rs
+++ b/structmeta-derive/src/struct_meta.rs
@@ -744,7 +744,7 @@ impl<'a> NamedParamType<'a> {
                         args
                     }
                 };
-                quote!(structmeta::NameArgs { name_span : span, args: #args })
+                quote!(::structmeta::NameArgs { name_span : span, args: #args })
             }
         }
     }
-- 
2.43.0


From 3f3b60808eeda456f3d0aa7db08b15f8b8b460d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:26 +0000
Subject: [PATCH 05/16] fix: do not rely on a `syn` in scope in code generated
 by derive(Parse)

---
 structmeta-derive/src/parse.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/structmeta-derive/src/parse.rs b/structmeta-derive/src/parse.rs
index c540311..52e0790 100644
--- a/structmeta-derive/src/parse.rs
+++ b/structmeta-derive/src/parse.rs
@@ -46,7 +46,7 @@ fn code_from_struct(data: &DataStruct) -> Result<TokenStream> {
 fn code_from_enum(self_ident: &Ident, data: &DataEnum) -> Result<TokenStream> {
     let mut ts = TokenStream::new();
     ts.extend(quote!(
-        use syn::ext::*;
+        use ::structmeta::helpers::exports::syn::ext::IdentExt as _;
     ));
     let mut input_is_forked = false;
     let mut input_is_moved = false;
@@ -268,7 +268,7 @@ fn code_from_fields(
         Fields::Unit => quote!(),
     };
     Ok(quote! {
-        use syn::ext::*;
+        use ::structmeta::helpers::exports::syn::ext::IdentExt as _;
         #ts
         Ok(#self_path #init)
     })
-- 
2.43.0


From e999f2605e3404899f5322abdb1076bad6bdcbb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:56 +0000
Subject: [PATCH 06/16] fix: tokens left over inside a group fail the variant
 that left them, so the next one is tried

---
 structmeta-derive/src/parse.rs       | 9 ++++++++-
 structmeta-derive/src/struct_meta.rs | 6 +++++-
 structmeta/src/helpers.rs            | 8 ++++++++
 3 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/structmeta-derive/src/parse.rs b/structmeta-derive/src/parse.rs
index 52e0790..9229c05 100644
--- a/structmeta-derive/src/parse.rs
+++ b/structmeta-derive/src/parse.rs
@@ -121,6 +121,10 @@ struct Scope {
     input: Ident,
     close: Option<char>,
 }
+fn to_check_end(scope: Scope) -> TokenStream {
+    let input = scope.input;
+    quote!(::structmeta::helpers::check_end(#input)?;)
+}
 struct PeekItem {
     span: Span,
     arg: TokenStream,
@@ -189,7 +193,7 @@ fn code_from_fields(
                                 if scopes.last().unwrap().close != Some(c) {
                                     bail!(token.span(), "mismatched closing delimiter `{}`.", c);
                                 }
-                                scopes.pop();
+                                ts.extend(to_check_end(scopes.pop().unwrap()));
                                 if scopes.len() == 1 {
                                     is_root = true;
                                 }
@@ -262,6 +266,9 @@ fn code_from_fields(
             inits.push(quote!(#var_ident));
         }
     }
+    for scope in scopes.drain(1..).rev() {
+        ts.extend(to_check_end(scope));
+    }
     let init = match &fields {
         Fields::Named(_) => quote!({#(#inits,)*}),
         Fields::Unnamed(_) => quote!((#(#inits,)*)),
diff --git a/structmeta-derive/src/struct_meta.rs b/structmeta-derive/src/struct_meta.rs
index 0a90b6d..b0103e5 100644
--- a/structmeta-derive/src/struct_meta.rs
+++ b/structmeta-derive/src/struct_meta.rs
@@ -757,7 +757,11 @@ fn build_parse_expr_name_args(ty: &Type, is_vec: bool, span: Span) -> TokenStrea
     let value = if is_vec {
         quote_spanned!(span=> ::structmeta::helpers::exports::syn::punctuated::Punctuated::<#ty, ::structmeta::helpers::exports::syn::Token![,]>::parse_terminated(&content)?.into_iter().collect())
     } else {
-        quote_spanned!(span=> content.parse::<#ty>()?)
+        quote_spanned!(span=> {
+            let value = content.parse::<#ty>()?;
+            ::structmeta::helpers::check_end(&content)?;
+            value
+        })
     };
     quote! {
         {
diff --git a/structmeta/src/helpers.rs b/structmeta/src/helpers.rs
index 6f2f496..22783cd 100644
--- a/structmeta/src/helpers.rs
+++ b/structmeta/src/helpers.rs
@@ -247,6 +247,14 @@ pub fn parse_macro_delimiter<'a>(
     Ok((token, content))
 }
 
+pub fn check_end(input: ParseStream) -> Result<()> {
+    if input.is_empty() {
+        Ok(())
+    } else {
+        Err(input.error("unexpected token"))
+    }
+}
+
 #[doc(hidden)]
 #[macro_export]
 macro_rules! helpers_parse_macro_delimiter {
-- 
2.43.0


From 71901fe81ac826227ff03c2c7281a96fc6a51032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:20 +0000
Subject: [PATCH 07/16] fix: derive(Parse) on generic enums: closures instead
 of nested functions, which cannot use outer generics

---
 structmeta-derive/src/parse.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/structmeta-derive/src/parse.rs b/structmeta-derive/src/parse.rs
index 9229c05..b5bcb23 100644
--- a/structmeta-derive/src/parse.rs
+++ b/structmeta-derive/src/parse.rs
@@ -20,7 +20,7 @@ pub fn derive_parse(input: DeriveInput) -> Result<TokenStream> {
 
     let ts = match &input.data {
         Data::Struct(data) => code_from_struct(data)?,
-        Data::Enum(data) => code_from_enum(&input.ident, data)?,
+        Data::Enum(data) => code_from_enum(data)?,
         Data::Union(_) => {
             bail!(Span::call_site(), "Not supported for union.")
         }
@@ -43,7 +43,7 @@ pub fn derive_parse(input: DeriveInput) -> Result<TokenStream> {
 fn code_from_struct(data: &DataStruct) -> Result<TokenStream> {
     code_from_fields(quote!(Self), &data.fields, None)
 }
-fn code_from_enum(self_ident: &Ident, data: &DataEnum) -> Result<TokenStream> {
+fn code_from_enum(data: &DataEnum) -> Result<TokenStream> {
     let mut ts = TokenStream::new();
     ts.extend(quote!(
         use ::structmeta::helpers::exports::syn::ext::IdentExt as _;
@@ -57,15 +57,15 @@ fn code_from_enum(self_ident: &Ident, data: &DataEnum) -> Result<TokenStream> {
         let fn_ident = format_ident!("_parse_{}", &variant.ident);
         let mut peeks = Vec::new();
         let fn_expr = code_from_fields(
-            quote!(#self_ident::#variant_ident),
+            quote!(Self::#variant_ident),
             &variant.fields,
             Some(&mut peeks),
         )?;
         let fn_def = quote! {
             #[allow(non_snake_case)]
-            fn #fn_ident(input: ::structmeta::helpers::exports::syn::parse::ParseStream<'_>) -> ::structmeta::helpers::exports::syn::Result<#self_ident> {
+            let #fn_ident = |input: ::structmeta::helpers::exports::syn::parse::ParseStream<'_>| -> ::structmeta::helpers::exports::syn::Result<Self> {
                 #fn_expr
-            }
+            };
         };
         let code = if peeks.is_empty() {
             if is_last && !input_is_forked {
@@ -90,7 +90,7 @@ fn code_from_enum(self_ident: &Ident, data: &DataEnum) -> Result<TokenStream> {
             }
             quote! {
                 if #(#preds )&&* {
-                    return #fn_ident(&input);
+                    return #fn_ident(input);
                 }
             }
         };
-- 
2.43.0


From 988428db9ad775c34414f5bc628ac73826933c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:25 +0000
Subject: [PATCH 08/16] fix: an unnamed Option<Vec<T>> field is an error, not a
 macro panic

---
 structmeta-derive/src/struct_meta.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/structmeta-derive/src/struct_meta.rs b/structmeta-derive/src/struct_meta.rs
index b0103e5..c57fbd9 100644
--- a/structmeta-derive/src/struct_meta.rs
+++ b/structmeta-derive/src/struct_meta.rs
@@ -315,6 +315,12 @@ impl<'a> Param<'a> {
                 is_option,
             })
         } else if let NamedParamType::Value { ty, is_vec } = ty {
+            if is_option && is_vec {
+                bail!(
+                    info.span(),
+                    "this field type cannot be used as unnamed parameter."
+                )
+            }
             Param::Unnamed(UnnamedParam {
                 info,
                 ty,
-- 
2.43.0


From c247092a1b3bf44095b7955a6b0e7a7d271b1b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:40 +0000
Subject: [PATCH 09/16] fix: a closing mark without an opening one is an error
 in derive(ToTokens), not a macro panic

---
 structmeta-derive/src/to_tokens.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/structmeta-derive/src/to_tokens.rs b/structmeta-derive/src/to_tokens.rs
index 483bfa8..20f962f 100644
--- a/structmeta-derive/src/to_tokens.rs
+++ b/structmeta-derive/src/to_tokens.rs
@@ -186,9 +186,10 @@ fn code_from_fields(fields: &Fields) -> Result<TokenStream> {
                             field_to_tokens = false;
                         } else if let Some(delimiter) = delimiter_from_close_char(c) {
                             let scope = scopes.pop().unwrap();
-                            scopes
-                                .last_mut()
-                                .unwrap()
+                            let Some(outer) = scopes.last_mut() else {
+                                bail!(token.span(), "mismatched closing delimiter `{}`.", c);
+                            };
+                            outer
                                 .ts
                                 .extend(scope.into_code(Some(delimiter), token.span())?);
                         } else {
-- 
2.43.0


From 73704b2b1ec99f833cfc797a41ede1bed16a9acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:46 +0000
Subject: [PATCH 10/16] fix: derive(ToTokens) on an enum without variants

---
 structmeta-derive/src/to_tokens.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/structmeta-derive/src/to_tokens.rs b/structmeta-derive/src/to_tokens.rs
index 20f962f..467a9c1 100644
--- a/structmeta-derive/src/to_tokens.rs
+++ b/structmeta-derive/src/to_tokens.rs
@@ -46,6 +46,9 @@ fn code_from_struct(data: &DataStruct) -> Result<TokenStream> {
     Ok(ts)
 }
 fn code_from_enum(data: &DataEnum) -> Result<TokenStream> {
+    if data.variants.is_empty() {
+        return Ok(quote!(match *self {}));
+    }
     let mut arms = Vec::new();
     for variant in &data.variants {
         let ident = &variant.ident;
-- 
2.43.0


From 3aa3749702f96c86e50cf2b61c3f11ac62369dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:44 +0000
Subject: [PATCH 11/16] fix: generated local variables are visible when fields
 come from a macro argument

---
 structmeta-derive/src/struct_meta.rs | 23 ++++++++++++++---------
 structmeta-derive/src/syn_utils.rs   |  9 ++++++++-
 structmeta-derive/src/to_tokens.rs   |  6 ++++--
 3 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/structmeta-derive/src/struct_meta.rs b/structmeta-derive/src/struct_meta.rs
index c57fbd9..567fe6f 100644
--- a/structmeta-derive/src/struct_meta.rs
+++ b/structmeta-derive/src/struct_meta.rs
@@ -369,7 +369,8 @@ impl<'a> ParamInfo<'a> {
     fn build_let_parse(&self) -> TokenStream {
         let temp_ident = &self.temp_ident;
         let ty = &self.field.ty;
-        quote_spanned!(self.span()=> let #temp_ident = input.parse::<#ty>()?;)
+        let input = local_ident("input");
+        quote_spanned!(self.span()=> let #temp_ident = #input.parse::<#ty>()?;)
     }
 }
 
@@ -403,10 +404,11 @@ impl NamedParam<'_> {
         let span = self.info.field.span();
         let expr = self.ty.build_parse_expr(kind, span);
         let var = kind.to_helper_name_index_variant();
+        let name_span = local_ident("span");
         quote_spanned! { span=>
             ::structmeta::helpers::NameIndex::#var(Ok(#index)) => {
                 if #temp_ident.is_some() {
-                    return Err(::structmeta::helpers::exports::syn::Error::new(span, #msg));
+                    return Err(::structmeta::helpers::exports::syn::Error::new(#name_span, #msg));
                 }
                 #temp_ident = Some(#expr);
             }
@@ -446,10 +448,11 @@ impl RestParam<'_> {
         let span = self.info.field.span();
         let expr = self.ty.build_parse_expr(kind, span);
         let var = kind.to_helper_name_index_variant();
+        let name_span = local_ident("span");
         quote_spanned! { span=>
             ::structmeta::helpers::NameIndex::#var(Err(name)) => {
                 if #temp_ident.insert(name.to_string(), #expr).is_some() {
-                    return Err(::structmeta::helpers::exports::syn::Error::new(span, format!("parameter `{}` specified more than once", name)));
+                    return Err(::structmeta::helpers::exports::syn::Error::new(#name_span, format!("parameter `{}` specified more than once", name)));
                 }
             }
         }
@@ -757,22 +760,24 @@ impl<'a> NamedParamType<'a> {
 }
 
 fn build_parse_expr(ty: &Type, span: Span) -> TokenStream {
-    quote_spanned!(span=> input.parse::<#ty>()?)
+    let input = local_ident("input");
+    quote_spanned!(span=> #input.parse::<#ty>()?)
 }
 fn build_parse_expr_name_args(ty: &Type, is_vec: bool, span: Span) -> TokenStream {
+    let content = local_ident("content");
     let value = if is_vec {
-        quote_spanned!(span=> ::structmeta::helpers::exports::syn::punctuated::Punctuated::<#ty, ::structmeta::helpers::exports::syn::Token![,]>::parse_terminated(&content)?.into_iter().collect())
+        quote_spanned!(span=> ::structmeta::helpers::exports::syn::punctuated::Punctuated::<#ty, ::structmeta::helpers::exports::syn::Token![,]>::parse_terminated(&#content)?.into_iter().collect())
     } else {
         quote_spanned!(span=> {
-            let value = content.parse::<#ty>()?;
-            ::structmeta::helpers::check_end(&content)?;
+            let value = #content.parse::<#ty>()?;
+            ::structmeta::helpers::check_end(&#content)?;
             value
         })
     };
     quote! {
         {
-            let content;
-            ::structmeta::helpers::exports::syn::parenthesized!(content in input);
+            let #content;
+            ::structmeta::helpers::exports::syn::parenthesized!(#content in input);
             #value
         }
     }
diff --git a/structmeta-derive/src/syn_utils.rs b/structmeta-derive/src/syn_utils.rs
index 2c6f246..a86b339 100644
--- a/structmeta-derive/src/syn_utils.rs
+++ b/structmeta-derive/src/syn_utils.rs
@@ -1,4 +1,4 @@
-use proc_macro2::TokenStream;
+use proc_macro2::{Ident, Span, TokenStream};
 use quote::quote;
 use syn::{
     DeriveInput, Path, PathArguments, PathSegment, Result, Token, Type, WherePredicate,
@@ -25,6 +25,13 @@ pub fn into_macro_output(input: Result<TokenStream>) -> proc_macro::TokenStream
     .into()
 }
 
+/// A local variable of the generated code, for use in `quote_spanned!`.
+///
+/// If a field comes from a macro argument, a name resolved at the field does not see local variables.
+pub fn local_ident(name: &str) -> Ident {
+    Ident::new(name, Span::call_site())
+}
+
 pub fn impl_trait(
     input: &DeriveInput,
     trait_path: &Path,
diff --git a/structmeta-derive/src/to_tokens.rs b/structmeta-derive/src/to_tokens.rs
index 467a9c1..0a7de19 100644
--- a/structmeta-derive/src/to_tokens.rs
+++ b/structmeta-derive/src/to_tokens.rs
@@ -164,7 +164,8 @@ impl Scope<'_> {
                 let ty = s.token_type_ident();
                 quote_spanned!(span=> ::structmeta::helpers::exports::syn::token::#ty::surround)
             };
-            let code = quote_spanned!(span=> #func(#ident, tokens, |tokens| { #ts }););
+            let tokens = local_ident("tokens");
+            let code = quote_spanned!(span=> #func(#ident, #tokens, |#tokens| { #ts }););
             return Ok(code);
         }
         Ok(quote!())
@@ -207,7 +208,8 @@ fn code_from_fields(fields: &Fields) -> Result<TokenStream> {
             }
         }
         if field_to_tokens {
-            let code = quote_spanned!(field.span()=> ::structmeta::helpers::exports::quote::ToTokens::to_tokens(#ident, tokens););
+            let tokens = local_ident("tokens");
+            let code = quote_spanned!(field.span()=> ::structmeta::helpers::exports::quote::ToTokens::to_tokens(#ident, #tokens););
             scopes.last_mut().unwrap().ts.extend(code);
         }
     }
-- 
2.43.0


From bbf7a5b46420ee29a8d8be5ac285eee147f8a2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:35 +0000
Subject: [PATCH 12/16] fix: refer to Option, Result, format and unreachable by
 absolute path in generated code

---
 structmeta-derive/src/parse.rs       |  8 +++---
 structmeta-derive/src/struct_meta.rs | 38 ++++++++++++++--------------
 structmeta/src/helpers.rs            |  4 +--
 3 files changed, 25 insertions(+), 25 deletions(-)

diff --git a/structmeta-derive/src/parse.rs b/structmeta-derive/src/parse.rs
index b5bcb23..98c4550 100644
--- a/structmeta-derive/src/parse.rs
+++ b/structmeta-derive/src/parse.rs
@@ -77,9 +77,9 @@ fn code_from_enum(data: &DataEnum) -> Result<TokenStream> {
                 input_is_forked = true;
                 quote! {
                     let fork = input.fork();
-                    if let Ok(value) = #fn_ident(&fork) {
+                    if let ::std::result::Result::Ok(value) = #fn_ident(&fork) {
                         ::structmeta::helpers::exports::syn::parse::discouraged::Speculative::advance_to(input, &fork);
-                        return Ok(value);
+                        return ::std::result::Result::Ok(value);
                     }
                 }
             }
@@ -101,7 +101,7 @@ fn code_from_enum(data: &DataEnum) -> Result<TokenStream> {
     }
     if !input_is_moved {
         ts.extend(quote! {
-            Err(input.error("parse failed."))
+            ::std::result::Result::Err(input.error("parse failed."))
         });
     }
     Ok(ts)
@@ -277,7 +277,7 @@ fn code_from_fields(
     Ok(quote! {
         use ::structmeta::helpers::exports::syn::ext::IdentExt as _;
         #ts
-        Ok(#self_path #init)
+        ::std::result::Result::Ok(#self_path #init)
     })
 }
 
diff --git a/structmeta-derive/src/struct_meta.rs b/structmeta-derive/src/struct_meta.rs
index 567fe6f..cf6723c 100644
--- a/structmeta-derive/src/struct_meta.rs
+++ b/structmeta-derive/src/struct_meta.rs
@@ -115,7 +115,7 @@ impl<'a> Params<'a> {
                 );
                 ts.extend(quote! {
                     if input.is_empty () {
-                        return Err(::structmeta::helpers::exports::syn::Error::new(input.span(), #msg));
+                        return ::std::result::Result::Err(::structmeta::helpers::exports::syn::Error::new(input.span(), #msg));
                     }
                     input.parse::<::structmeta::helpers::exports::syn::Token![,]>()?;
                 });
@@ -137,7 +137,7 @@ impl<'a> Params<'a> {
             p.build_ctor_arg(false, &mut ctor_args);
         } else {
             arms_unnamed.push(quote! {
-                _ => { return Err(input.error("too many unnamed parameter")); }
+                _ => { return ::std::result::Result::Err(input.error("too many unnamed parameter")); }
             });
         }
         for p in self.named.values() {
@@ -193,7 +193,7 @@ impl<'a> Params<'a> {
         {
             quote! {
                 if named_used {
-                    return Err(input.error("cannot use unnamed parameter after named parameter"));
+                    return ::std::result::Result::Err(input.error("cannot use unnamed parameter after named parameter"));
                 }
                 match unnamed_index {
                     #(#arms_unnamed)*
@@ -202,7 +202,7 @@ impl<'a> Params<'a> {
             }
         } else {
             quote! {
-                return Err(input.error("cannot use unnamed parameter"));
+                return ::std::result::Result::Err(input.error("cannot use unnamed parameter"));
             }
         };
         let name_filter = self.name_filter.to_code();
@@ -219,7 +219,7 @@ impl<'a> Params<'a> {
                     }
                 }
                 is_next = true;
-                if let Some((index, span)) = ::structmeta::helpers::try_parse_name(input,
+                if let ::std::option::Option::Some((index, span)) = ::structmeta::helpers::try_parse_name(input,
                     &[#(#flag_names,)*],
                     #flag_rest,
                     &[#(#name_value_names,)*],
@@ -232,14 +232,14 @@ impl<'a> Params<'a> {
                     named_used = true;
                     match index {
                         #(#arms_named)*
-                        _ => unreachable!()
+                        _ => ::std::unreachable!()
                     }
 
                 } else {
                     #ts_parse_unnamed
                 }
             }
-            Ok(Self #ctor_args)
+            ::std::result::Result::Ok(Self #ctor_args)
         });
 
         ts
@@ -359,7 +359,7 @@ impl<'a> ParamInfo<'a> {
     fn build_let_none(&self) -> TokenStream {
         let temp_ident = &self.temp_ident;
         let ty = &self.ty;
-        quote!(let mut #temp_ident : Option<#ty> = None;)
+        quote!(let mut #temp_ident : ::std::option::Option<#ty> = ::std::option::Option::None;)
     }
     fn build_let_vec_new(&self) -> TokenStream {
         let temp_ident = &self.temp_ident;
@@ -396,7 +396,7 @@ struct UnnamedParam<'a> {
 impl NamedParam<'_> {
     fn build_let(&self) -> TokenStream {
         let temp_ident = &self.info.temp_ident;
-        quote!(let mut #temp_ident = None;)
+        quote!(let mut #temp_ident = ::std::option::Option::None;)
     }
     fn build_arm_parse(&self, index: usize, kind: ArgKind) -> TokenStream {
         let temp_ident = &self.info.temp_ident;
@@ -406,11 +406,11 @@ impl NamedParam<'_> {
         let var = kind.to_helper_name_index_variant();
         let name_span = local_ident("span");
         quote_spanned! { span=>
-            ::structmeta::helpers::NameIndex::#var(Ok(#index)) => {
+            ::structmeta::helpers::NameIndex::#var(::std::result::Result::Ok(#index)) => {
                 if #temp_ident.is_some() {
-                    return Err(::structmeta::helpers::exports::syn::Error::new(#name_span, #msg));
+                    return ::std::result::Result::Err(::structmeta::helpers::exports::syn::Error::new(#name_span, #msg));
                 }
-                #temp_ident = Some(#expr);
+                #temp_ident = ::std::option::Option::Some(#expr);
             }
         }
     }
@@ -450,9 +450,9 @@ impl RestParam<'_> {
         let var = kind.to_helper_name_index_variant();
         let name_span = local_ident("span");
         quote_spanned! { span=>
-            ::structmeta::helpers::NameIndex::#var(Err(name)) => {
+            ::structmeta::helpers::NameIndex::#var(::std::result::Result::Err(name)) => {
                 if #temp_ident.insert(name.to_string(), #expr).is_some() {
-                    return Err(::structmeta::helpers::exports::syn::Error::new(#name_span, format!("parameter `{}` specified more than once", name)));
+                    return ::std::result::Result::Err(::structmeta::helpers::exports::syn::Error::new(#name_span, ::std::format!("parameter `{}` specified more than once", name)));
                 }
             }
         }
@@ -469,7 +469,7 @@ impl UnnamedParam<'_> {
         let expr = build_parse_expr(self.ty, span);
         quote_spanned! { span=>
             #index => {
-                #temp_ident = Some(#expr);
+                #temp_ident = ::std::option::Option::Some(#expr);
             }
         }
     }
@@ -727,11 +727,11 @@ impl<'a> NamedParamType<'a> {
             }
             NamedParamType::NameValue { ty, is_option } => {
                 let value = if kind == ArgKind::Flag && *is_option {
-                    quote!(None)
+                    quote!(::std::option::Option::None)
                 } else {
                     let value = build_parse_expr(ty, span);
                     if *is_option {
-                        quote!(Some(#value))
+                        quote!(::std::option::Option::Some(#value))
                     } else {
                         value
                     }
@@ -744,11 +744,11 @@ impl<'a> NamedParamType<'a> {
                 is_vec,
             } => {
                 let args = if kind == ArgKind::Flag && *is_option {
-                    quote!(None)
+                    quote!(::std::option::Option::None)
                 } else {
                     let args = build_parse_expr_name_args(ty, *is_vec, span);
                     if *is_option {
-                        quote!(Some(#args))
+                        quote!(::std::option::Option::Some(#args))
                     } else {
                         args
                     }
diff --git a/structmeta/src/helpers.rs b/structmeta/src/helpers.rs
index 22783cd..2c0f803 100644
--- a/structmeta/src/helpers.rs
+++ b/structmeta/src/helpers.rs
@@ -260,11 +260,11 @@ pub fn check_end(input: ParseStream) -> Result<()> {
 macro_rules! helpers_parse_macro_delimiter {
     ($content:ident in $input:ident) => {
         match $crate::helpers::parse_macro_delimiter($input) {
-            Ok((token, content)) => {
+            ::std::result::Result::Ok((token, content)) => {
                 $content = content;
                 token
             }
-            Err(e) => return Err(e),
+            ::std::result::Result::Err(e) => return ::std::result::Result::Err(e),
         }
     };
 }
-- 
2.43.0


From 8ef07592bfb7efe69c0739124a328923f5f15dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:15 +0000
Subject: [PATCH 13/16] fix: number the local variables of generated code, so
 that no lint on names applies to them

---
 structmeta-derive/src/parse.rs     |  5 ++---
 structmeta-derive/src/to_tokens.rs | 18 +++++++++++-------
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/structmeta-derive/src/parse.rs b/structmeta-derive/src/parse.rs
index 98c4550..e047489 100644
--- a/structmeta-derive/src/parse.rs
+++ b/structmeta-derive/src/parse.rs
@@ -54,7 +54,7 @@ fn code_from_enum(data: &DataEnum) -> Result<TokenStream> {
         let variant = &data.variants[index];
         let variant_ident = &variant.ident;
         let is_last = index == data.variants.len() - 1;
-        let fn_ident = format_ident!("_parse_{}", &variant.ident);
+        let fn_ident = format_ident!("_parse_{}", index);
         let mut peeks = Vec::new();
         let fn_expr = code_from_fields(
             quote!(Self::#variant_ident),
@@ -62,7 +62,6 @@ fn code_from_enum(data: &DataEnum) -> Result<TokenStream> {
             Some(&mut peeks),
         )?;
         let fn_def = quote! {
-            #[allow(non_snake_case)]
             let #fn_ident = |input: ::structmeta::helpers::exports::syn::parse::ParseStream<'_>| -> ::structmeta::helpers::exports::syn::Result<Self> {
                 #fn_expr
             };
@@ -283,7 +282,7 @@ fn code_from_fields(
 
 fn to_var_ident(index: usize, ident: &Option<Ident>) -> Ident {
     if let Some(ident) = ident {
-        format_ident!("_{}", ident)
+        format_ident!("_{}", index, span = ident.span())
     } else {
         format_ident!("_{}", index)
     }
diff --git a/structmeta-derive/src/to_tokens.rs b/structmeta-derive/src/to_tokens.rs
index 0a7de19..d41fe27 100644
--- a/structmeta-derive/src/to_tokens.rs
+++ b/structmeta-derive/src/to_tokens.rs
@@ -72,15 +72,15 @@ fn to_pattern(self_path: TokenStream, fields: &Fields) -> TokenStream {
         Fields::Unit => self_path,
         Fields::Unnamed(_) => {
             for (index, field) in fields.iter().enumerate() {
-                let var_ident = to_var_ident(Some(index), &field.ident);
+                let var_ident = to_var_ident(index, &field.ident);
                 vars.push(quote!(#var_ident));
             }
             quote!( #self_path( #(#vars,)*))
         }
         Fields::Named(_) => {
-            for field in fields.iter() {
+            for (index, field) in fields.iter().enumerate() {
                 let field_ident = &field.ident;
-                let var_ident = to_var_ident(None, field_ident);
+                let var_ident = to_var_ident(index, field_ident);
                 vars.push(quote!(#field_ident : #var_ident));
             }
             quote!( #self_path { #(#vars,)* } )
@@ -174,7 +174,7 @@ impl Scope<'_> {
 fn code_from_fields(fields: &Fields) -> Result<TokenStream> {
     let mut scopes = vec![Scope::new(None)];
     for (index, field) in fields.iter().enumerate() {
-        let ident = to_var_ident(Some(index), &field.ident);
+        let ident = to_var_ident(index, &field.ident);
         let mut field_to_tokens = true;
         for attr in &field.attrs {
             if attr.path().is_ident("to_tokens") {
@@ -225,10 +225,14 @@ fn code_from_fields(fields: &Fields) -> Result<TokenStream> {
     }
     unreachable!()
 }
-fn to_var_ident(index: Option<usize>, ident: &Option<Ident>) -> Ident {
+fn to_var_ident(index: usize, ident: &Option<Ident>) -> Ident {
     if let Some(ident) = ident {
-        format_ident!("_{}", ident)
+        let mut var = format_ident!("_{}", index, span = ident.span());
+        if var == *ident {
+            var = format_ident!("_{}", var);
+        }
+        var
     } else {
-        format_ident!("_{}", index.unwrap())
+        format_ident!("_{}", index)
     }
 }
-- 
2.43.0


From 56a391603a2e1a9198802ce4f50c167982d4f7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:14 +0000
Subject: [PATCH 14/16] fix: no deprecation warnings from the derives on a
 deprecated type or field itself

---
 structmeta-derive/src/syn_utils.rs | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/structmeta-derive/src/syn_utils.rs b/structmeta-derive/src/syn_utils.rs
index a86b339..72c205d 100644
--- a/structmeta-derive/src/syn_utils.rs
+++ b/structmeta-derive/src/syn_utils.rs
@@ -1,8 +1,8 @@
 use proc_macro2::{Ident, Span, TokenStream};
 use quote::quote;
 use syn::{
-    DeriveInput, Path, PathArguments, PathSegment, Result, Token, Type, WherePredicate,
-    punctuated::Punctuated,
+    Attribute, Data, DeriveInput, Fields, Path, PathArguments, PathSegment, Result, Token, Type,
+    WherePredicate, punctuated::Punctuated,
 };
 
 macro_rules! bail {
@@ -32,6 +32,22 @@ pub fn local_ident(name: &str) -> Ident {
     Ident::new(name, Span::call_site())
 }
 
+fn is_deprecated(attrs: &[Attribute]) -> bool {
+    attrs.iter().any(|a| a.path().is_ident("deprecated"))
+}
+fn uses_deprecated(input: &DeriveInput) -> bool {
+    let fields_use = |fields: &Fields| fields.iter().any(|f| is_deprecated(&f.attrs));
+    is_deprecated(&input.attrs)
+        || match &input.data {
+            Data::Struct(data) => fields_use(&data.fields),
+            Data::Enum(data) => data
+                .variants
+                .iter()
+                .any(|v| is_deprecated(&v.attrs) || fields_use(&v.fields)),
+            Data::Union(_) => false,
+        }
+}
+
 pub fn impl_trait(
     input: &DeriveInput,
     trait_path: &Path,
@@ -49,8 +65,11 @@ pub fn impl_trait(
     } else {
         quote! { where #(#wheres,)*}
     };
+    // The warning belongs to the users of a deprecated item, not to the code derived for it.
+    let allow_deprecated = uses_deprecated(input).then(|| quote!(#[allow(deprecated)]));
     quote! {
         #[automatically_derived]
+        #allow_deprecated
         impl #impl_g #trait_path for #ty #ty_g #where_clause {
             #contents
         }
-- 
2.43.0


From 5d3c4e7461a9928e8304a69aae25eadd0c931818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:31 +0000
Subject: [PATCH 15/16] fix: lints allowed for a type are allowed for the impls
 derived for it

---
 structmeta-derive/src/syn_utils.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/structmeta-derive/src/syn_utils.rs b/structmeta-derive/src/syn_utils.rs
index 72c205d..608964b 100644
--- a/structmeta-derive/src/syn_utils.rs
+++ b/structmeta-derive/src/syn_utils.rs
@@ -67,8 +67,11 @@ pub fn impl_trait(
     };
     // The warning belongs to the users of a deprecated item, not to the code derived for it.
     let allow_deprecated = uses_deprecated(input).then(|| quote!(#[allow(deprecated)]));
+    // As with the derives of the standard library, lints allowed for the type are allowed for its impls.
+    let allows = input.attrs.iter().filter(|a| a.path().is_ident("allow"));
     quote! {
         #[automatically_derived]
+        #(#allows)*
         #allow_deprecated
         impl #impl_g #trait_path for #ty #ty_g #where_clause {
             #contents
-- 
2.43.0


From 7244b1f5cb5ffb8709d64f1cb217d466ea0ed5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:11 +0000
Subject: [PATCH 16/16] fix: parse an enum variant that takes the rest of the
 input as a TokenStream

Such a variant panicked (fork was not derived from the advancing parse stream) unless it was tried first and last.
---
 structmeta-derive/src/parse.rs | 2 +-
 structmeta/src/helpers.rs      | 9 +++++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/structmeta-derive/src/parse.rs b/structmeta-derive/src/parse.rs
index e047489..6e15078 100644
--- a/structmeta-derive/src/parse.rs
+++ b/structmeta-derive/src/parse.rs
@@ -77,7 +77,7 @@ fn code_from_enum(data: &DataEnum) -> Result<TokenStream> {
                 quote! {
                     let fork = input.fork();
                     if let ::std::result::Result::Ok(value) = #fn_ident(&fork) {
-                        ::structmeta::helpers::exports::syn::parse::discouraged::Speculative::advance_to(input, &fork);
+                        ::structmeta::helpers::advance_to(input, &fork);
                         return ::std::result::Result::Ok(value);
                     }
                 }
diff --git a/structmeta/src/helpers.rs b/structmeta/src/helpers.rs
index 2c0f803..17145b3 100644
--- a/structmeta/src/helpers.rs
+++ b/structmeta/src/helpers.rs
@@ -247,6 +247,15 @@ pub fn parse_macro_delimiter<'a>(
     Ok((token, content))
 }
 
+pub fn advance_to(input: ParseStream, fork: ParseStream) {
+    if input.cursor().partial_cmp(&fork.cursor()).is_some() {
+        input.advance_to(fork);
+    } else {
+        // Parsing a `TokenStream` leaves a cursor at the end of no buffer, from which nothing can be advanced to.
+        let _ = input.parse::<TokenStream>();
+    }
+}
+
 pub fn check_end(input: ParseStream) -> Result<()> {
     if input.is_empty() {
         Ok(())
-- 
2.43.0

