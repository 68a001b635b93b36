From bb1fb96a381902c8a07e1b70f7509c5081ea19b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:39 +0000
Subject: [PATCH 1/7] fix: qualify NameArgs in generated code with a leading
 `::`

---
 structmeta-derive/src/struct_meta.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structmeta-derive/src/struct_meta.rs b/structmeta-derive/src/struct_meta.rs
index f7bfffd..0a90b6d 100644
--- a/structmeta-derive/src/struct_meta.rs
+++ b/structmeta-derive/src/struct_meta.rs
@@ -744,7 +744,7 @@ impl<'a> NamedParamType<'a> {
                         args
                     }
                 };
-                quote!(structmeta::NameArgs { name_span : span, args: #args })
+                quote!(::structmeta::NameArgs { name_span : span, args: #args })
             }
         }
     }
-- 
2.43.0


From e217f55eee54505f844bdcaddebe8429136a3918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:14 +0000
Subject: [PATCH 2/7] fix: name syn through structmeta in the code generated by
 derive(Parse)

---
 structmeta-derive/src/parse.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/structmeta-derive/src/parse.rs b/structmeta-derive/src/parse.rs
index c540311..94294ad 100644
--- a/structmeta-derive/src/parse.rs
+++ b/structmeta-derive/src/parse.rs
@@ -46,7 +46,7 @@ fn code_from_struct(data: &DataStruct) -> Result<TokenStream> {
 fn code_from_enum(self_ident: &Ident, data: &DataEnum) -> Result<TokenStream> {
     let mut ts = TokenStream::new();
     ts.extend(quote!(
-        use syn::ext::*;
+        use ::structmeta::helpers::exports::syn::ext::*;
     ));
     let mut input_is_forked = false;
     let mut input_is_moved = false;
@@ -268,7 +268,7 @@ fn code_from_fields(
         Fields::Unit => quote!(),
     };
     Ok(quote! {
-        use syn::ext::*;
+        use ::structmeta::helpers::exports::syn::ext::*;
         #ts
         Ok(#self_path #init)
     })
-- 
2.43.0


From f72481cdeb50ecbce882b11fb928f9343f17779f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:30 +0000
Subject: [PATCH 3/7] fix: report an unmatched closing delimiter instead of
 panicking in derive(ToTokens)

---
 structmeta-derive/src/to_tokens.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/structmeta-derive/src/to_tokens.rs b/structmeta-derive/src/to_tokens.rs
index 483bfa8..11114e1 100644
--- a/structmeta-derive/src/to_tokens.rs
+++ b/structmeta-derive/src/to_tokens.rs
@@ -186,9 +186,10 @@ fn code_from_fields(fields: &Fields) -> Result<TokenStream> {
                             field_to_tokens = false;
                         } else if let Some(delimiter) = delimiter_from_close_char(c) {
                             let scope = scopes.pop().unwrap();
-                            scopes
-                                .last_mut()
-                                .unwrap()
+                            let Some(parent) = scopes.last_mut() else {
+                                bail!(token.span(), "mismatched closing delimiter `{}`.", c);
+                            };
+                            parent
                                 .ts
                                 .extend(scope.into_code(Some(delimiter), token.span())?);
                         } else {
-- 
2.43.0


From a04dc57d685e699172d685b06cdf63c555733b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:47 +0000
Subject: [PATCH 4/7] fix: reject an unnamed parameter of type Option<Vec<_>>
 instead of panicking in derive(StructMeta)

---
 structmeta-derive/src/struct_meta.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/structmeta-derive/src/struct_meta.rs b/structmeta-derive/src/struct_meta.rs
index 0a90b6d..83694c6 100644
--- a/structmeta-derive/src/struct_meta.rs
+++ b/structmeta-derive/src/struct_meta.rs
@@ -315,6 +315,12 @@ impl<'a> Param<'a> {
                 is_option,
             })
         } else if let NamedParamType::Value { ty, is_vec } = ty {
+            if is_option && is_vec {
+                bail!(
+                    info.span(),
+                    "this field type cannot be used as unnamed parameter."
+                )
+            }
             Param::Unnamed(UnnamedParam {
                 info,
                 ty,
-- 
2.43.0


From 9f3ce32ec06331a2f9d685b2f7b7cb6f93e34c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:28 +0000
Subject: [PATCH 5/7] fix: accept `name=value` whatever token the value begins
 with

---
 structmeta/src/helpers.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/structmeta/src/helpers.rs b/structmeta/src/helpers.rs
index 57c9e2b..f213d53 100644
--- a/structmeta/src/helpers.rs
+++ b/structmeta/src/helpers.rs
@@ -1,4 +1,4 @@
-use proc_macro2::{Ident, Spacing, Span, TokenStream};
+use proc_macro2::{Ident, Span, TokenStream};
 use syn::{
     MacroDelimiter, Result, Token, braced, bracketed,
     ext::IdentExt,
@@ -104,11 +104,7 @@ pub fn try_parse_name(
     Ok(None)
 }
 fn peek_eq_op(input: ParseStream) -> bool {
-    if let Some((p, _)) = input.cursor().punct() {
-        p.as_char() == '=' && p.spacing() == Spacing::Alone
-    } else {
-        false
-    }
+    input.peek(Token![=]) && !input.peek(Token![==]) && !input.peek(Token![=>])
 }
 fn name_index_of(
     names: &[&str],
-- 
2.43.0


From 578b6988aa393c77caa64b177d9091db8277b845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:20 +0000
Subject: [PATCH 6/7] fix: let generated code see its variables when a field
 comes from a macro_rules argument

---
 structmeta-derive/src/struct_meta.rs | 17 +++++++++++------
 structmeta-derive/src/to_tokens.rs   |  6 ++++--
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/structmeta-derive/src/struct_meta.rs b/structmeta-derive/src/struct_meta.rs
index 83694c6..6ea9a6a 100644
--- a/structmeta-derive/src/struct_meta.rs
+++ b/structmeta-derive/src/struct_meta.rs
@@ -369,7 +369,8 @@ impl<'a> ParamInfo<'a> {
     fn build_let_parse(&self) -> TokenStream {
         let temp_ident = &self.temp_ident;
         let ty = &self.field.ty;
-        quote_spanned!(self.span()=> let #temp_ident = input.parse::<#ty>()?;)
+        let input = quote!(input);
+        quote_spanned!(self.span()=> let #temp_ident = #input.parse::<#ty>()?;)
     }
 }
 
@@ -403,10 +404,11 @@ impl NamedParam<'_> {
         let span = self.info.field.span();
         let expr = self.ty.build_parse_expr(kind, span);
         let var = kind.to_helper_name_index_variant();
+        let name_span = quote!(span);
         quote_spanned! { span=>
             ::structmeta::helpers::NameIndex::#var(Ok(#index)) => {
                 if #temp_ident.is_some() {
-                    return Err(::structmeta::helpers::exports::syn::Error::new(span, #msg));
+                    return Err(::structmeta::helpers::exports::syn::Error::new(#name_span, #msg));
                 }
                 #temp_ident = Some(#expr);
             }
@@ -446,10 +448,11 @@ impl RestParam<'_> {
         let span = self.info.field.span();
         let expr = self.ty.build_parse_expr(kind, span);
         let var = kind.to_helper_name_index_variant();
+        let name_span = quote!(span);
         quote_spanned! { span=>
             ::structmeta::helpers::NameIndex::#var(Err(name)) => {
                 if #temp_ident.insert(name.to_string(), #expr).is_some() {
-                    return Err(::structmeta::helpers::exports::syn::Error::new(span, format!("parameter `{}` specified more than once", name)));
+                    return Err(::structmeta::helpers::exports::syn::Error::new(#name_span, format!("parameter `{}` specified more than once", name)));
                 }
             }
         }
@@ -757,13 +760,15 @@ impl<'a> NamedParamType<'a> {
 }
 
 fn build_parse_expr(ty: &Type, span: Span) -> TokenStream {
-    quote_spanned!(span=> input.parse::<#ty>()?)
+    let input = quote!(input);
+    quote_spanned!(span=> #input.parse::<#ty>()?)
 }
 fn build_parse_expr_name_args(ty: &Type, is_vec: bool, span: Span) -> TokenStream {
+    let content = quote!(content);
     let value = if is_vec {
-        quote_spanned!(span=> ::structmeta::helpers::exports::syn::punctuated::Punctuated::<#ty, ::structmeta::helpers::exports::syn::Token![,]>::parse_terminated(&content)?.into_iter().collect())
+        quote_spanned!(span=> ::structmeta::helpers::exports::syn::punctuated::Punctuated::<#ty, ::structmeta::helpers::exports::syn::Token![,]>::parse_terminated(&#content)?.into_iter().collect())
     } else {
-        quote_spanned!(span=> content.parse::<#ty>()?)
+        quote_spanned!(span=> #content.parse::<#ty>()?)
     };
     quote! {
         {
diff --git a/structmeta-derive/src/to_tokens.rs b/structmeta-derive/src/to_tokens.rs
index 11114e1..3c894d7 100644
--- a/structmeta-derive/src/to_tokens.rs
+++ b/structmeta-derive/src/to_tokens.rs
@@ -161,7 +161,8 @@ impl Scope<'_> {
                 let ty = s.token_type_ident();
                 quote_spanned!(span=> ::structmeta::helpers::exports::syn::token::#ty::surround)
             };
-            let code = quote_spanned!(span=> #func(#ident, tokens, |tokens| { #ts }););
+            let tokens = quote!(tokens);
+            let code = quote_spanned!(span=> #func(#ident, #tokens, |#tokens| { #ts }););
             return Ok(code);
         }
         Ok(quote!())
@@ -204,7 +205,8 @@ fn code_from_fields(fields: &Fields) -> Result<TokenStream> {
             }
         }
         if field_to_tokens {
-            let code = quote_spanned!(field.span()=> ::structmeta::helpers::exports::quote::ToTokens::to_tokens(#ident, tokens););
+            let tokens = quote!(tokens);
+            let code = quote_spanned!(field.span()=> ::structmeta::helpers::exports::quote::ToTokens::to_tokens(#ident, #tokens););
             scopes.last_mut().unwrap().ts.extend(code);
         }
     }
-- 
2.43.0


From 97b371d66d61a64d1d0b5ec5d0218d1a2ee2cc30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:49 +0000
Subject: [PATCH 7/7] fix: recognise the type of a field given as $ty:ty to a
 macro_rules macro

---
 structmeta-derive/src/syn_utils.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/structmeta-derive/src/syn_utils.rs b/structmeta-derive/src/syn_utils.rs
index 1dd939a..3c0272c 100644
--- a/structmeta-derive/src/syn_utils.rs
+++ b/structmeta-derive/src/syn_utils.rs
@@ -71,7 +71,7 @@ pub fn is_type(ty: &Type, ns: &[&[&str]], name: &str) -> bool {
     }
 }
 pub fn get_arguments_of<'a>(ty: &'a Type, ns: &[&[&str]], name: &str) -> Option<&'a PathArguments> {
-    if let Type::Path(ty) = ty {
+    if let Type::Path(ty) = ungroup(ty) {
         if ty.qself.is_some() {
             return None;
         }
@@ -89,6 +89,13 @@ pub fn get_arguments_of<'a>(ty: &'a Type, ns: &[&[&str]], name: &str) -> Option<
     }
     None
 }
+/// A type given to a `macro_rules!` macro as `$ty:ty` arrives in an invisible group.
+pub fn ungroup(mut ty: &Type) -> &Type {
+    while let Type::Group(group) = ty {
+        ty = &group.elem;
+    }
+    ty
+}
 pub fn is_match_ns(ss: &Punctuated<PathSegment, Token![::]>, ns: &[&str]) -> bool {
     let mut i_ss = ss.len() - 1;
     let mut i_ns = ns.len();
-- 
2.43.0

