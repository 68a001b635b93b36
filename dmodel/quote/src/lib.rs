//! Model of `quote`: generated code is opaque.
use proc_macro2::*;
#[doc(hidden)]
pub mod __private {
    pub use proc_macro2::{Ident, Span, TokenStream};
}
pub trait ToTokens {
    fn to_tokens(&self, tokens: &mut TokenStream);
    fn to_token_stream(&self) -> TokenStream {
        let mut t = TokenStream::new();
        self.to_tokens(&mut t);
        t
    }
    fn into_token_stream(self) -> TokenStream
    where
        Self: Sized,
    {
        self.to_token_stream()
    }
}
impl<'a, T: ?Sized + ToTokens> ToTokens for &'a T {
    fn to_tokens(&self, tokens: &mut TokenStream) {
        (**self).to_tokens(tokens);
    }
}
impl<T: ToTokens> ToTokens for Option<T> {
    fn to_tokens(&self, _tokens: &mut TokenStream) {}
}
impl ToTokens for Ident {
    fn to_tokens(&self, _tokens: &mut TokenStream) {}
}
impl ToTokens for TokenStream {
    fn to_tokens(&self, tokens: &mut TokenStream) {
        tokens.err |= self.err;
    }
}
pub trait TokenStreamExt {
    fn append_all<I: IntoIterator>(&mut self, iter: I)
    where
        I::Item: ToTokens;
}
impl TokenStreamExt for TokenStream {
    fn append_all<I: IntoIterator>(&mut self, iter: I)
    where
        I::Item: ToTokens,
    {
        for t in iter {
            t.to_tokens(self);
        }
    }
}
#[macro_export]
macro_rules! quote {
    ($($t:tt)*) => { $crate::__private::TokenStream { err: false } };
}
#[macro_export]
macro_rules! quote_spanned {
    ($s:expr=> $($t:tt)*) => {{ let _: $crate::__private::Span = $s; $crate::__private::TokenStream { err: false } }};
}
/// Any identifier: nothing the derives decide may depend on the names they make up.
#[macro_export]
macro_rules! format_ident {
    ($f:literal $(, $($t:tt)*)?) => {{
        if false {
            let _ = ::core::format_args!($f $(, $($t)*)?);
        }
        $crate::__private::Ident::new("_x", $crate::__private::Span::call_site())
    }};
}
