//! Model of the part of syn that the derives use: the syntax tree of a definition, and the
//! parser for the arguments of attributes (whose tokens lie in one static buffer).
extern crate self as syn;
use mstd::model_prelude::*;
use proc_macro2::{Span, TokenStream, Txt};
use quote::ToTokens;
use std::fmt::{self, Debug, Display};

pub use proc_macro2::Ident;
pub mod ast;
pub mod buffer;
pub mod ext;
pub mod parse;
pub mod punctuated;
pub mod spanned;
pub use ast::*;

#[doc(hidden)]
#[allow(non_snake_case)]
pub fn Ident(marker: parse::TokenMarker) -> Ident {
    match marker {}
}

pub type Result<T> = std::result::Result<T, Error>;
#[derive(Clone)]
pub struct Error {
    span: Span,
}
impl Error {
    pub fn new(span: Span, message: impl Display) -> Self {
        let _ = &message;
        Error { span }
    }
    pub fn new_spanned(tokens: impl ToTokens, message: impl Display) -> Self {
        let _ = (&message, &tokens);
        Error { span: Span::call_site() }
    }
    pub fn span(&self) -> Span {
        self.span
    }
    pub fn combine(&mut self, _another: Error) {}
    pub fn to_compile_error(&self) -> TokenStream {
        TokenStream { err: true }
    }
    pub fn into_compile_error(self) -> TokenStream {
        TokenStream { err: true }
    }
}
impl Debug for Error {
    fn fmt(&self, _f: &mut fmt::Formatter<'_>) -> fmt::Result {
        Ok(())
    }
}
impl Display for Error {
    fn fmt(&self, _f: &mut fmt::Formatter<'_>) -> fmt::Result {
        Ok(())
    }
}
impl std::error::Error for Error {}

// ---------------------------------------------------------------- literals
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct LitStr {
    pub t: Txt,
    pub sp: u8,
}
impl LitStr {
    pub fn value(&self) -> String {
        self.t.string(false)
    }
    pub fn span(&self) -> Span {
        Span(self.sp)
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct LitInt {
    pub sp: u8,
}
macro_rules! lits {
    ($($n:ident $k:ident $e:expr;)*) => {$(
        impl parse::Parse for $n {
            fn parse(input: parse::ParseStream) -> Result<Self> {
                let t = input.tok();
                if t.k != parse::$k {
                    return Err(input.error("expected literal"));
                }
                input.bump();
                Ok($e(t))
            }
        }
        impl parse::Token for $n {
            fn peek(t: parse::Tok) -> bool {
                t.k == parse::$k
            }
        }
        impl ToTokens for $n {
            fn to_tokens(&self, _tokens: &mut TokenStream) {}
        }
        #[doc(hidden)]
        #[allow(non_snake_case)]
        pub fn $n(marker: parse::TokenMarker) -> $n {
            match marker {}
        }
    )*};
}
lits! {
    LitStr K_STR |t: parse::Tok| LitStr { t: t.t, sp: t.sp };
    LitInt K_INT |t: parse::Tok| LitInt { sp: t.sp };
}

// ---------------------------------------------------------------- tokens
pub mod token {
    use super::*;
    macro_rules! puncts {
        ($($s:literal $name:ident)*) => {$(
            #[derive(Clone, Copy, Debug, PartialEq, Eq)]
            pub struct $name {
                pub span: Span,
            }
            impl Default for $name {
                fn default() -> Self {
                    $name { span: Span::call_site() }
                }
            }
            #[doc(hidden)]
            #[allow(non_snake_case)]
            pub fn $name(marker: parse::TokenMarker) -> $name {
                match marker {}
            }
            impl parse::Parse for $name {
                fn parse(input: parse::ParseStream) -> Result<Self> {
                    let t = input.tok();
                    if t.k != parse::K_PUNCT || t.x != $s {
                        return Err(input.error("expected punctuation"));
                    }
                    input.bump();
                    Ok($name { span: Span(t.sp) })
                }
            }
            impl parse::Token for $name {
                fn peek(t: parse::Tok) -> bool {
                    t.k == parse::K_PUNCT && t.x == $s
                }
            }
            impl ToTokens for $name {
                fn to_tokens(&self, _tokens: &mut TokenStream) {}
            }
        )*};
    }
    puncts! { b',' Comma b'=' Eq b';' Semi b'+' Plus }
    #[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
    pub struct PathSep;
}
#[macro_export]
macro_rules! Token {
    [,] => { $crate::token::Comma };
    [=] => { $crate::token::Eq };
    [;] => { $crate::token::Semi };
    [+] => { $crate::token::Plus };
    [::] => { $crate::token::PathSep };
}
#[macro_export]
macro_rules! custom_keyword {
    ($name:ident) => {
        #[allow(non_camel_case_types)]
        #[derive(Clone, Copy, Debug, PartialEq, Eq)]
        pub struct $name {
            #[allow(dead_code)]
            pub span: $crate::__private::Span,
        }
        #[doc(hidden)]
        #[allow(dead_code, non_snake_case)]
        pub fn $name(marker: $crate::parse::TokenMarker) -> $name {
            match marker {}
        }
        impl $crate::parse::Parse for $name {
            fn parse(input: $crate::parse::ParseStream) -> $crate::Result<Self> {
                let t = input.tok();
                if t.k != $crate::parse::K_IDENT || t.x != 0 || !t.t.eq_bytes(stringify!($name).as_bytes()) {
                    return $crate::__private::Err(input.error("expected keyword"));
                }
                input.bump();
                $crate::__private::Ok($name { span: $crate::__private::Span(t.sp) })
            }
        }
        impl $crate::parse::Token for $name {
            fn peek(t: $crate::parse::Tok) -> bool {
                t.k == $crate::parse::K_IDENT && t.x == 0 && t.t.eq_bytes(stringify!($name).as_bytes())
            }
        }
        impl $crate::__private::ToTokens for $name {
            fn to_tokens(&self, _tokens: &mut $crate::__private::TokenStream) {}
        }
    };
}
#[doc(hidden)]
pub mod __private {
    pub use proc_macro2::{Span, TokenStream};
    pub use quote::ToTokens;
    pub use std::result::Result::{Err, Ok};
    pub trait ParseQuote {
        fn parse_quote() -> Self;
    }
    impl ParseQuote for crate::Ident {
        fn parse_quote() -> Self {
            crate::Ident::new("_x", Span::call_site())
        }
    }
    impl ParseQuote for crate::Path {
        fn parse_quote() -> Self {
            crate::Path::default()
        }
    }
    impl ParseQuote for crate::WherePredicate {
        fn parse_quote() -> Self {
            crate::WherePredicate
        }
    }
    pub fn parse_quote<T: ParseQuote>() -> T {
        T::parse_quote()
    }
}
#[macro_export]
macro_rules! parse_quote {
    ($($t:tt)*) => { $crate::__private::parse_quote() };
}
/// The derive's input: put there by the harness.
pub static mut INPUT: *const DeriveInput = std::ptr::null();
#[macro_export]
macro_rules! parse_macro_input {
    ($i:ident as $t:ty) => {{
        let _ = $i;
        let input: $t = unsafe { ::core::ptr::read($crate::INPUT) };
        input
    }};
}
