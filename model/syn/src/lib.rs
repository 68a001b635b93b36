//! Model of the part of syn's API that structmeta's runtime and its generated code use.
//! Structure and semantics follow syn 3.0.9 (parse.rs, buffer.rs, group.rs,
//! discouraged.rs, punctuated.rs, token.rs); the token buffer is a flat array.
extern crate self as syn;

pub mod buffer;
pub mod error;
pub mod ext;
pub mod lit;
pub mod parse;
pub mod punctuated;
pub mod spanned;
#[macro_use]
pub mod token;

pub use error::{Error, Result};
pub use lit::{Lit, LitFloat, LitInt, LitStr};
pub use proc_macro2::Ident;

#[doc(hidden)]
#[allow(non_snake_case)]
pub fn Ident(marker: parse::TokenMarker) -> Ident {
    match marker {}
}

#[derive(Clone, Debug)]
pub enum MacroDelimiter {
    Paren(token::Paren),
    Brace(token::Brace),
    Bracket(token::Bracket),
}
impl MacroDelimiter {
    pub fn span(&self) -> &proc_macro2::extra::DelimSpan {
        match self {
            MacroDelimiter::Paren(t) => &t.span,
            MacroDelimiter::Brace(t) => &t.span,
            MacroDelimiter::Bracket(t) => &t.span,
        }
    }
}

pub fn parse2<T: parse::Parse>(tokens: proc_macro2::TokenStream) -> Result<T> {
    parse::Parser::parse2(T::parse, tokens)
}

#[doc(hidden)]
pub mod __private {
    pub use crate::parse::{parse_braces, parse_brackets, parse_parens};
    pub use std::result::Result::{Err, Ok};
}

#[macro_export]
macro_rules! parenthesized {
    ($content:ident in $cursor:expr) => {
        match $crate::__private::parse_parens(&$cursor) {
            $crate::__private::Ok(p) => {
                $content = p.content;
                _ = $content;
                p.token
            }
            $crate::__private::Err(error) => {
                return $crate::__private::Err(error);
            }
        }
    };
}
#[macro_export]
macro_rules! braced {
    ($content:ident in $cursor:expr) => {
        match $crate::__private::parse_braces(&$cursor) {
            $crate::__private::Ok(p) => {
                $content = p.content;
                _ = $content;
                p.token
            }
            $crate::__private::Err(error) => {
                return $crate::__private::Err(error);
            }
        }
    };
}
#[macro_export]
macro_rules! bracketed {
    ($content:ident in $cursor:expr) => {
        match $crate::__private::parse_brackets(&$cursor) {
            $crate::__private::Ok(p) => {
                $content = p.content;
                _ = $content;
                p.token
            }
            $crate::__private::Err(error) => {
                return $crate::__private::Err(error);
            }
        }
    };
}
