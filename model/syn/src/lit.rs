use mstd::model_prelude::*;
use crate::buffer::Cursor;
use crate::error::Result;
use crate::parse::{Parse, ParseStream, TokenMarker};
use crate::token::Token;
use proc_macro2::*;
use quote::ToTokens;

macro_rules! lits {
    ($($name:ident $kind:ident)*) => {$(
        #[derive(Clone, Copy, Debug)]
        pub struct $name {
            pub lit: Literal,
        }
        impl $name {
            pub fn span(&self) -> Span {
                self.lit.span()
            }
            pub fn set_span(&mut self, sp: Span) {
                self.lit.set_span(sp);
            }
            pub fn token(&self) -> Literal {
                self.lit
            }
        }
        impl PartialEq for $name {
            fn eq(&self, o: &Self) -> bool {
                self.lit.0.t() == o.lit.0.t()
            }
        }
        impl Parse for $name {
            fn parse(input: ParseStream) -> Result<Self> {
                match input.cursor().literal() {
                    Some((lit, rest)) if lit.kind() == $kind => {
                        input.advance(rest);
                        Ok($name { lit })
                    }
                    _ => Err(input.error("expected literal")),
                }
            }
        }
        impl Token for $name {
            fn peek(cursor: Cursor) -> bool {
                match cursor.literal() {
                    Some((lit, _)) => lit.kind() == $kind,
                    None => false,
                }
            }
        }
        impl ToTokens for $name {
            fn to_tokens(&self, tokens: &mut TokenStream) {
                tokens.push_tree(TokenTree::Literal(self.lit));
            }
        }
        #[doc(hidden)]
        #[allow(non_snake_case)]
        pub fn $name(marker: TokenMarker) -> $name {
            match marker {}
        }
    )*};
}
lits! { LitInt L_INT LitStr L_STR LitFloat L_FLOAT }
impl LitStr {
    pub fn value(&self) -> String {
        self.lit.0.t().to_string()
    }
}
/// Any literal.
#[derive(Clone, Copy, Debug)]
pub struct Lit {
    pub lit: Literal,
}
impl Lit {
    pub fn span(&self) -> Span {
        self.lit.span()
    }
}
impl Parse for Lit {
    fn parse(input: ParseStream) -> Result<Self> {
        match input.cursor().literal() {
            Some((lit, rest)) => {
                input.advance(rest);
                Ok(Lit { lit })
            }
            _ => Err(input.error("expected literal")),
        }
    }
}
impl Token for Lit {
    fn peek(cursor: Cursor) -> bool {
        cursor.literal().is_some()
    }
}
impl ToTokens for Lit {
    fn to_tokens(&self, tokens: &mut TokenStream) {
        tokens.push_tree(TokenTree::Literal(self.lit));
    }
}
#[doc(hidden)]
#[allow(non_snake_case)]
pub fn Lit(marker: TokenMarker) -> Lit {
    match marker {}
}
