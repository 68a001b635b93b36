use crate::buffer::Cursor;
use crate::error::Result;
use crate::parse::{ParseStream, Peek};
use crate::token::Token;
use proc_macro2::Ident;

pub trait IdentExt: Sized {
    fn parse_any(input: ParseStream) -> Result<Self>;
    #[allow(non_upper_case_globals)]
    const peek_any: PeekFn = PeekFn;
    fn unraw(&self) -> Ident;
}
impl IdentExt for Ident {
    fn parse_any(input: ParseStream) -> Result<Self> {
        match input.cursor().ident() {
            Some((i, rest)) => {
                input.advance(rest);
                Ok(i)
            }
            None => Err(input.error("expected ident")),
        }
    }
    fn unraw(&self) -> Ident {
        Ident { tok: proc_macro2::Tok::ident(self.txt(), false, self.span().0) }
    }
}
#[derive(Clone, Copy)]
pub struct PeekFn;
pub struct IdentAny;
impl Peek for PeekFn {
    type Token = IdentAny;
}
impl Token for IdentAny {
    fn peek(cursor: Cursor) -> bool {
        cursor.ident().is_some()
    }
}
