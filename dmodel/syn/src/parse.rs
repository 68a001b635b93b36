use crate::punctuated::Punctuated;
use crate::{Error, Ident, Result};
use proc_macro2::{Span, Txt};
use std::cell::Cell;
use std::fmt::Display;
use std::marker::PhantomData;

pub const K_IDENT: u8 = 0;
pub const K_PUNCT: u8 = 1;
pub const K_STR: u8 = 2;
pub const K_INT: u8 = 3;
pub const K_GROUP: u8 = 4;
pub const K_END: u8 = 5;
#[derive(Clone, Copy)]
pub struct Tok {
    pub k: u8,
    /// Raw flag / character.
    pub x: u8,
    pub sp: u8,
    pub t: Txt,
}
impl Tok {
    pub const END: Tok = Tok { k: K_END, x: 0, sp: 255, t: Txt { len: 0, w: 0 } };
}
pub const CAP: usize = 16;
pub static mut TOKS: [Tok; CAP] = [Tok { k: 6, x: 0x5a, sp: 0x77, t: Txt { len: 0x33, w: 0x9e37_79b9 } }; CAP];

pub trait Parse: Sized {
    fn parse(input: ParseStream) -> Result<Self>;
}
pub type ParseStream<'a> = &'a ParseBuffer<'a>;
pub struct ParseBuffer<'a> {
    pos: Cell<u8>,
    end: u8,
    m: PhantomData<&'a ()>,
}
impl<'a> ParseBuffer<'a> {
    pub fn over(start: u8, end: u8) -> Self {
        ParseBuffer { pos: Cell::new(start), end, m: PhantomData }
    }
    fn at(&self, i: u8) -> Tok {
        let p = self.pos.get() + i;
        if p < self.end && (p as usize) < CAP { unsafe { TOKS[p as usize] } } else { Tok::END }
    }
    pub fn tok(&self) -> Tok {
        self.at(0)
    }
    pub fn bump(&self) {
        self.pos.set(self.pos.get() + 1);
    }
    pub fn parse<T: Parse>(&self) -> Result<T> {
        T::parse(self)
    }
    pub fn call<T>(&'a self, function: fn(ParseStream<'a>) -> Result<T>) -> Result<T> {
        function(self)
    }
    pub fn peek<T: Peek>(&self, token: T) -> bool {
        let _ = token;
        T::Token::peek(self.at(0))
    }
    pub fn peek2<T: Peek>(&self, token: T) -> bool {
        let _ = token;
        T::Token::peek(self.at(1))
    }
    pub fn peek3<T: Peek>(&self, token: T) -> bool {
        let _ = token;
        T::Token::peek(self.at(2))
    }
    pub fn parse_terminated<T, P>(&'a self, parser: fn(ParseStream<'a>) -> Result<T>, separator: P) -> Result<Punctuated<T, P::Token>>
    where
        P: Peek,
        P::Token: Parse,
    {
        let _ = separator;
        Punctuated::parse_terminated_with(self, parser)
    }
    pub fn is_empty(&self) -> bool {
        self.pos.get() >= self.end
    }
    pub fn lookahead1(&self) -> Lookahead1 {
        Lookahead1 { tok: self.at(0) }
    }
    pub fn fork(&self) -> Self {
        ParseBuffer { pos: Cell::new(self.pos.get()), end: self.end, m: PhantomData }
    }
    pub fn error<T: Display>(&self, message: T) -> Error {
        Error::new(self.span(), message)
    }
    pub fn span(&self) -> Span {
        Span(self.at(0).sp)
    }
}
pub struct Lookahead1 {
    tok: Tok,
}
impl Lookahead1 {
    pub fn peek<T: Peek>(&self, token: T) -> bool {
        let _ = token;
        T::Token::peek(self.tok)
    }
    pub fn error(self) -> Error {
        Error::new(Span(self.tok.sp), "unexpected token")
    }
}
pub enum TokenMarker {}
pub trait Token {
    fn peek(t: Tok) -> bool;
}
pub trait Peek {
    type Token: Token;
}
impl<F: Copy + FnOnce(TokenMarker) -> T, T: Token> Peek for F {
    type Token = T;
}
#[derive(Clone, Copy)]
pub struct End;
impl Token for End {
    fn peek(t: Tok) -> bool {
        t.k == K_END
    }
}
impl Peek for End {
    type Token = Self;
}
impl<T: Parse + Token> Parse for Option<T> {
    fn parse(input: ParseStream) -> Result<Self> {
        if T::peek(input.tok()) { Ok(Some(input.parse()?)) } else { Ok(None) }
    }
}
impl Parse for Ident {
    fn parse(input: ParseStream) -> Result<Self> {
        <Ident as crate::ext::IdentExt>::parse_any(input)
    }
}
impl Token for Ident {
    fn peek(t: Tok) -> bool {
        t.k == K_IDENT
    }
}
pub trait Parser: Sized {
    type Output;
    #[doc(hidden)]
    fn over(self, start: u8, end: u8) -> Result<Self::Output>;
}
impl<F, T> Parser for F
where
    F: FnOnce(ParseStream) -> Result<T>,
{
    type Output = T;
    fn over(self, start: u8, end: u8) -> Result<T> {
        let b = ParseBuffer::over(start, end);
        let r = self(&b)?;
        if b.is_empty() { Ok(r) } else { Err(b.error("unexpected token")) }
    }
}
