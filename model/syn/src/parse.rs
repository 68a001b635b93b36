use crate::buffer::Cursor;
use crate::error::{self, Error, Result};
use crate::punctuated::Punctuated;
use crate::token::{self, Token};
use proc_macro2::extra::DelimSpan;
use proc_macro2::*;
use std::cell::Cell;
use std::fmt::Display;
use std::marker::PhantomData;
use std::ops::Deref;

pub use crate::error::{Error as ParseError, Result as ParseResult};

pub trait Parse: Sized {
    fn parse(input: ParseStream) -> Result<Self>;
}
pub type ParseStream<'a> = &'a ParseBuffer<'a>;

/// The cells syn keeps in `Rc<Cell<Unexpected>>` (location of the first token a group's
/// parser left behind), in a fixed arena. A cell holds a span, or nothing, or refers to
/// another cell.
const CELLS: usize = 24;
const NO_CELL: u8 = 255;
#[derive(Clone, Copy)]
struct UCell {
    set: bool,
    span: u8,
    chain: u8,
}
static mut ARENA: [UCell; CELLS] = [UCell { set: false, span: 0, chain: NO_CELL }; CELLS];
// Kani places constants in any static whose initial bytes are the same, even a mutable
// one: the initial value of a mutable static must be no plausible constant.
static mut ARENA_LEN: (u64, u8) = (0x9e37_79b9_7f4a_7c15, 0);
#[inline]
fn cell_new() -> u8 {
    unsafe {
        let i = ARENA_LEN.1;
        assert!((i as usize) < CELLS, "MODEL-LIMIT: unexpected cells");
        ARENA[i as usize] = UCell { set: false, span: 0, chain: NO_CELL };
        ARENA_LEN.1 = i + 1;
        i
    }
}
fn cell_get(i: u8) -> UCell {
    unsafe { ARENA[i as usize] }
}
fn cell_set(i: u8, c: UCell) {
    unsafe { ARENA[i as usize] = c }
}

pub struct ParseBuffer<'a> {
    scope: Span,
    pos: Cell<u8>,
    end: u8,
    in_group: bool,
    /// Allocated on first use: syn always allocates it, which makes no observable difference.
    unexpected: Cell<u8>,
    m: PhantomData<Cursor<'a>>,
}
impl<'a> Drop for ParseBuffer<'a> {
    fn drop(&mut self) {
        // Only what a group's parser leaves behind can be observed later: a root or a
        // fork that is dropped takes its `unexpected` cell with it, unless some content
        // buffer or chain still refers to it, in which case nobody reads its root again.
        if self.in_group && self.pos.get() < self.end {
            let span = self.cursor().span();
            let (inner, old) = inner_unexpected(self);
            if old.is_none() {
                cell_set(inner, UCell { set: true, span: span.0, chain: NO_CELL });
            }
        }
    }
}
fn inner_unexpected(b: &ParseBuffer) -> (u8, Option<Span>) {
    let mut u = get_unexpected(b);
    let mut n = 0;
    while n < 3 {
        let c = cell_get(u);
        if c.set {
            return (u, Some(Span(c.span)));
        }
        if c.chain == NO_CELL {
            return (u, None);
        }
        u = c.chain;
        n += 1;
    }
    panic!("MODEL-LIMIT: chained unexpected cells");
}
fn get_unexpected(b: &ParseBuffer) -> u8 {
    let mut u = b.unexpected.get();
    if u == NO_CELL {
        u = cell_new();
        b.unexpected.set(u);
    }
    u
}
fn has_cell(b: &ParseBuffer) -> bool {
    b.unexpected.get() != NO_CELL
}

pub struct StepCursor<'c, 'a> {
    scope: Span,
    cursor: Cursor<'c>,
    marker: PhantomData<fn(Cursor<'c>) -> Cursor<'a>>,
}
impl<'c, 'a> Deref for StepCursor<'c, 'a> {
    type Target = Cursor<'c>;
    fn deref(&self) -> &Cursor<'c> {
        &self.cursor
    }
}
impl<'c, 'a> Clone for StepCursor<'c, 'a> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<'c, 'a> Copy for StepCursor<'c, 'a> {}
impl<'c, 'a> StepCursor<'c, 'a> {
    pub fn error<T: Display>(self, message: T) -> Error {
        error::new_at(self.scope, self.cursor, message)
    }
}

impl<'a> ParseBuffer<'a> {
    pub fn parse<T: Parse>(&self) -> Result<T> {
        T::parse(self)
    }
    pub fn call<T>(&'a self, function: fn(ParseStream<'a>) -> Result<T>) -> Result<T> {
        function(self)
    }
    pub fn peek<T: Peek>(&self, token: T) -> bool {
        let _ = token;
        T::Token::peek(self.cursor())
    }
    pub fn peek2<T: Peek>(&self, token: T) -> bool {
        let _ = token;
        match self.cursor().skip() {
            Some(c) => T::Token::peek(c),
            None => false,
        }
    }
    pub fn peek3<T: Peek>(&self, token: T) -> bool {
        let _ = token;
        match self.cursor().skip() {
            Some(c) => match c.skip() {
                Some(c) => T::Token::peek(c),
                None => false,
            },
            None => false,
        }
    }
    pub fn parse_terminated<T, P>(
        &'a self,
        parser: fn(ParseStream<'a>) -> Result<T>,
        separator: P,
    ) -> Result<Punctuated<T, P::Token>>
    where
        P: Peek,
        P::Token: Parse,
    {
        let _ = separator;
        Punctuated::parse_terminated_with(self, parser)
    }
    pub fn is_empty(&self) -> bool {
        self.pos.get() >= self.end
    }
    pub fn lookahead1(&self) -> Lookahead1<'a> {
        Lookahead1 { scope: self.scope, cursor: self.cursor() }
    }
    pub fn fork(&self) -> Self {
        ParseBuffer {
            scope: self.scope,
            pos: Cell::new(self.pos.get()),
            end: self.end,
            in_group: false,
            unexpected: Cell::new(NO_CELL),
            m: PhantomData,
        }
    }
    pub fn error<T: Display>(&self, message: T) -> Error {
        error::new_at(self.scope, self.cursor(), message)
    }
    pub fn step<F, R>(&self, function: F) -> Result<R>
    where
        F: for<'c> FnOnce(StepCursor<'c, 'a>) -> Result<(R, Cursor<'c>)>,
    {
        let (node, rest) = function(StepCursor {
            scope: self.scope,
            cursor: self.cursor(),
            marker: PhantomData,
        })?;
        self.pos.set(rest.pos);
        Ok(node)
    }
    pub fn span(&self) -> Span {
        if self.is_empty() {
            self.scope
        } else {
            self.cursor().span()
        }
    }
    pub fn cursor(&self) -> Cursor<'a> {
        Cursor::new(self.pos.get(), self.end)
    }
    pub(crate) fn advance(&self, c: Cursor) {
        self.pos.set(c.pos);
    }
    fn check_unexpected(&self) -> Result<()> {
        if !has_cell(self) {
            return Ok(());
        }
        match inner_unexpected(self).1 {
            Some(span) => Err(Error::new(span, "unexpected token")),
            None => Ok(()),
        }
    }
}

pub mod discouraged {
    use super::*;
    pub trait Speculative {
        fn advance_to(&self, fork: &Self);
    }
    impl<'a> Speculative for ParseBuffer<'a> {
        fn advance_to(&self, fork: &Self) {
            if self.end != fork.end {
                panic!("fork was not derived from the advancing parse stream");
            }
            // A fork without a cell never opened a group: nothing to hand over.
            if has_cell(fork) {
                let (self_u, self_sp) = inner_unexpected(self);
                let (fork_u, fork_sp) = inner_unexpected(fork);
                if self_u != fork_u {
                    match (fork_sp, self_sp) {
                        (Some(sp), None) => {
                            cell_set(self_u, UCell { set: true, span: sp.0, chain: NO_CELL })
                        }
                        (None, None) => {
                            cell_set(fork_u, UCell { set: false, span: 0, chain: self_u });
                            fork.unexpected.set(NO_CELL);
                        }
                        (_, Some(_)) => {}
                    }
                }
            }
            self.pos.set(fork.pos.get());
        }
    }
    pub trait AnyDelimiter {
        fn parse_any_delimiter(&self) -> Result<(Delimiter, DelimSpan, ParseBuffer<'_>)>;
    }
    impl<'a> AnyDelimiter for ParseBuffer<'a> {
        fn parse_any_delimiter(&self) -> Result<(Delimiter, DelimSpan, ParseBuffer<'_>)> {
            match self.cursor().any_group() {
                Some((inside, delim, span, rest)) if delim != Delimiter::None => {
                    let content = nested(self, inside, span);
                    self.advance(rest);
                    Ok((delim, span, content))
                }
                _ => Err(self.error("expected any delimiter")),
            }
        }
    }
}

fn nested<'a>(input: &ParseBuffer<'a>, inside: Cursor<'a>, span: DelimSpan) -> ParseBuffer<'a> {
    ParseBuffer {
        scope: span.close,
        pos: Cell::new(inside.pos),
        end: inside.end,
        in_group: true,
        unexpected: Cell::new(get_unexpected(input)),
        m: PhantomData,
    }
}
fn parse_delimited<'a>(
    input: &ParseBuffer<'a>,
    d: Delimiter,
) -> Result<(DelimSpan, ParseBuffer<'a>)> {
    match input.cursor().group(d) {
        Some((inside, span, rest)) => {
            let content = nested(input, inside, span);
            input.advance(rest);
            Ok((span, content))
        }
        None => Err(input.error("expected delimiter")),
    }
}
#[doc(hidden)]
pub struct Parens<'a> {
    pub token: token::Paren,
    pub content: ParseBuffer<'a>,
}
#[doc(hidden)]
pub struct Braces<'a> {
    pub token: token::Brace,
    pub content: ParseBuffer<'a>,
}
#[doc(hidden)]
pub struct Brackets<'a> {
    pub token: token::Bracket,
    pub content: ParseBuffer<'a>,
}
#[doc(hidden)]
pub fn parse_parens<'a>(input: &ParseBuffer<'a>) -> Result<Parens<'a>> {
    let (span, content) = parse_delimited(input, Delimiter::Parenthesis)?;
    Ok(Parens { token: token::Paren { span }, content })
}
#[doc(hidden)]
pub fn parse_braces<'a>(input: &ParseBuffer<'a>) -> Result<Braces<'a>> {
    let (span, content) = parse_delimited(input, Delimiter::Brace)?;
    Ok(Braces { token: token::Brace { span }, content })
}
#[doc(hidden)]
pub fn parse_brackets<'a>(input: &ParseBuffer<'a>) -> Result<Brackets<'a>> {
    let (span, content) = parse_delimited(input, Delimiter::Bracket)?;
    Ok(Brackets { token: token::Bracket { span }, content })
}

pub struct Lookahead1<'a> {
    scope: Span,
    cursor: Cursor<'a>,
}
impl<'a> Lookahead1<'a> {
    pub fn peek<T: Peek>(&self, token: T) -> bool {
        let _ = token;
        T::Token::peek(self.cursor)
    }
    pub fn error(self) -> Error {
        error::new_at(self.scope, self.cursor, "unexpected token")
    }
}

pub enum TokenMarker {}
pub trait Peek {
    type Token: Token;
}
impl<F: Copy + FnOnce(TokenMarker) -> T, T: Token> Peek for F {
    type Token = T;
}
#[derive(Clone, Copy)]
pub struct End;
impl Token for End {
    fn peek(cursor: Cursor) -> bool {
        cursor.eof()
    }
}
impl Peek for End {
    type Token = Self;
}

impl<T: Parse> Parse for Box<T> {
    fn parse(input: ParseStream) -> Result<Self> {
        input.parse().map(Box::new)
    }
}
impl<T: Parse + Token> Parse for Option<T> {
    fn parse(input: ParseStream) -> Result<Self> {
        if T::peek(input.cursor()) {
            Ok(Some(input.parse()?))
        } else {
            Ok(None)
        }
    }
}
impl Parse for TokenStream {
    fn parse(input: ParseStream) -> Result<Self> {
        let c = input.cursor();
        let s = c.token_stream();
        input.pos.set(c.end);
        Ok(s)
    }
}
impl Parse for TokenTree {
    fn parse(input: ParseStream) -> Result<Self> {
        match input.cursor().token_tree() {
            Some((t, rest)) => {
                input.advance(rest);
                Ok(t)
            }
            None => Err(input.error("expected token tree")),
        }
    }
}
impl Parse for Punct {
    fn parse(input: ParseStream) -> Result<Self> {
        match input.cursor().punct() {
            Some((t, rest)) => {
                input.advance(rest);
                Ok(t)
            }
            None => Err(input.error("expected punctuation token")),
        }
    }
}
impl Parse for Literal {
    fn parse(input: ParseStream) -> Result<Self> {
        match input.cursor().literal() {
            Some((t, rest)) => {
                input.advance(rest);
                Ok(t)
            }
            None => Err(input.error("expected literal token")),
        }
    }
}

pub trait Parser: Sized {
    type Output;
    fn parse2(self, tokens: TokenStream) -> Result<Self::Output>;
}
impl<F, T> Parser for F
where
    F: FnOnce(ParseStream) -> Result<T>,
{
    type Output = T;
    fn parse2(self, tokens: TokenStream) -> Result<T> {
        unsafe { crate::buffer::BUF = tokens.toks };
        let state = ParseBuffer {
            scope: Span::call_site(),
            pos: Cell::new(0),
            end: tokens.len as u8,
            in_group: false,
            unexpected: Cell::new(NO_CELL),
            m: PhantomData,
        };
        let node = self(&state)?;
        state.check_unexpected()?;
        if state.is_empty() {
            Ok(node)
        } else {
            Err(Error::new(state.cursor().span(), "unexpected token"))
        }
    }
}
pub struct Nothing;
impl Parse for Nothing {
    fn parse(_input: ParseStream) -> Result<Self> {
        Ok(Nothing)
    }
}
