use proc_macro2::extra::DelimSpan;
use proc_macro2::*;

use std::marker::PhantomData;

/// The one token buffer: a parse starts by copying its input here.
pub(crate) static mut BUF: [Tok; CAP] = [Tok::NIL; CAP];
pub(crate) fn buf(i: u8) -> Tok {
    unsafe { BUF[i as usize] }
}

#[derive(Clone, Copy)]
pub struct Cursor<'a> {
    pub(crate) pos: u8,
    pub(crate) end: u8,
    m: PhantomData<&'a ()>,
}
impl<'a> PartialEq for Cursor<'a> {
    fn eq(&self, o: &Self) -> bool {
        self.pos == o.pos
    }
}
impl<'a> Eq for Cursor<'a> {}
impl<'a> Cursor<'a> {
    pub fn empty() -> Self {
        Cursor { pos: 0, end: 0, m: PhantomData }
    }
    pub(crate) fn new(pos: u8, end: u8) -> Self {
        Cursor { pos, end, m: PhantomData }
    }
    pub fn eof(self) -> bool {
        self.pos >= self.end
    }
    /// The token under the cursor; `Tok::NIL` at the end of the scope.
    pub(crate) fn tok(self) -> Tok {
        if self.eof() || self.pos as usize >= CAP {
            Tok::NIL
        } else {
            buf(self.pos)
        }
    }
    fn at(self, pos: u8) -> Self {
        Cursor { pos, end: self.end, m: PhantomData }
    }
    pub fn ident(self) -> Option<(Ident, Cursor<'a>)> {
        let t = self.tok();
        if t.k() == K_IDENT { Some((Ident { tok: t }, self.at(self.pos + 1))) } else { None }
    }
    pub(crate) fn peek_keyword(self, token: &str) -> bool {
        let t = self.tok();
        t.k() == K_IDENT && t.x() == 0 && t.t().eq_str(token)
    }
    pub fn punct(self) -> Option<(Punct, Cursor<'a>)> {
        let t = self.tok();
        if t.k() == K_PUNCT && t.x() != b'\'' { Some((Punct(t), self.at(self.pos + 1))) } else { None }
    }
    pub(crate) fn peek_punct(self, token: &str) -> bool {
        let b = token.as_bytes();
        let mut c = self;
        let mut i = 0;
        while i < b.len() {
            let t = c.tok();
            if t.k() != K_PUNCT || t.x() != b[i] {
                return false;
            }
            if i == b.len() - 1 {
                return true;
            }
            if t.y() == 0 {
                return false;
            }
            c = c.at(c.pos + 1);
            i += 1;
        }
        false
    }
    pub fn literal(self) -> Option<(Literal, Cursor<'a>)> {
        let t = self.tok();
        if t.k() == K_LIT { Some((Literal(t), self.at(self.pos + 1))) } else { None }
    }
    pub fn any_group(self) -> Option<(Cursor<'a>, Delimiter, DelimSpan, Cursor<'a>)> {
        let t = self.tok();
        if t.k() == K_OPEN {
            let close = self.pos + t.y();
            let csp = if (close as usize) < CAP { buf(close).sp() } else { CALL_SITE };
            Some((
                Cursor::new(self.pos + 1, close),
                Delimiter::from_code(t.x()),
                DelimSpan { open: Span(t.sp()), close: Span(csp) },
                self.at(close + 1),
            ))
        } else {
            None
        }
    }
    pub fn group(self, d: Delimiter) -> Option<(Cursor<'a>, DelimSpan, Cursor<'a>)> {
        match self.any_group() {
            Some((inside, delim, span, rest)) if delim == d => Some((inside, span, rest)),
            _ => None,
        }
    }
    pub fn skip(self) -> Option<Cursor<'a>> {
        if self.eof() {
            return None;
        }
        let t = self.tok();
        let n = if t.k() == K_OPEN { t.y() + 1 } else { 1 };
        Some(self.at(self.pos + n))
    }
    pub fn token_tree(self) -> Option<(TokenTree, Cursor<'a>)> {
        let t = self.tok();
        if self.eof() {
            None
        } else if t.k() == K_IDENT {
            Some((TokenTree::Ident(Ident { tok: t }), self.at(self.pos + 1)))
        } else if t.k() == K_PUNCT {
            Some((TokenTree::Punct(Punct(t)), self.at(self.pos + 1)))
        } else if t.k() == K_LIT {
            Some((TokenTree::Literal(Literal(t)), self.at(self.pos + 1)))
        } else {
            let (inside, delim, span, rest) = self.any_group()?;
            Some((
                TokenTree::Group(Group { delim, open: span.open, close: span.close, stream: inside.token_stream() }),
                rest,
            ))
        }
    }
    pub fn token_stream(self) -> TokenStream {
        let mut stream = TokenStream::new();
        let mut i = self.pos;
        while i < self.end {
            stream.push(buf(i));
            i += 1;
        }
        stream
    }
    pub fn span(self) -> Span {
        let i = if self.pos < self.end { self.pos } else { self.end };
        if (i as usize) < CAP {
            Span(buf(i).sp())
        } else {
            Span::call_site()
        }
    }
}
