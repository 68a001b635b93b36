//! Model of the `proc_macro2` API used by structmeta, in a form a bounded model
//! checker can digest: tokens live in a flat, fixed-width array; a span is the
//! index of the token it covers.
use mstd::model_prelude::*;
use mstd::string::SW;
use std::fmt;

/// A packed token, from the lowest bit: kind (3 bits), length of the text (5), `x` (8),
/// `y` (8), span (8), text (the rest, first byte lowest, unused bytes zero).
#[cfg(not(feature = "wide"))]
pub type P = u64;
#[cfg(not(feature = "wide"))]
pub type TW = u32;
/// Longest identifier / literal text the model can hold, in bytes.
#[cfg(not(feature = "wide"))]
pub const TXT: usize = 4;
#[cfg(feature = "wide")]
pub type P = u128;
#[cfg(feature = "wide")]
pub type TW = u128;
#[cfg(feature = "wide")]
pub const TXT: usize = 12;
/// Longest token stream the model can hold.
pub const CAP: usize = 16;

pub const K_IDENT: u8 = 0;
pub const K_PUNCT: u8 = 1;
pub const K_LIT: u8 = 2;
pub const K_OPEN: u8 = 3;
pub const K_CLOSE: u8 = 4;

pub const L_INT: u8 = 0;
pub const L_STR: u8 = 1;
pub const L_FLOAT: u8 = 2;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Span(pub u8);
pub const CALL_SITE: u8 = 255;
impl Span {
    pub fn call_site() -> Self {
        Span(CALL_SITE)
    }
    pub fn mixed_site() -> Self {
        Span(CALL_SITE)
    }
    pub fn resolved_at(&self, _other: Span) -> Span {
        *self
    }
    pub fn located_at(&self, other: Span) -> Span {
        other
    }
    pub fn join(&self, _other: Span) -> Option<Span> {
        None
    }
    pub fn m_join(&self, other: Span) -> Option<Span> {
        self.join(other)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Spacing {
    Alone,
    Joint,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Delimiter {
    Parenthesis,
    Brace,
    Bracket,
    None,
}
impl Delimiter {
    pub fn code(self) -> u8 {
        match self {
            Delimiter::Parenthesis => 0,
            Delimiter::Brace => 1,
            Delimiter::Bracket => 2,
            Delimiter::None => 3,
        }
    }
    pub fn from_code(c: u8) -> Self {
        match c {
            0 => Delimiter::Parenthesis,
            1 => Delimiter::Brace,
            2 => Delimiter::Bracket,
            _ => Delimiter::None,
        }
    }
}

/// Short text, packed (first byte lowest; unused bytes are zero).
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Txt {
    pub len: u8,
    pub w: TW,
}
impl Txt {
    pub const EMPTY: Txt = Txt { len: 0, w: 0 };
    pub fn new(s: &str) -> Txt {
        match Txt::pack(s.as_bytes()) {
            Some(w) => Txt { len: s.len() as u8, w },
            None => panic!("MODEL-LIMIT: text too long"),
        }
    }
    fn pack(s: &[u8]) -> Option<TW> {
        let n = s.len();
        if n > TXT {
            return None;
        }
        let mut w: TW = 0;
        macro_rules! at {
            ($($i:literal)*) => {$(
                if n > $i {
                    w |= (s[$i] as TW) << (8 * $i);
                }
            )*};
        }
        at!(0 1 2 3);
        #[cfg(feature = "wide")]
        {
            at!(4 5 6 7 8 9 10 11);
        }
        Some(w)
    }
    pub fn byte(&self, i: u32) -> u8 {
        (self.w >> (8 * i)) as u8
    }
    pub fn eq_str(&self, s: &str) -> bool {
        self.eq_bytes(s.as_bytes())
    }
    pub fn eq_bytes(&self, s: &[u8]) -> bool {
        match Txt::pack(s) {
            Some(w) => s.len() == self.len as usize && w == self.w,
            None => false,
        }
    }
    pub fn to_string(&self) -> String {
        self.string(false)
    }
    /// The text as a `String`, with an `r#` prefix if asked for.
    pub fn string(&self, raw: bool) -> String {
        if raw {
            String::from_packed((0x2372 as SW) | (self.w as SW) << 16, 2 + self.len as usize)
        } else {
            String::from_packed(self.w as SW, self.len as usize)
        }
    }
}

/// One token. `x`: raw flag / char / literal kind / delimiter. `y`: joint flag, or for
/// an opening delimiter the distance to its closing one.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Tok(pub P);
impl Tok {
    pub const NIL: Tok = Tok(K_CLOSE as P | 3 << 8 | (CALL_SITE as P) << 24);
    #[inline]
    pub fn new(k: u8, x: u8, y: u8, sp: u8, t: Txt) -> Tok {
        Tok(k as P | (t.len as P) << 3 | (x as P) << 8 | (y as P) << 16 | (sp as P) << 24 | (t.w as P) << 32)
    }
    #[inline]
    pub fn k(self) -> u8 {
        (self.0 & 7) as u8
    }
    #[inline]
    pub fn x(self) -> u8 {
        (self.0 >> 8) as u8
    }
    #[inline]
    pub fn y(self) -> u8 {
        (self.0 >> 16) as u8
    }
    #[inline]
    pub fn sp(self) -> u8 {
        (self.0 >> 24) as u8
    }
    #[inline]
    pub fn t(self) -> Txt {
        Txt { len: (self.0 >> 3) as u8 & 31, w: (self.0 >> 32) as TW }
    }
    #[inline]
    fn with_sp(self, sp: u8) -> Tok {
        Tok(self.0 & !(255 << 24) | (sp as P) << 24)
    }
    /// Equal but for location.
    #[inline]
    pub fn same(self, o: Tok) -> bool {
        (self.0 ^ o.0) & !(255 << 24) == 0
    }
    pub fn ident(t: Txt, raw: bool, sp: u8) -> Tok {
        Tok::new(K_IDENT, raw as u8, 0, sp, t)
    }
    pub fn punct(c: u8, joint: bool, sp: u8) -> Tok {
        Tok::new(K_PUNCT, c, joint as u8, sp, Txt::EMPTY)
    }
    pub fn lit(kind: u8, t: Txt, sp: u8) -> Tok {
        Tok::new(K_LIT, kind, 0, sp, t)
    }
}

#[derive(Clone, Copy)]
pub struct Ident {
    pub tok: Tok,
}
impl Ident {
    pub fn new(s: &str, span: Span) -> Self {
        Ident { tok: Tok::ident(Txt::new(s), false, span.0) }
    }
    pub fn new_raw(s: &str, span: Span) -> Self {
        Ident { tok: Tok::ident(Txt::new(s), true, span.0) }
    }
    pub fn raw(&self) -> bool {
        self.tok.x() != 0
    }
    pub fn txt(&self) -> Txt {
        self.tok.t()
    }
    pub fn span(&self) -> Span {
        Span(self.tok.sp())
    }
    pub fn set_span(&mut self, span: Span) {
        self.tok = self.tok.with_sp(span.0);
    }
    // Shadows `ToString::to_string`, keeping the formatting machinery out of the encoding.
    #[allow(clippy::inherent_to_string_shadow_display)]
    pub fn to_string(&self) -> String {
        self.txt().string(self.raw())
    }
}
impl MToString for Ident {
    fn m_to_string(&self) -> String {
        self.to_string()
    }
}
impl PartialEq for Ident {
    fn eq(&self, o: &Ident) -> bool {
        self.tok.same(o.tok)
    }
}
impl Eq for Ident {}
impl PartialOrd for Ident {
    fn partial_cmp(&self, o: &Ident) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Ident {
    fn cmp(&self, o: &Ident) -> std::cmp::Ordering {
        self.to_string().cmp(&o.to_string())
    }
}
impl std::hash::Hash for Ident {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.to_string().hash(h)
    }
}
impl<T: ?Sized + AsRef<str>> PartialEq<T> for Ident {
    fn eq(&self, o: &T) -> bool {
        let o = o.as_ref().as_bytes();
        if o.len() >= 2 && o[0] == b'r' && o[1] == b'#' {
            self.raw() && self.txt().eq_bytes(&o[2..])
        } else {
            !self.raw() && self.txt().eq_bytes(o)
        }
    }
}
impl fmt::Display for Ident {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if self.raw() {
            f.write_str("r#")?;
        }
        f.write_str(self.txt().string(false).as_str())
    }
}
impl fmt::Debug for Ident {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Ident")
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Punct(pub Tok);
impl Punct {
    pub fn new(c: char, spacing: Spacing) -> Self {
        Punct(Tok::punct(c as u8, spacing == Spacing::Joint, CALL_SITE))
    }
    pub fn as_char(&self) -> char {
        self.0.x() as char
    }
    pub fn spacing(&self) -> Spacing {
        if self.0.y() != 0 { Spacing::Joint } else { Spacing::Alone }
    }
    pub fn span(&self) -> Span {
        Span(self.0.sp())
    }
    pub fn set_span(&mut self, sp: Span) {
        self.0 = self.0.with_sp(sp.0);
    }
}
#[derive(Clone, Copy, Debug)]
pub struct Literal(pub Tok);
impl Literal {
    pub fn kind(&self) -> u8 {
        self.0.x()
    }
    pub fn span(&self) -> Span {
        Span(self.0.sp())
    }
    pub fn set_span(&mut self, sp: Span) {
        self.0 = self.0.with_sp(sp.0);
    }
}
#[derive(Clone, Debug)]
pub struct Group {
    pub delim: Delimiter,
    pub open: Span,
    pub close: Span,
    pub stream: TokenStream,
}
impl Group {
    pub fn new(delim: Delimiter, stream: TokenStream) -> Self {
        Group { delim, open: Span::call_site(), close: Span::call_site(), stream }
    }
    pub fn delimiter(&self) -> Delimiter {
        self.delim
    }
    pub fn stream(&self) -> TokenStream {
        self.stream.clone()
    }
    pub fn span(&self) -> Span {
        self.open
    }
    pub fn span_open(&self) -> Span {
        self.open
    }
    pub fn span_close(&self) -> Span {
        self.close
    }
    pub fn set_span(&mut self, sp: Span) {
        self.open = sp;
        self.close = sp;
    }
}
#[derive(Clone, Debug)]
pub enum TokenTree {
    Group(Group),
    Ident(Ident),
    Punct(Punct),
    Literal(Literal),
}
impl TokenTree {
    pub fn span(&self) -> Span {
        match self {
            TokenTree::Group(t) => t.span(),
            TokenTree::Ident(t) => t.span(),
            TokenTree::Punct(t) => t.span(),
            TokenTree::Literal(t) => t.span(),
        }
    }
}
impl From<Ident> for TokenTree {
    fn from(t: Ident) -> Self {
        TokenTree::Ident(t)
    }
}
impl From<Punct> for TokenTree {
    fn from(t: Punct) -> Self {
        TokenTree::Punct(t)
    }
}
impl From<Literal> for TokenTree {
    fn from(t: Literal) -> Self {
        TokenTree::Literal(t)
    }
}
impl From<Group> for TokenTree {
    fn from(t: Group) -> Self {
        TokenTree::Group(t)
    }
}

pub mod extra {
    use super::Span;
    #[derive(Clone, Copy, Debug)]
    pub struct DelimSpan {
        pub open: Span,
        pub close: Span,
    }
    impl DelimSpan {
        pub fn open(&self) -> Span {
            self.open
        }
        pub fn close(&self) -> Span {
            self.close
        }
        pub fn join(&self) -> Span {
            self.open
        }
        pub fn m_join(&self) -> Span {
            self.open
        }
    }
}

/// Flat token stream: groups are an opening token, the contents, a closing token.
#[derive(Clone, Debug)]
pub struct TokenStream {
    pub len: usize,
    pub toks: [Tok; CAP],
}
impl Default for TokenStream {
    fn default() -> Self {
        Self::new()
    }
}
impl TokenStream {
    pub fn new() -> Self {
        TokenStream { len: 0, toks: [Tok::NIL; CAP] }
    }
    pub fn is_empty(&self) -> bool {
        self.len == 0
    }
    pub fn push(&mut self, t: Tok) {
        assert!(self.len < CAP, "MODEL-LIMIT: token stream capacity");
        self.toks[self.len] = t;
        self.len += 1;
    }
    pub fn push_stream(&mut self, o: &TokenStream) {
        let mut i = 0;
        while i < o.len {
            self.push(o.toks[i]);
            i += 1;
        }
    }
    /// Append a delimited group with the given contents.
    pub fn push_group(&mut self, delim: Delimiter, open: Span, close: Span, inner: &TokenStream) {
        self.push(Tok::new(K_OPEN, delim.code(), (inner.len + 1) as u8, open.0, Txt::EMPTY));
        self.push_stream(inner);
        self.push(Tok::new(K_CLOSE, delim.code(), 0, close.0, Txt::EMPTY));
    }
    pub fn push_tree(&mut self, t: TokenTree) {
        match t {
            TokenTree::Ident(Ident { tok: t }) | TokenTree::Punct(Punct(t)) | TokenTree::Literal(Literal(t)) => self.push(t),
            TokenTree::Group(g) => self.push_group(g.delim, g.open, g.close, &g.stream),
        }
    }
}
impl Extend<TokenTree> for TokenStream {
    fn extend<I: IntoIterator<Item = TokenTree>>(&mut self, it: I) {
        for t in it {
            self.push_tree(t);
        }
    }
}
impl Extend<TokenStream> for TokenStream {
    fn extend<I: IntoIterator<Item = TokenStream>>(&mut self, it: I) {
        for t in it {
            self.push_stream(&t);
        }
    }
}
impl From<TokenTree> for TokenStream {
    fn from(t: TokenTree) -> Self {
        let mut s = TokenStream::new();
        s.push_tree(t);
        s
    }
}
