//! Model of `proc_macro2` for the derives themselves: what they generate is opaque (a token
//! stream only remembers whether it holds a compile error); what they read is exact.
use mstd::model_prelude::*;
use mstd::string::SW;
use std::fmt;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Span(pub u8);
pub const CALL_SITE: u8 = 255;
impl Span {
    pub fn call_site() -> Self {
        Span(CALL_SITE)
    }
    pub fn mixed_site() -> Self {
        Span(CALL_SITE)
    }
    pub fn resolved_at(&self, _other: Span) -> Span {
        *self
    }
    pub fn located_at(&self, other: Span) -> Span {
        other
    }
    pub fn join(&self, _other: Span) -> Option<Span> {
        Some(*self)
    }
    pub fn m_join(&self, other: Span) -> Option<Span> {
        self.join(other)
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Spacing {
    Alone,
    Joint,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Delimiter {
    Parenthesis,
    Brace,
    Bracket,
    None,
}

/// Longest text the model holds, in bytes.
pub const TXT: usize = 16;
/// Short text, packed (first byte lowest; unused bytes are zero).
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Txt {
    pub len: u8,
    pub w: u128,
}
impl Txt {
    pub const EMPTY: Txt = Txt { len: 0, w: 0 };
    pub fn new(s: &str) -> Txt {
        match Txt::pack(s.as_bytes()) {
            Some(w) => Txt { len: s.len() as u8, w },
            None => panic!("MODEL-LIMIT: text too long"),
        }
    }
    fn pack(s: &[u8]) -> Option<u128> {
        let n = s.len();
        if n > TXT {
            return None;
        }
        let mut w = 0;
        macro_rules! at {
            ($($i:literal)*) => {$(
                if n > $i {
                    w |= (s[$i] as u128) << (8 * $i);
                }
            )*};
        }
        at!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15);
        Some(w)
    }
    pub fn eq_bytes(&self, s: &[u8]) -> bool {
        match Txt::pack(s) {
            Some(w) => s.len() == self.len as usize && w == self.w,
            None => false,
        }
    }
    pub fn string(&self, raw: bool) -> String {
        if raw {
            String::from_packed(0x2372 as SW | (self.w as SW) << 16, 2 + self.len as usize)
        } else {
            String::from_packed(self.w as SW, self.len as usize)
        }
    }
}

/// The texts of the definition's identifiers: they are symbolic, and kept out of the syntax
/// tree so that the tree itself is constant.
pub static mut SLOTS: [Txt; 64] = [Txt { len: 0x33, w: 0x9e37_79b9 }; 64];
pub const NO_SLOT: u8 = 255;
pub static mut RAWS: [bool; 64] = [true; 64];
#[derive(Clone, Copy)]
pub struct Ident {
    pub slot: u8,
    pub t: Txt,
    pub r: u8,
    pub sp: u8,
}
impl Ident {
    pub const fn at(slot: u8) -> Self {
        Ident { slot, t: Txt::EMPTY, r: 0, sp: slot }
    }
    pub fn of(t: Txt, raw: bool, sp: u8) -> Self {
        Ident { slot: NO_SLOT, t, r: raw as u8, sp }
    }
    pub fn new(s: &str, span: Span) -> Self {
        Ident::of(Txt::new(s), false, span.0)
    }
    pub fn new_raw(s: &str, span: Span) -> Self {
        Ident::of(Txt::new(s), true, span.0)
    }
    pub fn text(&self) -> Txt {
        if self.slot == NO_SLOT { self.t } else { unsafe { SLOTS[self.slot as usize] } }
    }
    pub fn is_raw(&self) -> bool {
        if self.slot == NO_SLOT { self.r != 0 } else { unsafe { RAWS[self.slot as usize] } }
    }
    pub fn span(&self) -> Span {
        Span(self.sp)
    }
    pub fn set_span(&mut self, span: Span) {
        self.sp = span.0;
    }
    #[allow(clippy::inherent_to_string_shadow_display)]
    pub fn to_string(&self) -> String {
        self.text().string(self.is_raw())
    }
}
impl MToString for Ident {
    fn m_to_string(&self) -> String {
        self.to_string()
    }
}
impl PartialEq for Ident {
    fn eq(&self, o: &Ident) -> bool {
        self.text() == o.text() && self.is_raw() == o.is_raw()
    }
}
impl Eq for Ident {}
impl PartialOrd for Ident {
    fn partial_cmp(&self, o: &Ident) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Ident {
    fn cmp(&self, o: &Ident) -> std::cmp::Ordering {
        self.to_string().cmp(&o.to_string())
    }
}
impl std::hash::Hash for Ident {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.to_string().hash(h)
    }
}
impl<T: ?Sized + AsRef<str>> PartialEq<T> for Ident {
    fn eq(&self, o: &T) -> bool {
        let o = o.as_ref().as_bytes();
        if o.len() >= 2 && o[0] == b'r' && o[1] == b'#' {
            self.is_raw() && self.text().eq_bytes(&o[2..])
        } else {
            !self.is_raw() && self.text().eq_bytes(o)
        }
    }
}
impl fmt::Display for Ident {
    fn fmt(&self, _f: &mut fmt::Formatter<'_>) -> fmt::Result {
        Ok(())
    }
}
impl fmt::Debug for Ident {
    fn fmt(&self, _f: &mut fmt::Formatter<'_>) -> fmt::Result {
        Ok(())
    }
}

#[derive(Clone, Debug)]
pub struct TokenTree {
    err: bool,
}
/// Whether the query leaves the generation of code out.
pub static mut CUT: bool = false;
pub fn cut() -> bool {
    unsafe { CUT }
}
/// Opaque, but for whether it holds a compile error.
#[derive(Clone, Debug, Default)]
pub struct TokenStream {
    pub err: bool,
}
impl TokenStream {
    pub fn new() -> Self {
        TokenStream { err: false }
    }
    pub fn is_empty(&self) -> bool {
        #[cfg(kani)]
        return kani::any();
        #[cfg(not(kani))]
        return false;
    }
}
impl Extend<TokenTree> for TokenStream {
    fn extend<I: IntoIterator<Item = TokenTree>>(&mut self, it: I) {
        for t in it {
            self.err |= t.err;
        }
    }
}
impl Extend<TokenStream> for TokenStream {
    fn extend<I: IntoIterator<Item = TokenStream>>(&mut self, it: I) {
        for t in it {
            self.err |= t.err;
        }
    }
}
impl IntoIterator for TokenStream {
    type Item = TokenTree;
    type IntoIter = std::option::IntoIter<TokenTree>;
    fn into_iter(self) -> Self::IntoIter {
        Some(TokenTree { err: self.err }).into_iter()
    }
}
impl FromIterator<TokenStream> for TokenStream {
    fn from_iter<I: IntoIterator<Item = TokenStream>>(it: I) -> Self {
        let mut r = TokenStream::new();
        r.extend(it);
        r
    }
}
impl fmt::Display for TokenStream {
    fn fmt(&self, _f: &mut fmt::Formatter<'_>) -> fmt::Result {
        Ok(())
    }
}
