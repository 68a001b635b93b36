//! `#[derive(Parse)]` and `#[derive(ToTokens)]`: a reference parser built from combinators,
//! how values are observed, and the queries.
use crate::wit::*;
use crate::world::*;
#[cfg(not(real))]
use mstd::model_prelude::*;
use proc_macro2::extra::DelimSpan;
use proc_macro2::TokenStream;
use quote::ToTokens;
use syn::parse::Parse;
use syn::punctuated::Punctuated;
use syn::{LitInt, LitStr, MacroDelimiter, Token};

pub const ID: u8 = 1; // an identifier that is no keyword
pub const ANYID: u8 = 2;
pub const NUM: u8 = 3;
pub const STR: u8 = 4;

/// What a value consists of: positions of its tokens, in the order of its fields.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Got {
    pub n: u8,
    pub w: u128,
}
impl Got {
    pub const NEW: Got = Got { n: 0, w: 0 };
    pub fn push(&mut self, v: u8) {
        self.w = self.w << 8 | v as u128;
        self.n += 1;
    }
}
pub const NONE: u8 = 250;
pub const SOME: u8 = 251;
pub const VARIANT: u8 = 200;

/// The state of the reference parser.
#[derive(Clone, Copy)]
pub struct R<'a> {
    pub ts: &'a Toks,
    pub pos: usize,
    pub end: usize,
    /// Some group was closed although tokens were left in it.
    pub left: bool,
    pub out: Got,
}
const fn pk(s: &[u8]) -> (u8, u32) {
    let mut w = 0;
    let mut i = 0;
    while i < s.len() {
        w |= (s[i] as u32) << (8 * i as u32);
        i += 1;
    }
    (s.len() as u8, w)
}
fn is(t: W, s: &[u8]) -> bool {
    let (l, w) = pk(s);
    t.k == K_IDENT && t.x == 0 && t.tl == l && t.w == w
}
/// Words of at most four characters that are no identifiers.
fn keyword(t: W) -> bool {
    is(t, b"_") || is(t, b"as") || is(t, b"box") || is(t, b"do") || is(t, b"dyn") || is(t, b"else") || is(t, b"enum")
        || is(t, b"fn") || is(t, b"for") || is(t, b"if") || is(t, b"impl") || is(t, b"in") || is(t, b"let")
        || is(t, b"loop") || is(t, b"mod") || is(t, b"move") || is(t, b"mut") || is(t, b"priv") || is(t, b"pub")
        || is(t, b"ref") || is(t, b"Self") || is(t, b"self") || is(t, b"true") || is(t, b"try") || is(t, b"type")
        || is(t, b"use")
}
impl<'a> R<'a> {
    pub fn new(ts: &'a Toks) -> Self {
        R { ts, pos: 0, end: ts.len, left: false, out: Got::NEW }
    }
    fn cur(&self) -> W {
        self.ts.at(self.pos, self.end)
    }
    /// The token tree `k` places ahead starts here.
    fn ahead(&self, k: usize) -> usize {
        let mut p = self.pos;
        let mut i = 0;
        while i < k {
            let t = self.ts.at(p, self.end);
            if p >= self.end {
                return CAP;
            }
            p += if t.k == K_OPEN { t.y as usize + 1 } else { 1 };
            i += 1;
        }
        p
    }
    fn leaf_at(&self, p: usize, kind: u8) -> bool {
        let t = self.ts.at(p, self.end);
        match kind {
            ID => t.k == K_IDENT && (t.x == 1 || !keyword(t)),
            ANYID => t.k == K_IDENT,
            NUM => t.k == K_LIT && t.x == 0,
            _ => t.k == K_LIT && t.x == 1,
        }
    }
    fn punct_at(&self, p: usize, s: &[u8]) -> bool {
        let mut i = 0;
        while i < s.len() {
            let t = self.ts.at(p + i, self.end);
            if t.k != K_PUNCT || t.x != s[i] || (i + 1 < s.len() && t.y == 0) {
                return false;
            }
            i += 1;
        }
        true
    }
    fn kw_at(&self, p: usize, s: &[u8]) -> bool {
        is(self.ts.at(p, self.end), s)
    }
    fn open_at(&self, p: usize, d: u8) -> bool {
        let t = self.ts.at(p, self.end);
        t.k == K_OPEN && t.x == d
    }
    pub fn p_leaf(&self, k: usize, kind: u8) -> bool {
        self.leaf_at(self.ahead(k), kind)
    }
    pub fn p_punct(&self, k: usize, s: &[u8]) -> bool {
        self.punct_at(self.ahead(k), s)
    }
    pub fn p_kw(&self, k: usize, s: &[u8]) -> bool {
        self.kw_at(self.ahead(k), s)
    }
    pub fn p_open(&self, k: usize, d: u8) -> bool {
        self.open_at(self.ahead(k), d)
    }
    fn take(&mut self, ok: bool, n: usize) -> Option<()> {
        if ok {
            self.out.push(self.pos as u8);
            self.pos += n;
            Some(())
        } else {
            None
        }
    }
    pub fn leaf(&mut self, kind: u8) -> Option<()> {
        let ok = self.leaf_at(self.pos, kind);
        self.take(ok, 1)
    }
    pub fn punct(&mut self, s: &[u8]) -> Option<()> {
        let ok = self.punct_at(self.pos, s);
        self.take(ok, s.len())
    }
    pub fn kw(&mut self, s: &[u8]) -> Option<()> {
        let ok = self.kw_at(self.pos, s);
        self.take(ok, 1)
    }
    fn opt(&mut self, ok: bool, n: usize) -> Option<()> {
        if ok {
            self.out.push(SOME);
            self.take(true, n)
        } else {
            self.out.push(NONE);
            Some(())
        }
    }
    pub fn opt_leaf(&mut self, kind: u8) -> Option<()> {
        let ok = self.leaf_at(self.pos, kind);
        self.opt(ok, 1)
    }
    pub fn opt_punct(&mut self, s: &[u8]) -> Option<()> {
        let ok = self.punct_at(self.pos, s);
        self.opt(ok, s.len())
    }
    /// Items separated by commas, up to the end of the scope.
    pub fn terminated(&mut self, kind: u8, max: usize) -> Option<()> {
        let mut i = 0;
        while i < max && self.pos < self.end {
            self.out.push(SOME);
            self.leaf(kind)?;
            if self.pos >= self.end {
                break;
            }
            let ok = self.punct_at(self.pos, b",");
            self.take(ok, 1)?;
            i += 1;
        }
        self.out.push(NONE);
        Some(())
    }
    /// Enter a group; returns what `close` needs. `mac`: any of the three delimiters.
    pub fn open(&mut self, d: u8, mac: bool) -> Option<(usize, usize)> {
        let t = self.cur();
        if t.k != K_OPEN || !(mac || t.x == d) {
            return None;
        }
        if mac {
            self.out.push(SOME + 1 + t.x);
        }
        let close = self.pos + t.y as usize;
        self.out.push(self.pos as u8);
        self.out.push(close as u8);
        let end = self.end;
        self.pos += 1;
        self.end = close;
        Some((end, close))
    }
    pub fn close(&mut self, g: (usize, usize)) {
        if self.pos < self.end {
            self.left = true;
        }
        self.pos = g.1 + 1;
        self.end = g.0;
    }
}

/// How a value is observed.
pub trait PO {
    fn po(&self, o: &mut Got);
}
impl PO for proc_macro2::Ident {
    fn po(&self, o: &mut Got) {
        o.push(ix(self.span()));
    }
}
impl PO for LitInt {
    fn po(&self, o: &mut Got) {
        o.push(ix(self.span()));
    }
}
impl PO for LitStr {
    fn po(&self, o: &mut Got) {
        o.push(ix(self.span()));
    }
}
macro_rules! puncts {
    ($($t:ident)*) => {$(
        impl PO for syn::token::$t {
            fn po(&self, o: &mut Got) {
                o.push(ix(self.spans[0]));
            }
        }
    )*};
}
puncts! { Comma Eq Plus Colon PathSep FatArrow Semi Minus RArrow Not EqEq }
macro_rules! kws {
    ($($t:ident)*) => {$(
        impl PO for syn::token::$t {
            fn po(&self, o: &mut Got) {
                o.push(ix(self.span));
            }
        }
    )*};
}
kws! { Fn If In As Pub }
fn ds(s: &DelimSpan, o: &mut Got) {
    o.push(ix(s.open()));
    o.push(ix_close(s.close()));
}
impl PO for syn::token::Paren {
    fn po(&self, o: &mut Got) {
        ds(&self.span, o);
    }
}
impl PO for syn::token::Brace {
    fn po(&self, o: &mut Got) {
        ds(&self.span, o);
    }
}
impl PO for syn::token::Bracket {
    fn po(&self, o: &mut Got) {
        ds(&self.span, o);
    }
}
impl PO for MacroDelimiter {
    fn po(&self, o: &mut Got) {
        match self {
            MacroDelimiter::Paren(t) => {
                o.push(SOME + 1);
                t.po(o);
            }
            MacroDelimiter::Brace(t) => {
                o.push(SOME + 2);
                t.po(o);
            }
            MacroDelimiter::Bracket(t) => {
                o.push(SOME + 3);
                t.po(o);
            }
        }
    }
}
impl<T: PO> PO for Option<T> {
    fn po(&self, o: &mut Got) {
        match self {
            Some(v) => {
                o.push(SOME);
                v.po(o);
            }
            None => o.push(NONE),
        }
    }
}
impl<T: PO, P: PO> PO for Punctuated<T, P> {
    fn po(&self, o: &mut Got) {
        let mut i = 0;
        while i < self.len() {
            o.push(SOME);
            self[i].po(o);
            if let Some(p) = sep(self, i) {
                p.po(o);
            }
            i += 1;
        }
        o.push(NONE);
    }
}

/// The tokens a `to_tokens` must append: built by the harness, compared with the real ones.
pub struct X {
    pub t: Flat,
    open: [u8; 4],
    depth: usize,
}
impl X {
    pub fn new() -> X {
        X { t: Flat { len: 0, t: [(NIL, 0); CAP] }, open: [0; 4], depth: 0 }
    }
    pub fn push(&mut self, w: W, at: u8) {
        self.t.t[self.t.len] = (w, at);
        self.t.len += 1;
    }
    pub fn punct(&mut self, s: &[u8], at: u8) {
        let mut i = 0;
        while i < s.len() {
            self.push(W { k: K_PUNCT, x: s[i], y: (i + 1 < s.len()) as u8, tl: 0, w: 0 }, at);
            i += 1;
        }
    }
    pub fn kw(&mut self, s: &[u8], at: u8) {
        let (tl, w) = pk(s);
        self.push(W { k: K_IDENT, x: 0, y: 0, tl, w }, at);
    }
    pub fn open(&mut self, d: u8, at: u8) {
        self.open[self.depth] = self.t.len as u8;
        self.depth += 1;
        self.push(W { k: K_OPEN, x: d, y: 0, tl: 0, w: 0 }, at);
    }
    pub fn close(&mut self, at: u8) {
        self.depth -= 1;
        let o = self.open[self.depth] as usize;
        let (mut w, p) = self.t.t[o];
        w.y = (self.t.len - o) as u8;
        self.t.t[o] = (w, p);
        self.push(W { k: K_CLOSE, x: w.x, y: 0, tl: 0, w: 0 }, at);
    }
}
/// A flattened token stream: tokens and their locations.
#[derive(Clone, Copy)]
pub struct Flat {
    pub len: usize,
    pub t: [(W, u8); CAP],
}
/// Equal up to the spacing of punctuation, if `spacing` is false.
pub fn same(a: &Flat, b: &Flat, n: usize, spacing: bool) -> bool {
    let mut ok = a.len == b.len;
    let mut i = 0;
    while i < n {
        if i < a.len {
            let (mut x, p) = a.t[i];
            let (mut y, q) = b.t[i];
            if !spacing && x.k == K_PUNCT && y.k == K_PUNCT {
                x.y = 0;
                y.y = 0;
            }
            ok = ok && x == y && p == q;
        }
        i += 1;
    }
    ok
}
pub fn flat_of(ts: &Toks, n: usize) -> Flat {
    let mut f = Flat { len: ts.len, t: [(NIL, 0); CAP] };
    let mut i = 0;
    while i < n {
        f.t[i] = (ts.t[i], i as u8);
        i += 1;
    }
    f
}

#[cfg(kani)]
pub fn pcheck<T: Parse + PO>(f: impl Fn(&mut R) -> Option<()>, n: usize, depth: usize, delims: u8, frame: &[u64]) {
    let ts = any_toks(n, depth, delims, frame);
    let mut r = R::new(&ts);
    let ok = f(&mut r).is_some() && !r.left && r.pos == r.end;
    let v = syn::parse2::<T>(build(&ts));
    kani::cover!(v.is_ok(), "ACCEPTED");
    kani::cover!(v.is_err(), "REJECTED");
    match v {
        Ok(v) => {
            assert!(ok, "CLAIM: accepted an input that must be rejected");
            let mut o = Got::NEW;
            v.po(&mut o);
            assert!(o == r.out, "CLAIM: wrong value");
        }
        Err(_) => assert!(!ok, "CLAIM: rejected an input that must be accepted"),
    }
}
/// Every accepted stream is reproduced.
#[cfg(kani)]
pub fn rcheck<T: Parse + ToTokens>(n: usize, depth: usize, delims: u8, frame: &[u64]) {
    let ts = any_toks(n, depth, delims, frame);
    if let Ok(v) = syn::parse2::<T>(build(&ts)) {
        kani::cover!(true, "REACHED");
        let mut s = TokenStream::new();
        v.to_tokens(&mut s);
        assert!(same(&flat(&s), &flat_of(&ts, n), n, false), "CLAIM: other tokens than those parsed");
    }
}
#[cfg(real)]
pub fn pcheck<T: Parse + PO>(f: impl Fn(&mut R) -> Option<()>, n: usize, depth: usize, _delims: u8, _frame: &[u64], wit: &[u64]) -> Result<String, String> {
    let ts = toks_of(wit, n, depth);
    let mut r = R::new(&ts);
    let ok = f(&mut r).is_some() && !r.left && r.pos == r.end;
    let shown = build(&ts).to_string();
    let v = match std::panic::catch_unwind(|| syn::parse2::<T>(build(&ts))) {
        Ok(v) => v,
        Err(_) => return Err(format!("panics on `{shown}`")),
    };
    let want = if ok { format!("{:x}", r.out.w) } else { "rejection".into() };
    let (got, good) = match v {
        Ok(v) => {
            let mut o = Got::NEW;
            v.po(&mut o);
            (format!("{:x}", o.w), ok && o == r.out)
        }
        Err(e) => (format!("rejection: {e}"), !ok),
    };
    let m = format!("input `{shown}`: expected {want}; got {got}");
    if good { Ok(m) } else { Err(m) }
}
#[cfg(real)]
pub fn rcheck<T: Parse + ToTokens>(n: usize, depth: usize, _delims: u8, _frame: &[u64], wit: &[u64]) -> Result<String, String> {
    let ts = toks_of(wit, n, depth);
    let shown = build(&ts).to_string();
    match syn::parse2::<T>(build(&ts)) {
        Err(_) => Ok(format!("`{shown}` is rejected")),
        Ok(v) => {
            let mut s = TokenStream::new();
            v.to_tokens(&mut s);
            let m = format!("`{shown}` parsed and printed: `{s}`");
            if same(&flat(&s), &flat_of(&ts, n), n, false) { Ok(m) } else { Err(m) }
        }
    }
}

// ---------------------------------------------------------------- values built by hand
/// Symbolic choices (presence, variants, texts), recorded in the witness.
#[cfg(kani)]
pub struct Src {
    i: usize,
}
#[cfg(kani)]
impl Src {
    pub fn new() -> Src {
        unsafe { WIT[0] = CAP as u64 };
        Src { i: 0 }
    }
    fn next(&mut self) -> u64 {
        let v: u64 = kani::any();
        self.i += 1;
        unsafe {
            WIT[self.i] = v;
            WIT[self.i]
        }
    }
    fn reject(&self, ok: bool) {
        kani::assume(ok);
    }
}
#[cfg(not(kani))]
pub struct Src {
    i: usize,
    w: Vec<u64>,
}
#[cfg(real)]
impl Src {
    pub fn new(w: &[u64]) -> Src {
        Src { i: 0, w: w.to_vec() }
    }
    fn next(&mut self) -> u64 {
        self.i += 1;
        self.w.get(self.i).copied().unwrap_or(0)
    }
    fn reject(&self, ok: bool) {
        if !ok {
            println!("MALFORMED");
            std::process::exit(3);
        }
    }
}
#[cfg(any(kani, real))]
impl Src {
    pub fn choose(&mut self, n: u64) -> u8 {
        let v = self.next();
        self.reject(v < n);
        v as u8
    }
    pub fn ident(&mut self) -> W {
        let v = self.next();
        let t = unpack(v);
        self.reject(t.k == K_IDENT && valid_ident(t));
        t
    }
}
#[cfg(kani)]
pub fn tcheck<T: ToTokens>(f: impl Fn(&mut Src, &mut X) -> T) {
    let mut src = Src::new();
    let mut x = X::new();
    let v = f(&mut src, &mut x);
    kani::cover!(true, "REACHED");
    let mut s = TokenStream::new();
    v.to_tokens(&mut s);
    assert!(same(&flat(&s), &x.t, CAP, true), "CLAIM: wrong tokens");
}
#[cfg(real)]
pub fn tcheck<T: ToTokens>(f: impl Fn(&mut Src, &mut X) -> T, wit: &[u64]) -> Result<String, String> {
    let mut src = Src::new(wit);
    let mut x = X::new();
    let v = f(&mut src, &mut x);
    let mut s = TokenStream::new();
    v.to_tokens(&mut s);
    let m = format!("printed: `{s}`, expected {:?}", &x.t.t[..x.t.len]);
    if same(&flat(&s), &x.t, CAP, true) { Ok(m) } else { Err(m) }
}
