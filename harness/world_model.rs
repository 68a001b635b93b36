//! The model environment.
use crate::spec::*;
use crate::wit::*;
pub use ::std::collections::HashMap;
pub use mstd::model_prelude::*;
use proc_macro2::{Span, Tok, TokenStream, Txt};

pub fn ix(s: Span) -> u8 {
    s.0
}
pub fn build(ts: &Toks) -> TokenStream {
    let mut r = TokenStream::new();
    let mut i = 0;
    while i < CAP {
        let t = ts.t[i];
        r.toks[i] = Tok::new(t.k, t.x, t.y, i as u8, Txt { len: t.tl, w: t.w as proc_macro2::TW });
        i += 1;
    }
    r.len = ts.len;
    r
}
/// Skip one token tree.
pub fn skip_tt(input: syn::parse::ParseStream) -> syn::Result<()> {
    input.step(|c| match c.skip() {
        Some(rest) => Ok(((), rest)),
        None => Err(c.error("expected token tree")),
    })
}
pub fn key(s: &String) -> u64 {
    s.packed() as u64
}
pub fn rest<V: Ob>(m: &HashMap<String, V>, o: &mut Obs) {
    let (k, v) = m.slices();
    let mut i = 0;
    while i < k.len() {
        if i < NR {
            o.rk[i] = key(&k[i]);
            o.rv[i] = v[i].ob();
        }
        i += 1;
    }
    o.rn = k.len();
}
use crate::leaf::Ob;
// ---- for the Parse and ToTokens derives
use crate::pleaf::Flat;
pub fn ix_close(s: Span) -> u8 {
    s.0
}
pub fn sp(i: u8) -> Span {
    Span(i)
}
pub fn mk_ident(t: W, i: u8) -> proc_macro2::Ident {
    proc_macro2::Ident { tok: Tok::new(t.k, t.x, t.y, i, Txt { len: t.tl, w: t.w as proc_macro2::TW }) }
}
pub fn mk_num(i: u8) -> syn::LitInt {
    syn::LitInt { lit: proc_macro2::Literal(Tok::lit(0, Txt::EMPTY, i)) }
}
pub fn mk_str(i: u8) -> syn::LitStr {
    syn::LitStr { lit: proc_macro2::Literal(Tok::lit(1, Txt::EMPTY, i)) }
}
pub fn mk_ds(i: u8, j: u8) -> proc_macro2::extra::DelimSpan {
    proc_macro2::extra::DelimSpan { open: Span(i), close: Span(j) }
}
pub fn sep<T, P>(p: &syn::punctuated::Punctuated<T, P>, i: usize) -> Option<&P> {
    p.seps().get(i)
}
pub fn flat(s: &TokenStream) -> Flat {
    let mut f = Flat { len: s.len, t: [(NIL, 0); CAP] };
    let mut i = 0;
    while i < CAP {
        let t = s.toks[i];
        f.t[i] = (W { k: t.k(), x: t.x(), y: t.y(), tl: t.t().len, w: t.t().w as u32 }, t.sp());
        i += 1;
    }
    f
}
