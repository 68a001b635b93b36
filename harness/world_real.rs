//! The real crates.
use crate::leaf::Ob;
use crate::spec::*;
use crate::wit::*;
pub use proc_macro2::*;
pub use std::collections::HashMap;
use std::str::FromStr;

pub fn ix(s: Span) -> u8 {
    let l = s.start();
    if l.line == 1 && l.column == 0 && s.end().column == 0 { 255 } else { (l.column / 2) as u8 }
}
/// A span that covers positions `i..=j` and no others.
fn span(i: usize, j: usize) -> Span {
    let s = TokenStream::from_str(&"a ".repeat(60)).unwrap();
    let v: Vec<_> = s.into_iter().collect();
    v[i].span().join(v[j].span()).unwrap()
}
fn txt(t: W) -> String {
    (0..t.tl as u32).map(|i| (t.w >> (8 * i)) as u8 as char).collect()
}
fn stream(ts: &Toks, from: usize, to: usize) -> TokenStream {
    let mut r = Vec::new();
    let mut i = from;
    while i < to {
        let t = ts.t[i];
        let mut tt: TokenTree = match t.k {
            K_IDENT if t.x == 1 => Ident::new_raw(&txt(t), span(i, i)).into(),
            K_IDENT => Ident::new(&txt(t), span(i, i)).into(),
            K_PUNCT => Punct::new(t.x as char, if t.y == 1 { Spacing::Joint } else { Spacing::Alone }).into(),
            K_LIT if t.x == 0 => Literal::u8_unsuffixed(7).into(),
            K_LIT => Literal::string("s").into(),
            _ => {
                let close = i + t.y as usize;
                let d = [Delimiter::Parenthesis, Delimiter::Brace, Delimiter::Bracket][t.x as usize];
                let g = Group::new(d, stream(ts, i + 1, close));
                let mut tt: TokenTree = g.into();
                tt.set_span(span(i, close));
                r.push(tt);
                i = close + 1;
                continue;
            }
        };
        tt.set_span(span(i, i));
        r.push(tt);
        i += 1;
    }
    r.into_iter().collect()
}
pub fn build(ts: &Toks) -> TokenStream {
    stream(ts, 0, ts.len)
}
pub fn skip_tt(input: syn::parse::ParseStream) -> syn::Result<()> {
    input.parse::<TokenTree>().map(|_| ())
}
pub fn key(s: &String) -> u64 {
    let mut w = 0;
    for (i, b) in s.bytes().enumerate().take(8) {
        w |= (b as u64) << (8 * i);
    }
    w
}
pub fn rest<V: Ob>(m: &HashMap<String, V>, o: &mut Obs) {
    // In the order in which the values appear in the input; entries without a location
    // compare equal in any order because the keys are sorted next.
    let mut v: Vec<_> = m.iter().map(|(k, v)| (v.ob(), key(k))).collect();
    v.sort_by_key(|(v, k)| ((v >> 8) as u8, (v >> 24) as u8 & 15, *k));
    for (i, (v, k)) in v.iter().enumerate().take(NR) {
        o.rk[i] = *k;
        o.rv[i] = *v;
    }
    o.rn = m.len();
}
// ---- for the Parse and ToTokens derives
use crate::pleaf::Flat;
pub fn ix_close(s: Span) -> u8 {
    if ix(s) == 255 { 255 } else { ((s.end().column - 1) / 2) as u8 }
}
pub fn sp(i: u8) -> Span {
    span(i as usize, i as usize)
}
pub fn mk_ident(t: W, i: u8) -> Ident {
    if t.x == 1 { Ident::new_raw(&txt(t), sp(i)) } else { Ident::new(&txt(t), sp(i)) }
}
pub fn mk_num(i: u8) -> syn::LitInt {
    syn::LitInt::new("7", sp(i))
}
pub fn mk_str(i: u8) -> syn::LitStr {
    syn::LitStr::new("s", sp(i))
}
pub fn mk_ds(i: u8, j: u8) -> proc_macro2::extra::DelimSpan {
    let mut g = Group::new(Delimiter::Parenthesis, TokenStream::new());
    g.set_span(span(i as usize, j as usize));
    g.delim_span()
}
pub fn sep<T, P>(p: &syn::punctuated::Punctuated<T, P>, i: usize) -> Option<&P> {
    p.pairs().nth(i).and_then(|p| p.punct().copied())
}
pub fn flat(s: &TokenStream) -> Flat {
    let mut f = Flat { len: 0, t: [(NIL, 0); CAP] };
    flat_into(s, &mut f);
    f
}
fn put(f: &mut Flat, w: W, at: u8) {
    if f.len < CAP {
        f.t[f.len] = (w, at);
    }
    f.len += 1;
}
fn flat_into(s: &TokenStream, f: &mut Flat) {
    for t in s.clone() {
        match t {
            TokenTree::Ident(i) => {
                let s = i.to_string();
                let (raw, n) = match s.strip_prefix("r#") {
                    Some(n) => (1, n),
                    None => (0, s.as_str()),
                };
                let mut w = 0;
                for (k, b) in n.bytes().enumerate().take(4) {
                    w |= (b as u32) << (8 * k);
                }
                put(f, W { k: K_IDENT, x: raw, y: 0, tl: n.len() as u8, w }, ix(i.span()));
            }
            TokenTree::Punct(p) => {
                let y = (p.spacing() == Spacing::Joint) as u8;
                put(f, W { k: K_PUNCT, x: p.as_char() as u8, y, tl: 0, w: 0 }, ix(p.span()));
            }
            TokenTree::Literal(l) => {
                let x = match l.to_string().as_str() {
                    "7" => 0,
                    "\"s\"" => 1,
                    _ => 9,
                };
                put(f, W { k: K_LIT, x, y: 0, tl: 0, w: 0 }, ix(l.span()));
            }
            TokenTree::Group(g) => {
                let x = match g.delimiter() {
                    Delimiter::Parenthesis => 0,
                    Delimiter::Brace => 1,
                    Delimiter::Bracket => 2,
                    Delimiter::None => 3,
                };
                let o = f.len;
                put(f, W { k: K_OPEN, x, y: 0, tl: 0, w: 0 }, ix(g.span_open()));
                flat_into(&g.stream(), f);
                let n = f.len;
                if o < CAP {
                    f.t[o].0.y = (n - o) as u8;
                }
                put(f, W { k: K_CLOSE, x, y: 0, tl: 0, w: 0 }, ix_close(g.span_close()));
            }
        }
    }
}
