//! The real environment of the derives.
use crate::dh::*;
use proc_macro2::*;
use quote::{format_ident, quote};

fn ident(s: &str, raw: bool) -> Ident {
    if raw { Ident::new_raw(s, Span::call_site()) } else { Ident::new(s, Span::call_site()) }
}
fn ty(t: &Tree, i: usize) -> TokenStream {
    let r = &t[i];
    let base = match r.kind {
        1 => quote!(&()),
        2 => quote!(()),
        _ => {
            let mut segs = Vec::new();
            for j in (0..r.nseg as usize).rev() {
                let w = ident(WORDS[r.w[j] as usize], false);
                segs.push(if j == 0 && r.nargs > 0 {
                    let a = (0..r.nargs as usize).map(|j| match r.ak[j] {
                        0 => ty(t, 2 * i + 1 + j),
                        1 => quote!('a),
                        _ => quote!(1),
                    });
                    quote!(#w<#(#a),*>)
                } else if j == 1 && r.mid {
                    quote!(#w<()>)
                } else {
                    quote!(#w)
                });
            }
            if r.qself { quote!(<()>::#(#segs)::*) } else { quote!(#(#segs)::*) }
        }
    };
    if r.group { Group::new(Delimiter::None, base).into_token_stream_() } else { base }
}
trait Its {
    fn into_token_stream_(self) -> TokenStream;
}
impl Its for Group {
    fn into_token_stream_(self) -> TokenStream {
        TokenStream::from(TokenTree::Group(self))
    }
}
fn tok(t: &RTok) -> TokenTree {
    match t.k {
        0 => ident(AWORDS[t.v as usize], false).into(),
        1 => Punct::new(t.v as char, Spacing::Alone).into(),
        2 if t.n == 9 => Literal::string(if t.v == 100 { "snake_case" } else { NAMES[t.v as usize] }).into(),
        2 => Literal::string(std::str::from_utf8(&t.s[..t.n as usize]).unwrap()).into(),
        _ => Literal::u8_unsuffixed(1).into(),
    }
}
fn attrs(d: &RDef, a: &[RAttr; 2], n: u8) -> TokenStream {
    let mut r = TokenStream::new();
    for a in &a[..n as usize] {
        let name = ident(AWORDS[a.name as usize], false);
        r.extend(if a.list {
            let t: TokenStream = d.toks[a.start as usize..a.end as usize].iter().map(tok).collect();
            quote!(#[#name(#t)])
        } else {
            quote!(#[#name])
        });
    }
    r
}
fn fields(d: &RDef, from: u8, to: u8) -> TokenStream {
    let f = (from as usize..to as usize).map(|i| {
        let f = &d.fields[i];
        let (a, t) = (attrs(d, &f.attrs, f.na), ty(&f.ty, 0));
        if d.shape == 0 {
            let n = ident(NAMES[f.ident as usize], f.raw);
            quote!(#a #n: #t)
        } else {
            quote!(#a #t)
        }
    });
    match d.shape {
        0 => quote!({ #(#f),* }),
        1 => quote!((#(#f),*)),
        _ => quote!(),
    }
}
pub fn input(d: &RDef) -> TokenStream {
    let a = attrs(d, &d.attrs, d.na);
    match d.kind {
        0 => {
            let f = fields(d, 0, d.nf);
            let semi = if d.shape == 0 { quote!() } else { quote!(;) };
            quote!(#a struct S #f #semi)
        }
        1 => {
            let (x, y) = (fields(d, 0, d.nf), if d.second { fields(d, 3, 4) } else { quote!() });
            quote!(#a enum S { A #x, B #y })
        }
        _ => {
            let f = fields(d, 0, d.nf);
            quote!(#a union S #f)
        }
    }
}
pub fn replay(f: fn(TokenStream) -> TokenStream, d: &RDef, v: Verdict) -> Result<String, String> {
    let _ = format_ident!("x");
    let ts = input(d);
    let text = ts.to_string();
    if let Err(e) = syn::parse2::<syn::DeriveInput>(ts.clone()) {
        return Ok(format!("not a definition: {text}: {e}"));
    }
    match std::panic::catch_unwind(move || f(ts).to_string()) {
        Err(_) => Err(format!("panics on `{text}`")),
        Ok(out) => {
            let rejected = out.contains("compile_error");
            let m = format!("`{text}` is {} (documented: {v:?})", if rejected { "rejected" } else { "accepted" });
            if agree(v, rejected) { Ok(m) } else { Err(m) }
        }
    }
}
