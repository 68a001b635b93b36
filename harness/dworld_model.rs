//! The model environment of the derives.
pub use crate::dh::*;
pub use mstd::model_prelude::*;
pub use proc_macro2::*;
pub use syn::punctuated::Punctuated;
pub use syn::*;
use syn::parse::{K_IDENT, K_INT, K_PUNCT, K_STR, TOKS, Tok};

const fn w(s: &str) -> Txt {
    let b = s.as_bytes();
    let mut r = 0u128;
    let mut i = 0;
    while i < b.len() && i < 16 {
        r |= (b[i] as u128) << (8 * i as u32);
        i += 1;
    }
    Txt { len: b.len() as u8, w: r }
}
const fn table<const N: usize>(l: &[&str]) -> [Txt; N] {
    let mut r = [Txt::EMPTY; N];
    let mut i = 0;
    while i < l.len() {
        r[i] = w(l[i]);
        i += 1;
    }
    r
}
pub const fn name(b: &[u8; 1]) -> Txt {
    Txt { len: 1, w: b[0] as u128 }
}
pub trait Table {
    fn text(i: usize) -> Txt;
}
macro_rules! pick {
    ($f:ident $list:ident $($k:literal)*) => {
        pub fn $f(i: u8) -> Txt {
            const T: [Txt; 24] = table($list);
            $(const { assert!($k < 24) };)*
            match i {
                $($k => const { T[$k] },)*
                _ => Txt::EMPTY,
            }
        }
    };
}
pick!(pick_words WORDS 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21);
pick!(pick_awords AWORDS 0 1 2 3 4 5 6 7 8 9);
pick!(pick_names NAMES 0 1 2 3);
fn tok(t: &RTok, i: u8) -> Tok {
    let k = match t.k {
        0 => K_IDENT,
        1 => K_PUNCT,
        2 => K_STR,
        _ => K_INT,
    };
    let t2 = if t.k == 0 {
        pick_awords(t.v)
    } else if t.k == 2 && t.n == 9 {
        if t.v == 100 { const { w("snake_case") } } else { pick_names(t.v) }
    } else if t.k == 2 {
        let mut w = 0u128;
        if 0 < t.n {
            w |= t.s[0] as u128;
        }
        if 1 < t.n {
            w |= (t.s[1] as u128) << 8;
        }
        if 2 < t.n {
            w |= (t.s[2] as u128) << 16;
        }
        Txt { len: t.n, w }
    } else {
        Txt::EMPTY
    };
    Tok { k, x: if t.k == 1 { t.v } else { 0 }, sp: i, t: t2 }
}
pub fn derive(f: fn(TokenStream) -> TokenStream, d: &RDef, input: &'static DeriveInput) -> bool {
    let mut i = 0;
    while i < d.nt as usize {
        unsafe { TOKS[i] = tok(&d.toks[i], i as u8) };
        i += 1;
    }
    unsafe { syn::INPUT = input };
    f(TokenStream::new()).err
}
