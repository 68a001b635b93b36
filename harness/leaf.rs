//! Field types of the grid, and how a parsed value is observed.
use crate::spec::{ob, ob_push};
use crate::world::{ix, skip_tt};
#[cfg(not(real))]
use mstd::model_prelude::*;
use proc_macro2::Literal;
use structmeta::{Flag, NameArgs, NameValue};
use syn::parse::{Parse, ParseStream};
use syn::Token;

/// One literal token.
pub struct L(pub u8);
impl Parse for L {
    fn parse(input: ParseStream) -> syn::Result<Self> {
        let l: Literal = input.parse()?;
        Ok(L(ix(l.span())))
    }
}
/// One or more token trees, up to a comma (an expression-like value).
pub struct E(pub u8);
impl Parse for E {
    fn parse(input: ParseStream) -> syn::Result<Self> {
        let sp = ix(input.span());
        let mut n = 0u8;
        while !input.is_empty() && !input.peek(Token![,]) {
            skip_tt(input)?;
            n += 1;
        }
        if n == 0 {
            return Err(input.error("expected value"));
        }
        Ok(E(sp | n << 4))
    }
}
/// A nested argument list.
#[derive(structmeta::StructMeta)]
pub struct N {
    pub x: Option<L>,
    pub y: bool,
}
impl Leaf for N {
    fn v(&self) -> u8 {
        (match &self.x {
            Some(l) => l.0,
            None => 0,
        }) | (self.y as u8) << 4
    }
}
pub trait Leaf {
    fn v(&self) -> u8;
}
impl Leaf for L {
    fn v(&self) -> u8 {
        self.0
    }
}
impl Leaf for E {
    fn v(&self) -> u8 {
        self.0
    }
}
/// See `spec::Obs`.
pub trait Ob {
    fn ob(&self) -> u64;
}
fn vals<T: Leaf>(o: u64, v: &Vec<T>) -> u64 {
    let mut o = o;
    let mut i = 0;
    while i < v.len() {
        o = ob_push(o, v[i].v());
        i += 1;
    }
    o
}
impl Ob for L {
    fn ob(&self) -> u64 {
        ob_push(ob(2, 0, 0), self.v())
    }
}
impl Ob for E {
    fn ob(&self) -> u64 {
        ob_push(ob(2, 0, 0), self.v())
    }
}
impl Ob for bool {
    fn ob(&self) -> u64 {
        if *self { ob(1, 0, 0) } else { 0 }
    }
}
impl Ob for Flag {
    fn ob(&self) -> u64 {
        match self.span {
            Some(s) => ob(1, ix(s), 0),
            None => 0,
        }
    }
}
impl<T: Leaf> Ob for Vec<T> {
    fn ob(&self) -> u64 {
        vals(ob(2, 0, 0), self)
    }
}
impl<T: Leaf> Ob for NameValue<T> {
    fn ob(&self) -> u64 {
        ob_push(ob(2, ix(self.name_span), 0), self.value.v())
    }
}
impl<T: Leaf> Ob for NameValue<Option<T>> {
    fn ob(&self) -> u64 {
        match &self.value {
            Some(v) => ob_push(ob(2, ix(self.name_span), 0), v.v()),
            None => ob(1, ix(self.name_span), 0),
        }
    }
}
impl<T: Leaf> Ob for NameArgs<T> {
    fn ob(&self) -> u64 {
        ob_push(ob(2, ix(self.name_span), 0), self.args.v())
    }
}
impl<T: Leaf> Ob for NameArgs<Option<T>> {
    fn ob(&self) -> u64 {
        match &self.args {
            Some(v) => ob_push(ob(2, ix(self.name_span), 0), v.v()),
            None => ob(1, ix(self.name_span), 0),
        }
    }
}
impl<T: Leaf> Ob for NameArgs<Vec<T>> {
    fn ob(&self) -> u64 {
        vals(ob(2, ix(self.name_span), 0), &self.args)
    }
}
impl<T: Leaf> Ob for NameArgs<Option<Vec<T>>> {
    fn ob(&self) -> u64 {
        match &self.args {
            Some(v) => vals(ob(2, ix(self.name_span), 0), v),
            None => ob(1, ix(self.name_span), 0),
        }
    }
}
impl<T: Ob> Ob for Option<T> {
    fn ob(&self) -> u64 {
        match self {
            Some(v) => v.ob(),
            None => 0,
        }
    }
}
