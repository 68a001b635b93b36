//! Laws of the value types, over arbitrary values.
use crate::pleaf::Src;
use crate::world::{ix, sp};
use structmeta::{Flag, NameArgs, NameValue};

pub type Law = Result<(), &'static str>;
#[cfg(kani)]
pub fn lcheck(f: impl Fn(&mut Src) -> Law) {
    let mut s = Src::new();
    let r = f(&mut s);
    kani::cover!(r.is_ok(), "REACHED");
    assert!(r.is_ok(), "CLAIM: a law is broken");
}
#[cfg(real)]
pub fn lcheck(f: impl Fn(&mut Src) -> Law, wit: &[u64]) -> Result<String, String> {
    match f(&mut Src::new(wit)) {
        Ok(()) => Ok("the law holds".into()),
        Err(m) => Err(m.into()),
    }
}
macro_rules! law {
    ($c:expr, $m:literal) => {
        if !($c) {
            return Err($m);
        }
    };
}
/// A flag that is absent, or was given at some token, or (bit 7) made from `true`.
fn flag(s: &mut Src) -> (Flag, Option<u8>) {
    let k = s.choose(14);
    if k == 0 {
        (Flag { span: None }, None)
    } else if k == 1 {
        (Flag::from(true), Some(255))
    } else {
        (Flag { span: Some(sp(k)) }, Some(k))
    }
}
fn at(f: &Flag) -> Option<u8> {
    match f.span {
        Some(s) => Some(ix(s)),
        None => None,
    }
}
#[cfg(any(kani, real))]
pub fn flag_value(s: &mut Src) -> Law {
    let (f, p) = flag(s);
    law!(at(&f) == p, "the location is the one given");
    law!(f.value() == p.is_some(), "value() tells whether the flag was given");
    law!(f.clone() == f && at(&f.clone()) == p, "a clone is the same flag");
    let b = s.choose(2) == 1;
    let c = Flag::from(b);
    law!(c.value() == b, "from(b).value() == b");
    let d: Flag = b.into();
    law!(d == c, "into agrees with from");
    law!(!Flag::NONE.value() && !Flag::default().value(), "NONE and default() are absent");
    law!(Flag::NONE.span.is_none() && Flag::default().span.is_none(), "NONE and default() have no location");
    law!(Flag::NONE == Flag::default(), "NONE == default()");
    Ok(())
}
#[cfg(any(kani, real))]
pub fn flag_eq(s: &mut Src) -> Law {
    let ((a, p), (b, q), (c, _)) = (flag(s), flag(s), flag(s));
    law!((a == b) == (p.is_some() == q.is_some()), "equality ignores the location");
    law!((a != b) == !(a == b), "!= is the negation of ==");
    law!(a == a && (a == b) == (b == a), "equality is reflexive and symmetric");
    law!(!(a == b && b == c) || a == c, "equality is transitive");
    Ok(())
}
#[cfg(any(kani, real))]
pub fn flag_or(s: &mut Src) -> Law {
    let ((a, p), (b, q), (c, _)) = (flag(s), flag(s), flag(s));
    let want = if p.is_some() { p } else { q };
    let r = a.clone() | b.clone();
    law!(at(&r) == want, "a | b has the location of the first that was given");
    law!(r.value() == (a.value() || b.value()), "a | b is given if one of them is");
    let mut m = a.clone();
    m |= b.clone();
    law!(at(&m) == want && m == r, "|= agrees with |");
    let l = (a.clone() | b.clone()) | c.clone();
    let k = a.clone() | (b.clone() | c.clone());
    law!(l == k && at(&l) == at(&k), "| is associative");
    law!(at(&(Flag::NONE | a.clone())) == p && at(&(a.clone() | Flag::NONE)) == p, "NONE is neutral");
    law!(at(&(a.clone() | a)) == p, "| is idempotent");
    Ok(())
}
/// A type whose equality is no equivalence: `0` equals nothing.
#[derive(Clone, Copy)]
pub struct Odd(u8);
impl PartialEq for Odd {
    fn eq(&self, o: &Odd) -> bool {
        self.0 != 0 && o.0 != 0 && self.0 >> 1 == o.0 >> 1
    }
}
#[cfg(any(kani, real))]
pub fn name_value(s: &mut Src) -> Law {
    let (x, y) = (Odd(s.choose(8)), Odd(s.choose(8)));
    let (i, j) = (s.choose(14), s.choose(14));
    let a = NameValue { name_span: sp(i), value: x };
    let b = NameValue { name_span: sp(j), value: y };
    law!((a == b) == (x == y), "NameValue: equality is that of the values");
    law!((a != b) == !(x == y), "NameValue: != is the negation of ==");
    let c = a;
    law!(ix(c.name_span) == i && c.value.0 == x.0, "NameValue: a copy is the same");
    let d = c.clone();
    law!(ix(d.name_span) == i && d.value.0 == x.0, "NameValue: a clone is the same");
    let (u, v) = (if x.0 > 3 { Some(x) } else { None }, if y.0 > 3 { Some(y) } else { None });
    let a = NameValue { name_span: sp(i), value: u };
    let b = NameValue { name_span: sp(j), value: v };
    law!((a == b) == (u == v), "NameValue<Option>: equality is that of the values");
    Ok(())
}
#[cfg(any(kani, real))]
pub fn name_args(s: &mut Src) -> Law {
    let (x, y) = (Odd(s.choose(8)), Odd(s.choose(8)));
    let (i, j) = (s.choose(14), s.choose(14));
    let a = NameArgs { name_span: sp(i), args: x };
    let b = NameArgs { name_span: sp(j), args: y };
    law!((a == b) == (x == y), "NameArgs: equality is that of the arguments");
    law!((a != b) == !(x == y), "NameArgs: != is the negation of ==");
    let c = a;
    law!(ix(c.name_span) == i && c.args.0 == x.0, "NameArgs: a copy is the same");
    let d = c.clone();
    law!(ix(d.name_span) == i && d.args.0 == x.0, "NameArgs: a clone is the same");
    let (u, v) = ([x, y], [y, x]);
    let a = NameArgs { name_span: sp(i), args: u };
    let b = NameArgs { name_span: sp(j), args: v };
    law!((a == b) == (u == v), "NameArgs<[_; 2]>: equality is that of the arguments");
    Ok(())
}
