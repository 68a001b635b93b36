//! Definitions given to the derives: what is drawn (by the solver, or from a witness), and
//! what the documentation says of it.
pub const TCAP: usize = 16;
pub const NN: usize = 7;

/// Words of types.
pub const WORDS: &[&str] = &[
    "L", "Option", "Vec", "HashMap", "String", "Flag", "NameValue", "NameArgs", "bool", // 0..=8: last segments
    "std", "core", "alloc", "option", "vec", "collections", "hash_map", "string", "primitive", "structmeta", "foo", // 9..=19
    "syn", "MacroDelimiter",
];
pub const NLAST: u8 = 9;
/// Words in attributes: their names, and their tokens.
pub const AWORDS: &[&str] = &[
    "struct_meta", "to_tokens", "parse", "foo", "name", "unnamed", "name_filter", "any", "peek", "terminated",
];
pub const A_OTHER: u8 = 3;
/// Names of fields and parameters.
pub const NAMES: &[&str] = &["a", "b", "type", "ab"];

/// Where values come from.
pub static mut WIT: [u64; 200] = [0x9e37_79b9_7f4a_7c15; 200];
pub struct Src {
    pub i: usize,
}
#[cfg(kani)]
impl Src {
    pub fn new(_w: &[u64]) -> Self {
        Src { i: 0 }
    }
    /// Any value below `n`.
    pub fn draw(&mut self, n: u8) -> u8 {
        let v: u8 = kani::any();
        kani::assume(v < n);
        unsafe { WIT[self.i] = v as u64 };
        self.i += 1;
        unsafe { WIT[self.i - 1] as u8 }
    }
}
#[cfg(not(kani))]
impl Src {
    pub fn new(w: &[u64]) -> Self {
        unsafe {
            WIT = [0; 200];
            let mut i = 0;
            while i < w.len() && i < 200 {
                WIT[i] = w[i];
                i += 1;
            }
        }
        Src { i: 0 }
    }
    pub fn draw(&mut self, n: u8) -> u8 {
        let v = unsafe { WIT[self.i] } as u8;
        assert!(v < n, "MALFORMED");
        self.i += 1;
        v
    }
}
impl Src {
    pub fn flag(&mut self) -> bool {
        self.draw(2) != 0
    }
}

#[derive(Clone, Copy, Debug)]
pub struct RTy {
    /// 0 path, 1 reference, 2 tuple `()`
    pub kind: u8,
    pub qself: bool,
    pub group: bool,
    pub nseg: u8,
    /// The words, the last first.
    pub w: [u8; 4],
    /// Arguments on the last but one segment.
    pub mid: bool,
    pub nargs: u8,
    /// Per argument: a type (0), a lifetime (1) or a constant (2).
    pub ak: [u8; 2],
}
pub const NOTY: RTy = RTy { kind: 2, qself: false, group: false, nseg: 1, w: [0; 4], mid: false, nargs: 0, ak: [0; 2] };
/// A tree of types: node `i`'s arguments are nodes `2i + 1` and `2i + 2`.
pub type Tree = [RTy; NN];

#[derive(Clone, Copy, Debug)]
pub struct RTok {
    pub k: u8,
    /// Index of the word, or the character.
    pub v: u8,
    pub s: [u8; 3],
    pub n: u8,
}
pub const NOTOK: RTok = RTok { k: 5, v: 0, s: [0; 3], n: 0 };
#[derive(Clone, Copy, Debug)]
pub struct RAttr {
    pub name: u8,
    pub list: bool,
    pub start: u8,
    pub end: u8,
}
pub const NOATTR: RAttr = RAttr { name: A_OTHER, list: false, start: 0, end: 0 };
#[derive(Clone, Copy, Debug)]
pub struct RField {
    pub ident: u8,
    pub raw: bool,
    pub ty: Tree,
    pub na: u8,
    pub attrs: [RAttr; 2],
}
pub const NOFIELD: RField = RField { ident: 0, raw: false, ty: [NOTY; NN], na: 0, attrs: [NOATTR; 2] };
pub const FMAX: usize = 4;
#[derive(Clone, Copy, Debug)]
pub struct RDef {
    /// 0 struct, 1 enum, 2 union
    pub kind: u8,
    /// 0 named, 1 unnamed, 2 unit
    pub shape: u8,
    pub nf: u8,
    /// Enum: whether the second variant has a field (the last of `fields`).
    pub second: bool,
    pub fields: [RField; FMAX],
    pub na: u8,
    pub attrs: [RAttr; 2],
    pub toks: [RTok; TCAP],
    pub nt: u8,
}
pub const NODEF: RDef = RDef { kind: 0, shape: 0, nf: 0, second: false, fields: [NOFIELD; FMAX], na: 0, attrs: [NOATTR; 2], toks: [NOTOK; TCAP], nt: 0 };

// ---------------------------------------------------------------- drawing
impl RDef {
    pub fn push(&mut self, t: RTok) {
        self.toks[self.nt as usize] = t;
        self.nt += 1;
    }
}
pub fn word(v: u8) -> RTok {
    RTok { k: 0, v, s: [0; 3], n: 0 }
}
pub fn punct(c: u8) -> RTok {
    RTok { k: 1, v: c, s: [0; 3], n: 0 }
}
/// A name, from its index; 100 stands for `snake_case`.
pub fn name_str(v: u8) -> RTok {
    RTok { k: 2, v, s: [0; 3], n: 9 }
}
/// Any token of an attribute's arguments.
pub fn draw_tok(s: &mut Src) -> RTok {
    let mut t = NOTOK;
    t.k = s.draw(4);
    t.v = s.draw(8);
    if t.k == 0 {
        t.v += 3;
        if t.v == 10 {
            t.v = 3;
        }
    } else if t.k == 1 {
        t.v = if t.v < 4 { b',' } else if t.v < 7 { b'=' } else { b';' };
    } else if t.k == 2 {
        t.n = 9;
        t.v = if t.v < 4 { t.v } else { 100 };
    } else {
        t.v = 0;
    }
    t
}
/// Any string of delimiters (or an `x`), up to `max` characters.
pub fn draw_delims(s: &mut Src, max: u8) -> RTok {
    let mut t = NOTOK;
    t.k = 2;
    t.n = s.draw(max + 1);
    let mut i = 0;
    while i < max {
        let c = s.draw(7);
        t.s[i as usize] = b"()[]{}x"[c as usize];
        i += 1;
    }
    t
}

// ---------------------------------------------------------------- the reference
/// What is known of one type.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Is {
    pub n: u8,
}
fn segs_are(t: &RTy, path: &[u8]) -> bool {
    // `path` from the last word to the first; the type may give any end of it.
    let n = t.nseg as usize;
    if n > path.len() {
        return false;
    }
    let mut i = 0;
    while i < path.len() {
        if i < n && t.w[i] != path[i] {
            return false;
        }
        i += 1;
    }
    true
}
/// The index (in WORDS) of the documented type this one names, if any.
pub fn names(t: &RTy) -> Option<u8> {
    if t.kind != 0 || t.qself || (t.mid && t.nseg > 1) {
        return None;
    }
    let any: &[&[u8]] = match t.w[0] {
        1 => &[&[1, 12, 9], &[1, 12, 10]],
        2 => &[&[2, 13, 9], &[2, 13, 11]],
        3 => &[&[3, 14, 9], &[3, 15, 14, 9]],
        4 => &[&[4, 16, 9], &[4, 16, 11]],
        5 => &[&[5, 18]],
        6 => &[&[6, 18]],
        7 => &[&[7, 18]],
        8 => &[&[8, 17, 9], &[8, 17, 10]],
        21 => &[&[21, 20]],
        _ => &[],
    };
    let mut i = 0;
    while i < any.len() {
        if segs_are(t, any[i]) {
            return Some(t.w[0]);
        }
        i += 1;
    }
    None
}
/// `T` of a documented one-parameter type.
pub fn elem(t: &Tree, i: usize, w: u8) -> Option<usize> {
    if names(&t[i]) == Some(w) && t[i].nargs == 1 && t[i].ak[0] == 0 { Some(2 * i + 1) } else { None }
}
fn none(t: &Tree, i: usize, w: u8) -> bool {
    names(&t[i]) == Some(w) && t[i].nargs == 0
}
pub fn is_rest(t: &Tree) -> bool {
    names(&t[0]) == Some(3) && t[0].nargs == 2 && t[0].ak == [0, 0] && none(t, 1, 4)
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Unnamed {
    Required,
    Optional,
    Variadic,
    Invalid,
}
/// What a field is as an unnamed parameter.
pub fn as_unnamed(t: &Tree) -> Unnamed {
    let (o, i) = match elem(t, 0, 1) {
        Some(i) => (true, i),
        None => (false, 0),
    };
    if (!o && (none(t, 0, 8) || none(t, 0, 5))) || elem(t, i, 6).is_some() || elem(t, i, 7).is_some() {
        return Unnamed::Invalid;
    }
    match (elem(t, i, 2).is_some(), o) {
        (true, true) => Unnamed::Invalid,
        (true, false) => Unnamed::Variadic,
        (false, true) => Unnamed::Optional,
        (false, false) => Unnamed::Required,
    }
}

fn tok(d: &RDef, i: u8, end: u8) -> RTok {
    if i < end && (i as usize) < TCAP { d.toks[i as usize] } else { NOTOK }
}
fn is_word(t: RTok, v: u8) -> bool {
    t.k == 0 && t.v == v
}
fn is_punct(t: RTok, c: u8) -> bool {
    t.k == 1 && t.v == c
}

/// `#[struct_meta(...)]` of a field: `name = "..."` and `unnamed`, separated by commas.
pub struct FieldArgs {
    pub name: Option<u8>,
    pub names: u8,
    pub unnamed: bool,
}
pub fn field_args(d: &RDef, a: &RAttr, r: &mut FieldArgs) -> bool {
    if !a.list {
        return false;
    }
    let mut i = a.start;
    let mut n = 0;
    while n < 5 && i < a.end {
        n += 1;
        let t = tok(d, i, a.end);
        if is_word(t, 5) {
            r.unnamed = true;
            i += 1;
        } else if is_word(t, 4) && is_punct(tok(d, i + 1, a.end), b'=') && tok(d, i + 2, a.end).k == 2 {
            r.name = Some(tok(d, i + 2, a.end).v);
            r.names += 1;
            i += 3;
        } else {
            return false;
        }
        if i < a.end {
            if !is_punct(tok(d, i, a.end), b',') {
                return false;
            }
            i += 1;
        }
    }
    true
}
/// `#[struct_meta(...)]` of the struct: `name_filter = "snake_case"`, once.
pub fn struct_args(d: &RDef, a: &RAttr, filters: &mut u8) -> bool {
    if !a.list {
        return false;
    }
    let mut i = a.start;
    let mut n = 0;
    while n < 4 && i < a.end {
        n += 1;
        let s = tok(d, i + 2, a.end);
        if !(is_word(tok(d, i, a.end), 6) && is_punct(tok(d, i + 1, a.end), b'=') && s.k == 2 && s.v == 100) {
            return false;
        }
        *filters += 1;
        i += 3;
        if i < a.end {
            if !is_punct(tok(d, i, a.end), b',') {
                return false;
            }
            i += 1;
        }
    }
    true
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Verdict {
    Accept,
    Reject,
    /// The documentation does not say.
    Silent,
}
use Verdict::*;

pub fn spec_struct_meta(d: &RDef) -> Verdict {
    if d.kind != 0 {
        return Reject;
    }
    let mut filters = 0;
    let mut i = 0;
    while i < 2 {
        if i < d.na as usize && d.attrs[i].name == 0 && !struct_args(d, &d.attrs[i], &mut filters) {
            return Reject;
        }
        i += 1;
    }
    if filters > 1 {
        return Reject;
    }
    let mut silent = false;
    let mut opt = false;
    let mut var = false;
    let mut rests = 0;
    let mut seen = [false; 101];
    let mut f = 0;
    while f < FMAX {
        if f < d.nf as usize {
            let x = &d.fields[f];
            let mut a = FieldArgs { name: None, names: 0, unnamed: false };
            let mut i = 0;
            while i < 2 {
                if i < x.na as usize && x.attrs[i].name == 0 && !field_args(d, &x.attrs[i], &mut a) {
                    return Reject;
                }
                i += 1;
            }
            if a.names > 1 || (a.names == 1 && a.unnamed) {
                silent = true;
            }
            let rest = a.name.is_none() && is_rest(&x.ty);
            let name = if a.unnamed {
                None
            } else if a.name.is_some() {
                a.name
            } else if d.shape == 0 {
                Some(x.ident)
            } else {
                None
            };
            if rest {
                if a.unnamed {
                    silent = true;
                }
                rests += 1;
                if rests > 1 {
                    return if silent { Silent } else { Reject };
                }
            } else if let Some(n) = name {
                if seen[n as usize] {
                    return if silent { Silent } else { Reject };
                }
                seen[n as usize] = true;
            } else {
                let u = as_unnamed(&x.ty);
                if u == Unnamed::Invalid || var || (u == Unnamed::Required && opt) {
                    return if silent { Silent } else { Reject };
                }
                opt |= u == Unnamed::Optional;
                var |= u == Unnamed::Variadic;
            }
        }
        f += 1;
    }
    if silent { Silent } else { Accept }
}

/// `#[to_tokens(...)]`: strings, separated by commas. Runs their characters.
fn delims(d: &RDef, a: &RAttr, stack: &mut [u8; 8], depth: &mut usize, root: &mut bool) -> bool {
    if !a.list {
        return false;
    }
    let mut i = a.start;
    let mut n = 0;
    while n < 4 && i < a.end {
        n += 1;
        let t = tok(d, i, a.end);
        if t.k != 2 {
            return false;
        }
        let mut j = 0;
        while j < 3 {
            if j < t.n as usize {
                let c = t.s[j];
                let close = match c {
                    b'(' => b')',
                    b'[' => b']',
                    b'{' => b'}',
                    _ => 0,
                };
                if close != 0 {
                    stack[*depth] = close;
                    *depth += 1;
                } else if *depth > 0 && stack[*depth - 1] == c {
                    *depth -= 1;
                    *root |= *depth == 0;
                } else {
                    return false;
                }
            }
            j += 1;
        }
        i += 1;
        if i < a.end {
            if !is_punct(tok(d, i, a.end), b',') {
                return false;
            }
            i += 1;
        }
    }
    true
}
/// `#[parse(...)]`: `any`, `peek`, `terminated`, separated by commas.
fn parse_args(d: &RDef, a: &RAttr, peek: &mut bool) -> bool {
    if !a.list {
        return false;
    }
    let mut i = a.start;
    let mut n = 0;
    while n < 4 && i < a.end {
        n += 1;
        let t = tok(d, i, a.end);
        if is_word(t, 8) {
            *peek = true;
        } else if !is_word(t, 7) && !is_word(t, 9) {
            return false;
        }
        i += 1;
        if i < a.end {
            if !is_punct(tok(d, i, a.end), b',') {
                return false;
            }
            i += 1;
        }
    }
    true
}
fn spec_fields(d: &RDef, from: usize, to: usize, parse: bool) -> bool {
    let mut stack = [0u8; 8];
    let mut depth = 0;
    let mut skipped = false;
    let mut peeks = 0;
    let mut f = 0;
    while f < FMAX {
        if f >= from && f < to {
            let x = &d.fields[f];
            let mut root = depth == 0;
            let mut peek = false;
            let mut i = 0;
            while i < 2 {
                if i < x.na as usize {
                    let a = &x.attrs[i];
                    if a.name == 1 && !delims(d, a, &mut stack, &mut depth, &mut root) {
                        return false;
                    }
                    if parse && a.name == 2 && !parse_args(d, a, &mut peek) {
                        return false;
                    }
                }
                i += 1;
            }
            if parse && d.kind == 1 && peek {
                // A peek must be outside all delimiters, and no token before it unpeeked.
                if !root || skipped {
                    return false;
                }
                peeks += 1;
                if peeks > 3 {
                    return false;
                }
            }
            skipped |= root && !peek;
        }
        f += 1;
    }
    true
}
pub fn spec_pt(d: &RDef, parse: bool) -> Verdict {
    if d.kind == 2 {
        return Reject;
    }
    let ok = if d.kind == 0 {
        spec_fields(d, 0, d.nf as usize, parse)
    } else {
        spec_fields(d, 0, d.nf as usize, parse) && (!d.second || spec_fields(d, 3, 4, parse))
    };
    if ok { Accept } else { Reject }
}

/// Any word that may end a path, and any that may come before.
pub fn last(s: &mut Src) -> u8 {
    let v = s.draw(NLAST + 1);
    if v == NLAST { 19 } else { v }
}
pub fn ns(s: &mut Src) -> u8 {
    9 + s.draw(12)
}

pub fn agree(v: Verdict, rejected: bool) -> bool {
    match v {
        Accept => !rejected,
        Reject => rejected,
        Silent => true,
    }
}
