//! Reference semantics of `#[derive(StructMeta)]`, from doc/struct_meta.md, over packed
//! token streams. Independent of the code under test.
use crate::wit::*;

pub const FLAG: u8 = 1; // `name`
pub const NV: u8 = 2; // `name = value`
pub const NA: u8 = 4; // `name(value)`
pub const NAL: u8 = 8; // `name(value, value, ...)`

/// What one field of the struct is.
#[derive(Clone, Copy)]
pub struct F {
    pub role: u8,
    /// The packed name (see `wit::W`): length and text.
    pub name: (u8, u32),
    pub styles: u8,
    pub required: bool,
    /// The field's type records the span of the name.
    pub spanned: bool,
    pub leaf: u8,
}
pub const NAMED: u8 = 0;
pub const REST: u8 = 1;
pub const UREQ: u8 = 2;
pub const UOPT: u8 = 3;
pub const UVAR: u8 = 4;

pub const LEAF_L: u8 = 0; // one literal
pub const LEAF_E: u8 = 1; // one or more token trees, up to a comma

pub const LEAF_N: u8 = 2; // the argument list of `struct { x: Option<L>, y: bool }`

pub use crate::NF;
pub const NR: usize = 5;
#[derive(Clone, Copy)]
pub struct Cfg {
    pub n: usize,
    pub f: [F; NF],
    pub snake: bool,
}

/// Outcome classes.
pub const OK: u8 = 0;
pub const DUP: u8 = 1; // a parameter given twice
pub const MISSING: u8 = 2; // a required parameter not given
pub const UNKNOWN: u8 = 3; // no parameter of that name
pub const STYLE: u8 = 4; // the parameter exists, but not in that style
pub const MANY: u8 = 5; // more unnamed arguments than the struct takes
pub const ORDER: u8 = 6; // unnamed argument after a named one
pub const SYNTAX: u8 = 7; // malformed argument list or value
pub const LEFT: u8 = 8; // tokens left over inside `name(...)`

#[derive(Clone, Copy, Debug)]
pub struct Obs {
    /// Per field: byte 0 state (0 absent, 1 name only, 2 value), 1 name token, 2 number of
    /// values, 3.. first token (low nibble) and extent of each value.
    pub f: [u64; NF],
    pub rk: [u64; NR],
    pub rv: [u64; NR],
    pub rn: usize,
}
impl PartialEq for Obs {
    fn eq(&self, o: &Obs) -> bool {
        let mut r = self.rn == o.rn;
        let mut i = 0;
        while i < NF {
            r = r & (self.f[i] == o.f[i]);
            i += 1;
        }
        i = 0;
        while i < NR {
            r = r & (self.rk[i] == o.rk[i]) & (self.rv[i] == o.rv[i]);
            i += 1;
        }
        r
    }
}
pub const OBS0: Obs = Obs { f: [0; NF], rk: [0; NR], rv: [0; NR], rn: 0 };
#[derive(Clone, Copy, Debug)]
pub struct Out {
    pub class: u8,
    /// The token at which the offending argument starts (255: none, 254: not specified).
    pub loc: u8,
    pub obs: Obs,
}

pub fn is_punct(t: W, c: u8) -> bool {
    t.k == K_PUNCT && t.x == c
}
/// An `=` that is not the first half of `==` or `=>`.
fn is_eq(t: W, next: W) -> bool {
    is_punct(t, b'=') && !(t.y == 1 && (is_punct(next, b'=') || is_punct(next, b'>')))
}
/// Width of a token tree.
fn width(t: W) -> usize {
    if t.k == K_OPEN { t.y as usize + 1 } else { 1 }
}
pub fn ob(state: u8, name: u8, n: u8) -> u64 {
    state as u64 | (name as u64) << 8 | (n as u64) << 16
}
pub fn ob_push(o: u64, v: u8) -> u64 {
    let n = (o >> 16) as u8;
    let o = o + (1 << 16);
    if n < 5 { o | (v as u64) << (24 + 8 * n as u32) } else { o }
}
pub fn name_is(t: W, s: (u8, u32)) -> bool {
    t.x == 0 && t.tl == s.0 && t.w == s.1
}
fn snake_byte(b: u8) -> bool {
    (b >= b'a' && b <= b'z') || (b >= b'0' && b <= b'9') || b == b'_'
}
/// `name_filter = "snake_case"`: the name consists of `[a-z0-9_]`.
fn snake(t: W) -> bool {
    t.x == 0
        && snake_byte(t.w as u8)
        && (t.tl < 2 || snake_byte((t.w >> 8) as u8))
        && (t.tl < 3 || snake_byte((t.w >> 16) as u8))
        && (t.tl < 4 || snake_byte((t.w >> 24) as u8))
}
/// The key under which a rest parameter is stored.
fn key(t: W) -> u64 {
    if t.x == 1 { 0x2372 | (t.w as u64) << 16 } else { t.w as u64 }
}

/// Where an expression-like value (`LEAF_E`) that starts at a position ends, and of how many
/// token trees it consists.
#[derive(Clone, Copy)]
struct Ext {
    n: u8,
    to: u8,
}
fn extents(ts: &Toks, n: usize) -> [Ext; CAP + 1] {
    let mut e = [Ext { n: 0, to: 0 }; CAP + 1];
    let mut i = n + 1;
    while i > 0 {
        i -= 1;
        let t = ts.t[i];
        if i >= ts.len || t.k == K_CLOSE || is_punct(t, b',') {
            e[i] = Ext { n: 0, to: i as u8 };
        } else {
            // The successor is one position further, except after a group.
            let mut j = i + 1;
            let mut x = e[j];
            if t.k == K_OPEN {
                while j < n {
                    j += 1;
                    if i + width(t) == j {
                        x = e[j];
                    }
                }
            }
            e[i] = Ext { n: x.n + 1, to: x.to };
        }
    }
    e
}
// What is expected at the current position.
const S_REQ: u8 = 0; // a required unnamed argument
const S_REQ_SEP: u8 = 1; // the comma between two of them
const S_SEP: u8 = 2; // the end or the comma after an argument
const S_ARG: u8 = 3; // the end or an argument
const S_FIN: u8 = 4; // an outcome has been determined
const S_IN: u8 = 5; // inside `name(...)`: the end or a value
const S_IN_SEP: u8 = 6; // inside `name(...)`: the end or a comma

/// What the documentation says about an input of at most `n` tokens. One pass: `p` is the
/// position the next step starts from.
pub fn spec(c: &Cfg, ts: &Toks, n: usize) -> Out {
    let mut o = OBS0;
    let (mut may_flag, mut may_nv, mut may_na) = (false, false, false);
    let mut no_unnamed = true;
    let mut rest: usize = NF;
    let mut req: usize = NF; // the first required unnamed parameter not read yet
    let mut any_e = false;
    let mut i = 0;
    while i < c.n {
        let f = &c.f[i];
        if f.role == NAMED || f.role == REST {
            may_flag |= f.styles & FLAG != 0;
            may_nv |= f.styles & NV != 0;
            may_na |= f.styles & (NA | NAL) != 0;
        }
        if f.role == REST {
            rest = i;
        }
        if f.role == UREQ && req == NF {
            req = i;
        }
        if f.role == UOPT || f.role == UVAR {
            no_unnamed = false;
        }
        if f.role == UVAR {
            o.f[i] = ob(2, 0, 0);
        }
        any_e |= f.leaf == LEAF_E;
        i += 1;
    }
    let ext = if any_e { extents(ts, n) } else { [Ext { n: 0, to: 0 }; CAP + 1] };
    let mut st = if req < NF { S_REQ } else { S_ARG };
    let mut named_used = false;
    let mut leftover: u8 = 255;
    let mut class = OK;
    let mut loc: u8 = 255;
    let mut p: usize = 0;
    // The argument whose parentheses are being read.
    let mut cur: usize = 0;
    let mut cur_at: u8 = 0;
    let mut cur_v: u64 = 0;
    let mut cur_key: u64 = 0;
    let mut cur_dup = false;

    let mut i = 0;
    while i <= n {
        let at_end = i >= ts.len;
        let live = st != S_FIN && p == i;
        let t = if at_end { NIL } else { ts.t[i] };
        let u = if i + 1 < ts.len && i < n { ts.t[i + 1] } else { NIL };
        let v = if i + 2 < ts.len && i < n { ts.t[i + 2] } else { NIL };
        let mut bad = OK;
        let mut bad_at = i as u8;
        if !live {
        } else if st == S_REQ {
            let (ok, v, to) = leaf(c.f[req].leaf, ts, &ext, i);
            if at_end {
                bad = MISSING;
            } else if !ok {
                bad = SYNTAX;
            } else {
                o.f[req] = ob_push(ob(2, 0, 0), v);
                p = to;
                let mut next = NF;
                let mut j = c.n;
                while j > 0 {
                    j -= 1;
                    if j > req && c.f[j].role == UREQ {
                        next = j;
                    }
                }
                req = next;
                st = if req < NF { S_REQ_SEP } else { S_SEP };
            }
        } else if st == S_REQ_SEP {
            if at_end {
                bad = MISSING;
            } else if !is_punct(t, b',') {
                bad = SYNTAX;
            } else {
                p = i + 1;
                st = S_REQ;
            }
        } else if st == S_SEP {
            if at_end {
                st = S_FIN;
            } else if !is_punct(t, b',') {
                bad = SYNTAX;
            } else {
                p = i + 1;
                st = S_ARG;
            }
        } else if st == S_IN || st == S_IN_SEP {
            if t.k == K_CLOSE {
                st = S_SEP;
                p = i + 1;
                if cur_dup {
                    bad = DUP;
                    bad_at = cur_at;
                } else {
                    store(&mut o, cur, rest, cur_key, cur_v);
                }
            } else if st == S_IN_SEP {
                p = i + 1;
                st = S_IN;
                if !is_punct(t, b',') {
                    bad = if cur_dup { DUP } else { SYNTAX };
                    bad_at = if cur_dup { 254 } else { i as u8 };
                }
            } else {
                let (ok, v, to) = leaf(c.f[cur].leaf, ts, &ext, i);
                if ok {
                    cur_v = ob_push(cur_v, v);
                    p = to;
                    st = S_IN_SEP;
                } else {
                    bad = if cur_dup { DUP } else { SYNTAX };
                    bad_at = if cur_dup { 254 } else { i as u8 };
                }
            }
        } else if at_end {
            st = S_FIN;
        } else {
            // An argument. Which named style does it have?
            let mut style = 0;
            if t.k == K_IDENT && (!c.snake || snake(t)) {
                if i + 1 >= ts.len || is_punct(u, b',') {
                    if no_unnamed || may_flag {
                        style = FLAG;
                    }
                } else if is_eq(u, v) {
                    if no_unnamed || may_nv {
                        style = NV;
                    }
                } else if u.k == K_OPEN && u.x == 0 {
                    if no_unnamed || may_na {
                        style = NA | NAL;
                    }
                }
                if style == 0 && no_unnamed {
                    bad = SYNTAX;
                }
            } else if no_unnamed {
                bad = MANY;
            }
            if bad != OK {
            } else if style != 0 {
                named_used = true;
                let mut target = NF;
                let mut known = false;
                let mut j = 0;
                while j < c.n {
                    if c.f[j].role == NAMED && name_is(t, c.f[j].name) {
                        known = true;
                        if c.f[j].styles & style != 0 {
                            target = j;
                        }
                    }
                    j += 1;
                }
                if target == NF && rest < NF && c.f[rest].styles & style != 0 {
                    target = rest;
                }
                if target == NF {
                    bad = if known { STYLE } else { UNKNOWN };
                } else {
                    let f = c.f[target];
                    let mut dup = false;
                    if target == rest {
                        j = 0;
                        while j < NR {
                            dup |= j < o.rn && o.rk[j] == key(t);
                            j += 1;
                        }
                    } else {
                        dup = o.f[target] != 0;
                    }
                    let sp = if f.spanned { i as u8 } else { 0 };
                    // A repeated parameter is an error whatever its value.
                    if style == FLAG {
                        p = i + 1;
                        st = S_SEP;
                        if dup {
                            bad = DUP;
                        } else {
                            store(&mut o, target, rest, key(t), ob(1, sp, 0));
                        }
                    } else if style == NV || f.styles & NA != 0 {
                        let close = i + 1 + u.y as usize;
                        let (ok, v, to) = if f.leaf == LEAF_N {
                            let (ok, v) = inner(ts, n, i + 2, close);
                            (ok, v, close)
                        } else {
                            leaf(f.leaf, ts, &ext, i + 2)
                        };
                        if !ok {
                            bad = if dup { DUP } else { SYNTAX };
                            bad_at = if dup || f.leaf == LEAF_N { 254 } else { i as u8 + 2 };
                        } else if dup {
                            bad = DUP;
                        } else {
                            store(&mut o, target, rest, key(t), ob_push(ob(2, sp, 0), v));
                            if style != NV && to < close && leftover == 255 {
                                leftover = to as u8;
                            }
                        }
                        p = if style == NV { to } else { close + 1 };
                        st = S_SEP;
                    } else {
                        cur = target;
                        cur_at = i as u8;
                        cur_key = key(t);
                        cur_v = ob(2, sp, 0);
                        cur_dup = dup;
                        p = i + 2;
                        st = S_IN;
                    }
                }
            } else if named_used {
                bad = ORDER;
            } else {
                // The next free optional parameter, or else the variadic one.
                let mut target = NF;
                let mut j = 0;
                while j < c.n {
                    if target == NF && (c.f[j].role == UOPT && o.f[j] == 0 || c.f[j].role == UVAR) {
                        target = j;
                    }
                    j += 1;
                }
                if target == NF {
                    bad = MANY;
                } else {
                    let (ok, v, to) = leaf(c.f[target].leaf, ts, &ext, i);
                    if ok {
                        o.f[target] = ob_push(if o.f[target] == 0 { ob(2, 0, 0) } else { o.f[target] }, v);
                        p = to;
                        st = S_SEP;
                    } else {
                        bad = SYNTAX;
                    }
                }
            }
        }
        if bad != OK {
            st = S_FIN;
            class = bad;
            loc = if bad == MISSING { 255 } else { bad_at };
            // Where a value ends too early, syn decides which span that is.
            let b = bad_at as usize;
            if bad == SYNTAX && (b >= ts.len || b < n && ts.t[b].k == K_CLOSE) {
                loc = 254;
            }
        }
        i += 1;
    }
    if class == OK {
        i = 0;
        while i < c.n {
            if c.f[i].role == NAMED && c.f[i].required && o.f[i] == 0 {
                class = MISSING;
            }
            i += 1;
        }
        if class == OK && leftover != 255 {
            class = LEFT;
            loc = leftover;
        }
    }
    Out { class, loc, obs: o }
}
/// A value of kind `leaf` at `p`: whether there is one, its byte in the observation, and
/// where it ends.
fn leaf(leaf: u8, ts: &Toks, ext: &[Ext; CAP + 1], p: usize) -> (bool, u8, usize) {
    if leaf == LEAF_L {
        (p < ts.len && ts.t[p].k == K_LIT, p as u8, p + 1)
    } else {
        let e = ext[p];
        (e.n > 0, p as u8 | e.n << 4, e.to as usize)
    }
}
fn store(o: &mut Obs, target: usize, rest: usize, key: u64, v: u64) {
    if target == rest {
        let mut j = 0;
        while j < NR {
            if j == o.rn {
                o.rk[j] = key;
                o.rv[j] = v;
            }
            j += 1;
        }
        o.rn += 1;
    } else {
        let mut j = 0;
        while j < NF {
            if j == target {
                o.f[j] = v;
            }
            j += 1;
        }
    }
}
/// The argument list of `struct { x: Option<L>, y: bool }` in `from..to`: whether it is
/// accepted, and its byte in the observation.
fn inner(ts: &Toks, n: usize, from: usize, to: usize) -> (bool, u8) {
    let (mut ok, mut x, mut y) = (true, 0u8, 0u8);
    let mut sep = false;
    let mut p = from;
    let mut i = 0;
    while i < n {
        if ok && i >= from && i < to && p == i {
            let t = ts.t[i];
            if sep {
                ok = is_punct(t, b',');
                sep = false;
                p += 1;
            } else if t.k == K_IDENT && name_is(t, (1, b'y' as u32)) && y == 0 {
                ok = i + 1 == to || is_punct(ts.t[i + 1], b',');
                y = 1;
                sep = true;
                p += 1;
            } else if t.k == K_IDENT && name_is(t, (1, b'x' as u32)) && x == 0 {
                ok = i + 2 < to && is_punct(ts.t[i + 1], b'=') && ts.t[i + 2].k == K_LIT;
                x = i as u8 + 2;
                sep = true;
                p += 3;
            } else {
                ok = false;
            }
        }
        i += 1;
    }
    (ok, x | y << 4)
}
