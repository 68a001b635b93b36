//! Symbolic token streams: the witness is an array of packed tokens.
pub const CAP: usize = 16;
pub const K_IDENT: u8 = 0;
pub const K_PUNCT: u8 = 1;
pub const K_LIT: u8 = 2;
pub const K_OPEN: u8 = 3;
pub const K_CLOSE: u8 = 4;

/// `k` kind; `x` raw flag / character / literal kind / delimiter; `y` joint flag, or for an
/// opening delimiter the distance to its closing one; `tl`, `w` text (packed, first byte
/// lowest).
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct W {
    pub k: u8,
    pub x: u8,
    pub y: u8,
    pub tl: u8,
    pub w: u32,
}
/// A token of a frame that is not fixed.
pub const ANY: u64 = u64::MAX;
pub const NIL: W = W { k: K_CLOSE, x: 9, y: 0, tl: 0, w: 0 };
pub fn unpack(v: u64) -> W {
    W {
        k: (v & 7) as u8,
        x: (v >> 3) as u8,
        y: (v >> 11) as u8,
        tl: ((v >> 19) & 7) as u8,
        w: (v >> 32) as u32,
    }
}
#[derive(Clone, Copy)]
pub struct Toks {
    pub t: [W; CAP],
    pub len: usize,
}
impl Toks {
    pub fn at(&self, i: usize, end: usize) -> W {
        if i < end && i < CAP { self.t[i] } else { NIL }
    }
}

fn ident_char(b: u8) -> bool {
    (b >= b'a' && b <= b'z') || (b >= b'A' && b <= b'Z') || (b >= b'0' && b <= b'9') || b == b'_'
}
pub fn text(s: &str) -> (u8, u32) {
    let b = s.as_bytes();
    let mut w = 0;
    let mut i = 0;
    while i < b.len() {
        w |= (b[i] as u32) << (8 * i as u32);
        i += 1;
    }
    (b.len() as u8, w)
}
const fn p(s: &[u8; 4]) -> u32 {
    (s[0] as u32) | (s[1] as u32) << 8 | (s[2] as u32) << 16 | (s[3] as u32) << 24
}
pub fn valid_ident(t: W) -> bool {
    let (a, b, c, d) = (t.w as u8, (t.w >> 8) as u8, (t.w >> 16) as u8, (t.w >> 24) as u8);
    let n = t.tl;
    let raw_ok = t.x == 0
        || (t.x == 1
            && !(n == 1 && a == b'_')
            && !(n == 4 && (t.w == p(b"self") || t.w == p(b"Self"))));
    raw_ok
        && n >= 1
        && n <= 4
        && ident_char(a)
        && !(a >= b'0' && a <= b'9')
        && (if n > 1 { ident_char(b) } else { b == 0 })
        && (if n > 2 { ident_char(c) } else { c == 0 })
        && (if n > 3 { ident_char(d) } else { d == 0 })
        && t.y == 0
}
fn valid_punct(t: W) -> bool {
    (t.x == b','
        || t.x == b'='
        || t.x == b'+'
        || t.x == b':'
        || t.x == b'>'
        || t.x == b'-'
        || t.x == b';'
        || t.x == b'!')
        && t.y <= 1
        && t.tl == 0
        && t.w == 0
}
/// Every token stream the real `proc_macro2` can hold (within the alphabet): delimiters
/// balanced and matching, at most `depth` deep.
pub fn wf(ts: &Toks, n: usize, depth: usize, delims: u8) -> bool {
    let mut ok = ts.len <= n;
    let mut d: usize = 0;
    let mut s0: usize = 0;
    let mut s1: usize = 0;
    let mut i = 0;
    while i < n {
        let t = ts.t[i];
        let live = i < ts.len;
        let v = if t.k == K_IDENT {
            valid_ident(t)
        } else if t.k == K_PUNCT {
            valid_punct(t)
        } else if t.k == K_LIT {
            t.x <= 1 && t.y == 0 && t.tl == 0 && t.w == 0
        } else if t.k == K_OPEN {
            // A delimiter kind is allowed if its bit is set in `delims`.
            let v = d < depth && t.x <= 2 && (delims >> t.x) & 1 == 1 && t.y >= 1 && t.tl == 0 && t.w == 0;
            if live {
                if d == 0 {
                    s0 = i;
                } else {
                    s1 = i;
                }
                d += 1;
            }
            v
        } else if t.k == K_CLOSE {
            let o = if d == 2 { s1 } else { s0 };
            let v = d > 0
                && ts.t[o].y as usize == i - o
                && ts.t[o].x == t.x
                && t.y == 0
                && t.tl == 0
                && t.w == 0;
            if live && d > 0 {
                d -= 1;
            }
            v
        } else {
            false
        };
        ok = ok && (!live || v);
        i += 1;
    }
    ok && d == 0
}
#[cfg(kani)]
pub static mut WIT: [u64; CAP + 1] = [0x9e37_79b9_7f4a_7c15; CAP + 1]; // see model/syn/src/parse.rs, ARENA_LEN
/// An arbitrary well-formed stream: of at most `n` tokens or, if there is a `frame`, of
/// exactly `n` tokens with the fixed ones as given.
#[cfg(kani)]
pub fn any_toks(n: usize, depth: usize, delims: u8, frame: &[u64]) -> Toks {
    let mut ts = Toks { t: [NIL; CAP], len: 0 };
    let l: u64 = if frame.len() > 0 { n as u64 } else { kani::any() };
    unsafe {
        WIT[0] = l;
        ts.len = (WIT[0] & 31) as usize;
    }
    let mut i = 0;
    while i < n {
        let v: u64 = if frame.len() > 0 && frame[i] != ANY { frame[i] } else { kani::any() };
        // Read back from there, so that slicing keeps it.
        unsafe {
            WIT[i + 1] = v;
            ts.t[i] = unpack(WIT[i + 1]);
        }
        i += 1;
    }
    kani::assume(wf(&ts, n, depth, delims));
    ts
}
#[cfg(not(kani))]
pub fn toks_of(wit: &[u64], n: usize, depth: usize) -> Toks {
    let mut ts = Toks { t: [NIL; CAP], len: (wit[0] & 31) as usize };
    for i in 0..ts.len {
        ts.t[i] = unpack(wit[i + 1]);
    }
    if !wf(&ts, n, depth, 7) {
        println!("MALFORMED");
        std::process::exit(3);
    }
    ts
}
