//! One verification task: for every token stream in the domain, what the generated parser
//! does agrees with the reference.
use crate::spec::*;
use crate::wit::*;
use crate::world::{build, ix};
use syn::parse::Parse;

pub trait Observe {
    fn observe(&self) -> Obs;
}
pub const C_OK: u16 = 1 << OK;
pub const C_DUP: u16 = 1 << DUP;
pub const C_MISSING: u16 = 1 << MISSING;
pub const C_UNKNOWN: u16 = 1 << UNKNOWN;
pub const C_STYLE: u16 = 1 << STYLE;
pub const C_MANY: u16 = 1 << MANY;
pub const C_ORDER: u16 = 1 << ORDER;
pub const C_SYNTAX: u16 = 1 << SYNTAX;
pub const C_LEFT: u16 = 1 << LEFT;
pub const C_ALL: u16 = 511;

/// What is compared.
pub const M_RESULT: u8 = 0; // accepted or rejected, and the value if accepted
pub const M_LOC: u8 = 1; // also where the error points
pub const M_TOTAL: u8 = 2; // nothing but termination without panic

#[cfg(kani)]
pub fn check<T: Parse + Observe>(c: &Cfg, n: usize, depth: usize, delims: u8, frame: &[u64], classes: u16, mode: u8) {
    let ts = any_toks(n, depth, delims, frame);
    let s = spec(c, &ts, n);
    kani::assume(classes >> s.class & 1 == 1);
    let r = syn::parse2::<T>(build(&ts));
    kani::cover!(true, "REACHED");
    match r {
        Ok(v) => {
            if mode != M_TOTAL {
                assert!(s.class == OK, "CLAIM: accepted an input that must be rejected");
                let o = v.observe();
                assert!(o == s.obs, "CLAIM: wrong value");
            }
        }
        Err(e) => {
            if mode != M_TOTAL {
                assert!(s.class != OK, "CLAIM: rejected an input that must be accepted");
            }
            if mode == M_LOC && s.loc != 254 {
                assert!(ix(e.span()) == s.loc, "CLAIM: error points at the wrong token");
            }
        }
    }
}

#[cfg(real)]
pub fn check<T: Parse + Observe>(c: &Cfg, n: usize, depth: usize, _delims: u8, _frame: &[u64], classes: u16, mode: u8, wit: &[u64]) -> Result<String, String> {
    let ts = toks_of(wit, n, depth);
    let s = spec(c, &ts, n);
    let stream = build(&ts);
    let shown = stream.to_string();
    if classes >> s.class & 1 != 1 {
        return Ok(format!("outside the domain: {shown}"));
    }
    let r = match std::panic::catch_unwind(|| syn::parse2::<T>(build(&ts))) {
        Ok(r) => r,
        Err(_) => return Err(format!("panics on `{shown}`")),
    };
    let want = if s.class == OK { format!("{:x?}", s.obs) } else { format!("rejection (class {}) at token {}", s.class, s.loc) };
    let (got, same) = match r {
        Ok(v) => {
            let o = v.observe();
            (format!("{:x?}", o), mode == M_TOTAL || s.class == OK && o == s.obs)
        }
        Err(e) => {
            let at = ix(e.span());
            (
                format!("rejection at token {at}: {e}"),
                mode == M_TOTAL || s.class != OK && (mode != M_LOC || s.loc == 254 || s.loc == at),
            )
        }
    };
    let m = format!("input `{shown}`: expected {want}; got {got}");
    if same { Ok(m) } else { Err(m) }
}
