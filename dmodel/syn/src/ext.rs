use crate::parse::{ParseStream, Token, TokenMarker, Tok, K_IDENT};
use crate::{Ident, Result};
pub trait IdentExt: Sized {
    fn parse_any(input: ParseStream) -> Result<Self>;
    #[allow(non_upper_case_globals)]
    const peek_any: fn(TokenMarker) -> AnyIdent = any_ident;
    fn unraw(&self) -> Ident;
}
pub struct AnyIdent;
fn any_ident(m: TokenMarker) -> AnyIdent {
    match m {}
}
impl Token for AnyIdent {
    fn peek(t: Tok) -> bool {
        t.k == K_IDENT
    }
}
impl IdentExt for Ident {
    fn parse_any(input: ParseStream) -> Result<Self> {
        let t = input.tok();
        if t.k != K_IDENT {
            return Err(input.error("expected ident"));
        }
        input.bump();
        Ok(Ident::of(t.t, t.x != 0, t.sp))
    }
    fn unraw(&self) -> Ident {
        Ident::of(self.text(), false, self.sp)
    }
}
