use proc_macro2::Span;
use quote::ToTokens;
pub trait Spanned {
    fn span(&self) -> Span;
}
impl<T: ?Sized + ToTokens> Spanned for T {
    fn span(&self) -> Span {
        let ts = self.to_token_stream();
        if ts.len > 0 {
            Span(ts.toks[0].sp())
        } else {
            Span::call_site()
        }
    }
}
