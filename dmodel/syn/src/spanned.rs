use crate::*;
pub trait Spanned {
    fn span(&self) -> Span;
}
impl<T: ?Sized + ToTokens> Spanned for T {
    fn span(&self) -> Span {
        Span::call_site()
    }
}
