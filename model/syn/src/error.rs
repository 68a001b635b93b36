use crate::buffer::Cursor;
use proc_macro2::Span;
use std::fmt::{self, Debug, Display};

pub type Result<T> = std::result::Result<T, Error>;

/// Only the location of an error is modelled; its text is outside the encoding.
#[derive(Clone)]
pub struct Error {
    span: Span,
}
impl Error {
    pub fn new(span: Span, message: impl Display) -> Self {
        let _ = &message;
        Error { span }
    }
    pub fn new_spanned(tokens: impl quote::ToTokens, message: impl Display) -> Self {
        let _ = &message;
        let ts = tokens.into_token_stream();
        let span = if ts.len > 0 { Span(ts.toks[0].sp()) } else { Span::call_site() };
        Error { span }
    }
    pub fn span(&self) -> Span {
        self.span
    }
    pub fn combine(&mut self, _another: Error) {}
    pub fn to_compile_error(&self) -> proc_macro2::TokenStream {
        proc_macro2::TokenStream::new()
    }
    pub fn into_compile_error(self) -> proc_macro2::TokenStream {
        proc_macro2::TokenStream::new()
    }
}
pub(crate) fn new_at<T: Display>(scope: Span, cursor: Cursor, message: T) -> Error {
    if cursor.eof() {
        Error::new(scope, message)
    } else {
        Error::new(cursor.span(), message)
    }
}
impl Debug for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Error")
    }
}
impl Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("error")
    }
}
impl std::error::Error for Error {}
