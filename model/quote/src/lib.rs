//! Model of `quote::ToTokens`.
use proc_macro2::*;
pub trait ToTokens {
    fn to_tokens(&self, tokens: &mut TokenStream);
    fn to_token_stream(&self) -> TokenStream {
        let mut t = TokenStream::new();
        self.to_tokens(&mut t);
        t
    }
    fn into_token_stream(self) -> TokenStream
    where
        Self: Sized,
    {
        self.to_token_stream()
    }
}
pub trait TokenStreamExt {
    fn append<U: Into<TokenTree>>(&mut self, token: U);
    fn append_all<I: IntoIterator>(&mut self, iter: I)
    where
        I::Item: ToTokens;
}
impl TokenStreamExt for TokenStream {
    fn append<U: Into<TokenTree>>(&mut self, token: U) {
        self.push_tree(token.into());
    }
    fn append_all<I: IntoIterator>(&mut self, iter: I)
    where
        I::Item: ToTokens,
    {
        for t in iter {
            t.to_tokens(self);
        }
    }
}
impl<'a, T: ?Sized + ToTokens> ToTokens for &'a T {
    fn to_tokens(&self, tokens: &mut TokenStream) {
        (**self).to_tokens(tokens);
    }
}
impl<'a, T: ?Sized + ToTokens> ToTokens for &'a mut T {
    fn to_tokens(&self, tokens: &mut TokenStream) {
        (**self).to_tokens(tokens);
    }
}
impl<T: ?Sized + ToTokens> ToTokens for Box<T> {
    fn to_tokens(&self, tokens: &mut TokenStream) {
        (**self).to_tokens(tokens);
    }
}
impl<T: ToTokens> ToTokens for Option<T> {
    fn to_tokens(&self, tokens: &mut TokenStream) {
        if let Some(t) = self {
            t.to_tokens(tokens);
        }
    }
}
impl ToTokens for Ident {
    fn to_tokens(&self, tokens: &mut TokenStream) {
        tokens.push_tree(TokenTree::Ident(*self));
    }
}
impl ToTokens for Punct {
    fn to_tokens(&self, tokens: &mut TokenStream) {
        tokens.push_tree(TokenTree::Punct(*self));
    }
}
impl ToTokens for Literal {
    fn to_tokens(&self, tokens: &mut TokenStream) {
        tokens.push_tree(TokenTree::Literal(*self));
    }
}
impl ToTokens for Group {
    fn to_tokens(&self, tokens: &mut TokenStream) {
        tokens.push_group(self.delim, self.open, self.close, &self.stream);
    }
}
impl ToTokens for TokenTree {
    fn to_tokens(&self, tokens: &mut TokenStream) {
        tokens.push_tree(self.clone());
    }
}
impl ToTokens for TokenStream {
    fn to_tokens(&self, tokens: &mut TokenStream) {
        tokens.push_stream(self);
    }
}
