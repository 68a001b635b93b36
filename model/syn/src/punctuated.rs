use mstd::model_prelude::*;
use crate::error::Result;
use crate::parse::{Parse, ParseStream};
use crate::token::Token;
use proc_macro2::TokenStream;
use quote::ToTokens;
use std::ops::Index;

#[derive(Clone, Debug)]
pub struct Punctuated<T, P> {
    vals: Vec<T>,
    puncts: Vec<P>,
}
impl<T, P> Default for Punctuated<T, P> {
    fn default() -> Self {
        Self::new()
    }
}
impl<T, P> Punctuated<T, P> {
    pub const fn new() -> Self {
        Punctuated { vals: Vec::new(), puncts: Vec::new() }
    }
    pub fn is_empty(&self) -> bool {
        self.vals.is_empty()
    }
    pub fn len(&self) -> usize {
        self.vals.len()
    }
    pub fn first(&self) -> Option<&T> {
        self.vals.first()
    }
    pub fn last(&self) -> Option<&T> {
        self.vals.last()
    }
    pub fn get(&self, i: usize) -> Option<&T> {
        self.vals.get(i)
    }
    pub fn iter(&self) -> std::slice::Iter<'_, T> {
        self.vals.iter()
    }
    pub fn push_value(&mut self, v: T) {
        self.vals.push(v);
    }
    pub fn push_punct(&mut self, p: P) {
        self.puncts.push(p);
    }
    pub fn push(&mut self, v: T)
    where
        P: Default,
    {
        if !self.empty_or_trailing() {
            self.push_punct(Default::default());
        }
        self.push_value(v);
    }
    pub fn pop_punct(&mut self) -> Option<P> {
        if self.trailing_punct() { self.puncts.pop() } else { None }
    }
    pub fn pop(&mut self) -> Option<Pair<T, P>> {
        if self.vals.is_empty() {
            return None;
        }
        let p = self.pop_punct();
        let r = self.vals.pop().map(|t| match p {
            Some(p) => Pair::Punctuated(t, p),
            None => Pair::End(t),
        });
        r
    }
    pub fn iter_mut(&mut self) -> std::slice::IterMut<'_, T> {
        self.vals.iter_mut()
    }
    pub fn first_mut(&mut self) -> Option<&mut T> {
        self.vals.first_mut()
    }
    pub fn last_mut(&mut self) -> Option<&mut T> {
        self.vals.last_mut()
    }
    pub fn get_mut(&mut self, i: usize) -> Option<&mut T> {
        self.vals.get_mut(i)
    }
    pub fn clear(&mut self) {
        self.vals.clear();
        self.puncts.clear();
    }
    pub fn trailing_punct(&self) -> bool {
        !self.vals.is_empty() && self.vals.len() == self.puncts.len()
    }
    pub fn empty_or_trailing(&self) -> bool {
        self.vals.len() == self.puncts.len()
    }
    /// Model only: the separators, in order.
    pub fn seps(&self) -> &[P] {
        &self.puncts
    }
    pub fn parse_terminated(input: ParseStream) -> Result<Self>
    where
        T: Parse,
        P: Parse,
    {
        Self::parse_terminated_with(input, T::parse)
    }
    pub fn parse_terminated_with<'a>(
        input: ParseStream<'a>,
        parser: fn(ParseStream<'a>) -> Result<T>,
    ) -> Result<Self>
    where
        P: Parse,
    {
        let mut p = Punctuated::new();
        loop {
            if input.is_empty() {
                break;
            }
            let value = parser(input)?;
            p.push_value(value);
            if input.is_empty() {
                break;
            }
            let punct = input.parse()?;
            p.push_punct(punct);
        }
        Ok(p)
    }
    pub fn parse_separated_nonempty(input: ParseStream) -> Result<Self>
    where
        T: Parse,
        P: Token + Parse,
    {
        Self::parse_separated_nonempty_with(input, T::parse)
    }
    pub fn parse_separated_nonempty_with<'a>(
        input: ParseStream<'a>,
        parser: fn(ParseStream<'a>) -> Result<T>,
    ) -> Result<Self>
    where
        P: Token + Parse,
    {
        let mut p = Punctuated::new();
        loop {
            let value = parser(input)?;
            p.push_value(value);
            if !P::peek(input.cursor()) {
                break;
            }
            let punct = input.parse()?;
            p.push_punct(punct);
        }
        Ok(p)
    }
}
#[derive(Clone, Debug)]
pub enum Pair<T, P> {
    Punctuated(T, P),
    End(T),
}
impl<T, P> Pair<T, P> {
    pub fn into_value(self) -> T {
        match self {
            Pair::Punctuated(t, _) | Pair::End(t) => t,
        }
    }
    pub fn value(&self) -> &T {
        match self {
            Pair::Punctuated(t, _) | Pair::End(t) => t,
        }
    }
    pub fn punct(&self) -> Option<&P> {
        match self {
            Pair::Punctuated(_, p) => Some(p),
            Pair::End(_) => None,
        }
    }
}
impl<T, P: Default> Extend<T> for Punctuated<T, P> {
    fn extend<I: IntoIterator<Item = T>>(&mut self, it: I) {
        for t in it {
            self.push(t);
        }
    }
}
impl<T, P> std::ops::IndexMut<usize> for Punctuated<T, P> {
    fn index_mut(&mut self, i: usize) -> &mut T {
        &mut self.vals[i]
    }
}
impl<T, P> Index<usize> for Punctuated<T, P> {
    type Output = T;
    fn index(&self, i: usize) -> &T {
        &self.vals[i]
    }
}
impl<T, P> IntoIterator for Punctuated<T, P> {
    type Item = T;
    type IntoIter = mstd::vec::IntoIter<T>;
    fn into_iter(self) -> Self::IntoIter {
        self.vals.into_iter()
    }
}
impl<'a, T, P> IntoIterator for &'a Punctuated<T, P> {
    type Item = &'a T;
    type IntoIter = std::slice::Iter<'a, T>;
    fn into_iter(self) -> Self::IntoIter {
        self.vals.iter()
    }
}
impl<T, P: Default> FromIterator<T> for Punctuated<T, P> {
    fn from_iter<I: IntoIterator<Item = T>>(it: I) -> Self {
        let mut p = Punctuated::new();
        for t in it {
            p.push(t);
        }
        p
    }
}
impl<T: ToTokens, P: ToTokens> ToTokens for Punctuated<T, P> {
    fn to_tokens(&self, tokens: &mut TokenStream) {
        let mut i = 0;
        while i < self.vals.len() {
            self.vals[i].to_tokens(tokens);
            if i < self.puncts.len() {
                self.puncts[i].to_tokens(tokens);
            }
            i += 1;
        }
    }
}
