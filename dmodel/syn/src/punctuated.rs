use crate::parse::{Parse, ParseStream};
use crate::Result;
use mstd::model_prelude::*;
use std::marker::PhantomData;
use std::ops::Index;

#[derive(Clone, Debug)]
pub struct Punctuated<T, P> {
    pub vals: Vec<T>,
    m: PhantomData<P>,
}
impl<T, P> Default for Punctuated<T, P> {
    fn default() -> Self {
        Self::new()
    }
}
impl<T, P> Punctuated<T, P> {
    pub const fn new() -> Self {
        Punctuated { vals: Vec::new(), m: PhantomData }
    }
    pub const fn st(s: &'static [T]) -> Self {
        Punctuated { vals: Vec::st(s), m: PhantomData }
    }
    pub fn from_vec(vals: Vec<T>) -> Self {
        Punctuated { vals, m: PhantomData }
    }
    pub fn is_empty(&self) -> bool {
        self.vals.is_empty()
    }
    pub fn len(&self) -> usize {
        self.vals.len()
    }
    pub fn first(&self) -> Option<&T> {
        self.vals.first()
    }
    pub fn last(&self) -> Option<&T> {
        self.vals.last()
    }
    pub fn get(&self, i: usize) -> Option<&T> {
        self.vals.get(i)
    }
    pub fn iter(&self) -> std::slice::Iter<'_, T> {
        self.vals.iter()
    }
    pub fn push(&mut self, v: T) {
        self.vals.push(v);
    }
    pub fn parse_terminated(input: ParseStream) -> Result<Self>
    where
        T: Parse,
        P: Parse,
    {
        Self::parse_terminated_with(input, T::parse)
    }
    pub fn parse_terminated_with<'a>(input: ParseStream<'a>, parser: fn(ParseStream<'a>) -> Result<T>) -> Result<Self>
    where
        P: Parse,
    {
        let mut p = Punctuated::new();
        loop {
            if input.is_empty() {
                break;
            }
            let value = parser(input)?;
            p.vals.push(value);
            if input.is_empty() {
                break;
            }
            let _punct: P = input.parse()?;
        }
        Ok(p)
    }
}
impl<T, P> Index<usize> for Punctuated<T, P> {
    type Output = T;
    fn index(&self, i: usize) -> &T {
        &self.vals[i]
    }
}
impl<T, P> IntoIterator for Punctuated<T, P> {
    type Item = T;
    type IntoIter = mstd::vec::IntoIter<T>;
    fn into_iter(self) -> Self::IntoIter {
        self.vals.into_iter()
    }
}
impl<'a, T, P> IntoIterator for &'a Punctuated<T, P> {
    type Item = &'a T;
    type IntoIter = std::slice::Iter<'a, T>;
    fn into_iter(self) -> Self::IntoIter {
        self.vals.iter()
    }
}
