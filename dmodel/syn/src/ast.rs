use crate::parse::Parser;
use crate::punctuated::Punctuated;
use crate::token::{Comma, PathSep};
use crate::*;

#[derive(Clone, Debug)]
pub struct DeriveInput {
    pub attrs: Vec<Attribute>,
    pub ident: Ident,
    pub generics: Generics,
    pub data: Data,
}
#[derive(Clone, Debug)]
pub enum Data {
    Struct(DataStruct),
    Enum(DataEnum),
    Union(DataUnion),
}
pub type DataStruct = Ptr<body::DataStruct>;
pub type DataEnum = Ptr<body::DataEnum>;
pub type DataUnion = Ptr<body::DataUnion>;
#[derive(Clone, Debug)]
pub struct Variant {
    pub attrs: Vec<Attribute>,
    pub ident: Ident,
    pub fields: Fields,
}
#[derive(Clone, Debug)]
pub enum Fields {
    Named(FieldsNamed),
    Unnamed(FieldsUnnamed),
    Unit,
}
pub type FieldsNamed = Ptr<body::FieldsNamed>;
pub type FieldsUnnamed = Ptr<body::FieldsUnnamed>;
impl Fields {
    pub fn iter(&self) -> std::slice::Iter<'_, Field> {
        match self {
            Fields::Named(f) => f.named.iter(),
            Fields::Unnamed(f) => f.unnamed.iter(),
            Fields::Unit => [].iter(),
        }
    }
    pub fn len(&self) -> usize {
        match self {
            Fields::Named(f) => f.named.len(),
            Fields::Unnamed(f) => f.unnamed.len(),
            Fields::Unit => 0,
        }
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
}
impl<'a> IntoIterator for &'a Fields {
    type Item = &'a Field;
    type IntoIter = std::slice::Iter<'a, Field>;
    fn into_iter(self) -> Self::IntoIter {
        self.iter()
    }
}
#[derive(Clone, Debug)]
pub struct Field {
    pub attrs: Vec<Attribute>,
    pub ident: Option<Ident>,
    pub ty: Type,
}

#[derive(Clone, Debug)]
pub struct Attribute {
    pub name: Ident,
    /// Its place in `ATTRS`.
    pub at: u8,
}
#[derive(Clone, Copy)]
pub struct AttrArgs {
    /// Whether it has arguments: `#[name(...)]`.
    pub list: bool,
    pub start: u8,
    pub end: u8,
}
/// The arguments of the definition's attributes.
pub static mut ATTRS: [AttrArgs; 16] = [AttrArgs { list: true, start: 0x44, end: 0x55 }; 16];
impl Attribute {
    pub fn path(&self) -> AttrPath<'_> {
        AttrPath { name: &self.name }
    }
    pub fn parse_args<T: parse::Parse>(&self) -> Result<T> {
        self.parse_args_with(T::parse)
    }
    pub fn parse_args_with<F: Parser>(&self, parser: F) -> Result<F::Output> {
        let a = unsafe { ATTRS[self.at as usize] };
        if !a.list {
            return Err(Error::new(self.name.span(), "expected attribute arguments in parentheses"));
        }
        parser.over(a.start, a.end)
    }
}
#[derive(Clone, Copy)]
pub struct AttrPath<'a> {
    name: &'a Ident,
}
impl<'a> AttrPath<'a> {
    pub fn is_ident<I: ?Sized>(&self, ident: &I) -> bool
    where
        Ident: PartialEq<I>,
    {
        self.name == ident
    }
    pub fn get_ident(&self) -> Option<&'a Ident> {
        Some(self.name)
    }
}

/// A box, as far as a reader can tell.
#[derive(Debug)]
pub struct Ptr<T: 'static>(pub &'static T);
impl<T> Clone for Ptr<T> {
    fn clone(&self) -> Self {
        Ptr(self.0)
    }
}
impl<T> std::ops::Deref for Ptr<T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.0
    }
}
impl<T> AsRef<T> for Ptr<T> {
    fn as_ref(&self) -> &T {
        self.0
    }
}
#[derive(Clone, Debug)]
pub enum Type {
    Path(TypePath),
    Group(TypeGroup),
    Paren(TypeParen),
    Reference(TypeReference),
    Tuple(TypeTuple),
}
pub type TypePath = Ptr<body::TypePath>;
pub type TypeGroup = Ptr<body::TypeGroup>;
pub type TypeParen = Ptr<body::TypeParen>;
pub type TypeReference = Ptr<body::TypeReference>;
pub type TypeTuple = Ptr<body::TypeTuple>;
#[derive(Clone, Debug)]
pub struct QSelf {
    pub position: usize,
}
#[derive(Clone, Debug, Default)]
pub struct Path {
    pub leading_colon: Option<PathSep>,
    pub segments: Punctuated<PathSegment, PathSep>,
}
impl Path {
    pub fn is_ident<I: ?Sized>(&self, ident: &I) -> bool
    where
        Ident: PartialEq<I>,
    {
        match self.get_ident() {
            Some(i) => i == ident,
            None => false,
        }
    }
    pub fn get_ident(&self) -> Option<&Ident> {
        if self.leading_colon.is_none() && self.segments.len() == 1 && self.segments[0].arguments.is_none() {
            Some(&self.segments[0].ident)
        } else {
            None
        }
    }
}
#[derive(Clone, Debug)]
pub struct PathSegment {
    pub ident: Ident,
    pub arguments: PathArguments,
}
#[derive(Clone, Debug)]
pub enum PathArguments {
    None,
    AngleBracketed(AngleBracketedGenericArguments),
    Parenthesized(ParenthesizedGenericArguments),
}
impl PathArguments {
    pub fn is_empty(&self) -> bool {
        match self {
            PathArguments::None => true,
            PathArguments::AngleBracketed(b) => b.args.is_empty(),
            PathArguments::Parenthesized(_) => false,
        }
    }
    pub fn is_none(&self) -> bool {
        matches!(self, PathArguments::None)
    }
}
pub type ParenthesizedGenericArguments = Ptr<body::ParenthesizedGenericArguments>;
pub type AngleBracketedGenericArguments = Ptr<body::AngleBracketedGenericArguments>;
#[derive(Clone, Debug)]
pub enum GenericArgument {
    Lifetime(Lifetime),
    Type(Type),
    Const(Expr),
}
#[derive(Clone, Debug)]
pub struct Lifetime {
    pub ident: Ident,
}
#[derive(Clone, Debug)]
pub struct Expr;

#[derive(Clone, Debug, Default)]
pub struct Generics {
    pub where_clause: Option<WhereClause>,
}
#[derive(Clone, Debug, Default)]
pub struct WhereClause {
    pub predicates: Punctuated<WherePredicate, Comma>,
}
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct WherePredicate;
#[derive(Clone, Copy, Debug)]
pub struct ImplGenerics;
#[derive(Clone, Copy, Debug)]
pub struct TypeGenerics;
impl Generics {
    pub fn split_for_impl(&self) -> (ImplGenerics, TypeGenerics, Option<&WhereClause>) {
        (ImplGenerics, TypeGenerics, self.where_clause.as_ref())
    }
}
macro_rules! opaque {
    ($($t:ty)*) => {$(
        impl ToTokens for $t {
            fn to_tokens(&self, _tokens: &mut TokenStream) {}
        }
    )*};
}
opaque! { DeriveInput Field Fields Variant Type Path PathSegment PathArguments GenericArgument Attribute
    WherePredicate WhereClause ImplGenerics TypeGenerics Generics Expr Lifetime }
impl<T> ToTokens for Ptr<T> {
    fn to_tokens(&self, _tokens: &mut TokenStream) {}
}
/// What the nodes of the tree hold. It lies behind a pointer, which keeps the variants of an
/// enum alike (and their content constant for the solver).
pub mod body {
    use super::*;
    #[derive(Clone, Debug)]
    pub struct DataStruct {
        pub fields: Fields,
    }
    #[derive(Clone, Debug)]
    pub struct DataEnum {
        pub variants: Punctuated<Variant, Comma>,
    }
    #[derive(Clone, Debug)]
    pub struct DataUnion {
        pub fields: FieldsNamed,
    }
    #[derive(Clone, Debug)]
    pub struct FieldsNamed {
        pub named: Punctuated<Field, Comma>,
    }
    #[derive(Clone, Debug)]
    pub struct FieldsUnnamed {
        pub unnamed: Punctuated<Field, Comma>,
    }
    #[derive(Clone, Debug)]
    pub struct TypePath {
        pub qself: Option<QSelf>,
        pub path: Path,
    }
    #[derive(Clone, Debug)]
    pub struct TypeGroup {
        pub elem: Ptr<Type>,
    }
    #[derive(Clone, Debug)]
    pub struct TypeParen {
        pub elem: Ptr<Type>,
    }
    #[derive(Clone, Debug)]
    pub struct TypeReference {
        pub elem: Ptr<Type>,
    }
    #[derive(Clone, Debug)]
    pub struct TypeTuple {
        pub elems: Punctuated<Type, Comma>,
    }
    #[derive(Clone, Debug)]
    pub struct AngleBracketedGenericArguments {
        pub colon2_token: Option<PathSep>,
        pub args: Punctuated<GenericArgument, Comma>,
    }
    #[derive(Clone, Debug)]
    pub struct ParenthesizedGenericArguments {
        pub inputs: Punctuated<Type, Comma>,
    }
}
