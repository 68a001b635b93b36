use crate::buffer::Cursor;
use crate::error::Result;
use crate::parse::{Parse, ParseStream, TokenMarker};
use proc_macro2::extra::DelimSpan;
use proc_macro2::*;
use quote::ToTokens;

pub trait Token {
    fn peek(cursor: Cursor) -> bool;
}

/// syn's `accept_as_ident`, restricted to words that fit the model (TXT bytes).
pub fn accept_as_ident(t: &Txt) -> bool {
    const KW: &[&str] = &[
        "_", "as", "box", "do", "dyn", "else", "enum", "fn", "for", "if", "impl", "in", "let",
        "loop", "mod", "move", "mut", "priv", "pub", "ref", "Self", "self", "true", "try", "type",
        "use",
    ];
    let mut i = 0;
    while i < KW.len() {
        if t.eq_str(KW[i]) {
            return false;
        }
        i += 1;
    }
    true
}
impl Parse for Ident {
    fn parse(input: ParseStream) -> Result<Self> {
        match input.cursor().ident() {
            Some((i, rest)) if i.raw() || accept_as_ident(&i.txt()) => {
                input.advance(rest);
                Ok(i)
            }
            _ => Err(input.error("expected identifier")),
        }
    }
}
impl Token for Ident {
    fn peek(cursor: Cursor) -> bool {
        match cursor.ident() {
            Some((i, _)) => i.raw() || accept_as_ident(&i.txt()),
            None => false,
        }
    }
}
impl Token for Punct {
    fn peek(cursor: Cursor) -> bool {
        cursor.punct().is_some()
    }
}
impl Token for Literal {
    fn peek(cursor: Cursor) -> bool {
        cursor.literal().is_some()
    }
}
impl Token for TokenTree {
    fn peek(cursor: Cursor) -> bool {
        !cursor.eof()
    }
}

macro_rules! puncts {
    ($($s:literal $name:ident $n:literal)*) => {$(
        #[derive(Clone, Copy, Debug)]
        pub struct $name {
            pub spans: [Span; $n],
        }
        #[doc(hidden)]
        #[allow(non_snake_case)]
        pub fn $name(marker: TokenMarker) -> $name {
            match marker {}
        }
        impl Default for $name {
            fn default() -> Self {
                $name { spans: [Span::call_site(); $n] }
            }
        }
        impl PartialEq for $name {
            fn eq(&self, _: &Self) -> bool {
                true
            }
        }
        impl Parse for $name {
            fn parse(input: ParseStream) -> Result<Self> {
                let mut c = input.cursor();
                if !c.peek_punct($s) {
                    return Err(input.error("expected punctuation"));
                }
                let mut spans = [Span::call_site(); $n];
                let mut i = 0;
                while i < $n {
                    spans[i] = c.span();
                    if let Some((_, rest)) = c.punct() {
                        c = rest;
                    }
                    i += 1;
                }
                input.advance(c);
                Ok($name { spans })
            }
        }
        impl Token for $name {
            fn peek(cursor: Cursor) -> bool {
                cursor.peek_punct($s)
            }
        }
        impl ToTokens for $name {
            fn to_tokens(&self, tokens: &mut TokenStream) {
                let b = $s.as_bytes();
                let mut i = 0;
                while i < $n {
                    tokens.push(Tok::punct(b[i], i + 1 < $n, self.spans[i].0));
                    i += 1;
                }
            }
        }
    )*};
}
puncts! {
    "," Comma 1 "=" Eq 1 "+" Plus 1 ":" Colon 1 "::" PathSep 2 "=>" FatArrow 2
    "==" EqEq 2 ";" Semi 1 "-" Minus 1 "->" RArrow 2 "*" Star 1 "." Dot 1 "|" Or 1
    "&" And 1 "!" Not 1 "?" Question 1 "#" Pound 1 "<" Lt 1 ">" Gt 1 "@" At 1
}
macro_rules! keywords {
    ($($s:literal $name:ident)*) => {$(
        #[derive(Clone, Copy, Debug)]
        pub struct $name {
            pub span: Span,
        }
        #[doc(hidden)]
        #[allow(non_snake_case)]
        pub fn $name(marker: TokenMarker) -> $name {
            match marker {}
        }
        impl Default for $name {
            fn default() -> Self {
                $name { span: Span::call_site() }
            }
        }
        impl Parse for $name {
            fn parse(input: ParseStream) -> Result<Self> {
                let c = input.cursor();
                if !c.peek_keyword($s) {
                    return Err(input.error("expected keyword"));
                }
                let (i, rest) = c.ident().unwrap();
                input.advance(rest);
                Ok($name { span: i.span() })
            }
        }
        impl Token for $name {
            fn peek(cursor: Cursor) -> bool {
                cursor.peek_keyword($s)
            }
        }
        impl ToTokens for $name {
            fn to_tokens(&self, tokens: &mut TokenStream) {
                tokens.push(Tok::ident(Txt::new($s), false, self.span.0));
            }
        }
    )*};
}
keywords! { "fn" Fn "if" If "in" In "as" As "pub" Pub "use" Use "mod" Mod "let" Let "mut" Mut "for" For "_" Underscore }

macro_rules! delims {
    ($($name:ident $d:ident)*) => {$(
        #[derive(Clone, Copy, Debug)]
        pub struct $name {
            pub span: DelimSpan,
        }
        #[doc(hidden)]
        #[allow(non_snake_case)]
        pub fn $name(marker: TokenMarker) -> $name {
            match marker {}
        }
        impl Default for $name {
            fn default() -> Self {
                $name { span: DelimSpan { open: Span::call_site(), close: Span::call_site() } }
            }
        }
        impl PartialEq for $name {
            fn eq(&self, _: &Self) -> bool {
                true
            }
        }
        impl $name {
            pub fn surround<F>(&self, tokens: &mut TokenStream, f: F)
            where
                F: FnOnce(&mut TokenStream),
            {
                let mut inner = TokenStream::new();
                f(&mut inner);
                tokens.push_group(Delimiter::$d, self.span.open, self.span.close, &inner);
            }
        }
        impl Token for $name {
            fn peek(cursor: Cursor) -> bool {
                cursor.group(Delimiter::$d).is_some()
            }
        }
    )*};
}
delims! { Paren Parenthesis Brace Brace Bracket Bracket }

#[macro_export]
macro_rules! Token {
    [,] => { $crate::token::Comma };
    [=] => { $crate::token::Eq };
    [+] => { $crate::token::Plus };
    [:] => { $crate::token::Colon };
    [::] => { $crate::token::PathSep };
    [=>] => { $crate::token::FatArrow };
    [==] => { $crate::token::EqEq };
    [;] => { $crate::token::Semi };
    [-] => { $crate::token::Minus };
    [->] => { $crate::token::RArrow };
    [*] => { $crate::token::Star };
    [.] => { $crate::token::Dot };
    [|] => { $crate::token::Or };
    [&] => { $crate::token::And };
    [!] => { $crate::token::Not };
    [?] => { $crate::token::Question };
    [#] => { $crate::token::Pound };
    [<] => { $crate::token::Lt };
    [>] => { $crate::token::Gt };
    [@] => { $crate::token::At };
    [fn] => { $crate::token::Fn };
    [if] => { $crate::token::If };
    [in] => { $crate::token::In };
    [as] => { $crate::token::As };
    [pub] => { $crate::token::Pub };
    [use] => { $crate::token::Use };
    [mod] => { $crate::token::Mod };
    [let] => { $crate::token::Let };
    [mut] => { $crate::token::Mut };
    [for] => { $crate::token::For };
    [_] => { $crate::token::Underscore };
}
