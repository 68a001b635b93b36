"""Tasks over `#[derive(Parse)]` and `#[derive(ToTokens)]`.

A definition is written `NAME: items` (fields separated by blanks). An item:
  Id Any Num Str        an identifier, any word, an integer literal, a string literal
  = , :: => fn ...      the token
  ?x                    optional (an Option<_> of a leaf or token)
  *Id *Any              terminated, by commas
  ( [ {  m( m[ m{       an opening delimiter (`m`: a MacroDelimiter field)
  )x  )]x  )[           the field x (or an opening delimiter) after closing delimiters
  ^x                    #[parse(peek)]
  @T                    a field of the user type T
  T                     a field of a type parameter
  -                     no field (unit)
`n:` before the first item names the fields. An enum is a dict of variants."""
import re
from crates import Task
from sm import frame, ANY

LEAF = dict(Id=("syn::Ident", "ID"), Any=("syn::Ident", "ANYID"), Num=("syn::LitInt", "NUM"), Str=("syn::LitStr", "STR"))
PUNCT = {",": "Comma", "=": "Eq", "+": "Plus", ":": "Colon", "::": "PathSep", "=>": "FatArrow", ";": "Semi",
         "-": "Minus", "->": "RArrow", "!": "Not", "==": "EqEq"}
KW = {"fn": "Fn", "if": "If", "in": "In", "as": "As", "pub": "Pub"}
DELIM = {"(": ("Paren", 0, ")"), "{": ("Brace", 1, "}"), "[": ("Bracket", 2, "]")}
ATTR = {True: '"{}"', False: '"{}"'}


class Item:
    def __init__(self, text, split=False):
        self.peek = text.startswith("^")
        t = text.lstrip("^")
        self.closes = ""
        while t[0] in ")]}":
            self.closes += t[0]
            t = t[1:]
        self.peek = self.peek or t.startswith("^")
        t = t.lstrip("^")
        self.opt = t.startswith("?")
        self.term = t.startswith("*")
        t = t.lstrip("?*")
        self.mac = t.startswith("m") and t[1:2] in DELIM
        if self.mac:
            t = t[1:]
        self.open = t if t in DELIM else None
        self.user = t[1:] if t.startswith("@") else None
        self.t = t

    def kind(self):
        return LEAF[self.t][1] if self.t in LEAF else None

    def any(self):
        return self.t == "Any"

    def ty(self):
        t = self.t
        if self.mac:
            return "syn::MacroDelimiter"
        if self.open:
            return f"syn::token::{DELIM[self.open][0]}"
        if self.user:
            return self.user
        b = LEAF[t][0] if t in LEAF else f"syn::Token![{t}]" if t in PUNCT or t in KW else t
        if self.opt:
            return f"Option<{b}>"
        if self.term:
            return f"syn::punctuated::Punctuated<{b}, syn::Token![,]>"
        return b

    def attrs(self, style, parse):
        a = []
        cs = list(self.closes) + ([self.open] if self.open else [])
        if cs:
            # The arguments may be given one by one, together, or in several attributes.
            if style == 0:
                a.append("#[to_tokens({})]".format(", ".join(f'"{c}"' for c in cs)))
            elif style == 1:
                a.append('#[to_tokens("{}")]'.format("".join(cs)))
            else:
                a += [f'#[to_tokens("{c}")]' for c in cs]
        if parse:
            p = (["peek"] if self.peek else []) + (["terminated"] if self.term else []) + (["any"] if self.any() else [])
            if p and style == 2:
                a += [f"#[parse({x})]" for x in p]
            elif p and style == 3:
                a = [f"#[parse({x})]" for x in p[::-1]] + a
            elif p:
                a.append(f"#[parse({', '.join(p)})]")
        return " ".join(a)


class Ty:
    """A struct or an enum."""

    def __init__(self, name, body, style=0, generics="", inst=None, where=""):
        self.name, self.style, self.generics, self.inst, self.where = name, style, generics, inst or {}, where
        self.enum = isinstance(body, dict)
        self.variants = [(k, *self.fields(v)) for k, v in body.items()] if self.enum else [(None, *self.fields(body))]

    def fields(self, text):
        """(named?, unit?, items)"""
        t = text.split()
        if t == ["-"]:
            return False, True, []
        named = t[:1] == ["n:"]
        return named, False, [Item(x) for x in t[named:]]

    def args(self):
        return "<" + ", ".join(self.resolve(Item(v)).ty() for v in self.inst.values()) + ">" if self.inst else ""

    def full(self):
        return self.name + self.args()

    def resolve(self, it):
        if it.t in self.inst:
            r = Item(self.inst[it.t])
            r.peek, r.closes = it.peek, it.closes
            return r
        return it

    def fnames(self, named, items):
        pool = ["a", "r#type", "c", "input", "tokens", "fork", "x", "peek"]
        return [pool[i] for i in range(len(items))] if named else [str(i) for i in range(len(items))]

    def code(self, derives="Parse"):
        parse = "Parse" in derives
        vs = []
        for v, named, unit, items in self.variants:
            pub = "" if self.enum else "pub "
            fs = []
            for n, it in zip(self.fnames(named, items), items):
                fs.append(f"{it.attrs(self.style, parse)} {pub}{n + ': ' if named else ''}{it.ty()}")
            b = "" if unit else "{ " + ", ".join(fs) + " }" if named else "(" + ", ".join(fs) + ")"
            vs.append((v, b, named, unit))
        d = f"#[derive({derives})]\n"
        if self.enum:
            return d + f"pub enum {self.name}{self.generics} {self.where} {{ " + ", ".join(v + b for v, b, _, _ in vs) + " }"
        _, b, named, unit = vs[0]
        if named:
            return d + f"pub struct {self.name}{self.generics} {self.where} {b}"
        return d + f"pub struct {self.name}{self.generics}{b} {self.where};"

    def macro(self, derives):
        """The definition with its fields given to a `macro_rules!` macro."""
        parse = "Parse" in derives
        vs = []
        for v, named, unit, items in self.variants:
            fs = ", ".join(f"{it.attrs(self.style, parse)} {n}: {it.ty()}" for n, it in zip(self.fnames(named, items), items))
            vs.append(f"{v} {{ {fs} }}" if v else fs)
        f = "$($(#[$m:meta])* $f:ident: $t:ty),*"
        if self.enum:
            return (f"macro_rules! mk_{self.name} {{ ($($v:ident {{ {f} }}),*) => {{ #[derive({derives})] pub enum {self.name} "
                    f"{{ $( $v {{ $($(#[$m])* $f: $t),* }} ),* }} }} }}\nmk_{self.name}!({', '.join(vs)});")
        return (f"macro_rules! mk_{self.name} {{ ({f}) => {{ #[derive({derives})] pub struct {self.name} "
                f"{{ $($(#[$m])* pub $f: $t),* }} }} }}\nmk_{self.name}!({vs[0]});")

    # ---- the reference
    def step(self, it, max):
        """Statements that parse one item."""
        r = self.resolve(it)
        s = ["r.close(g.pop_());" for _ in it.closes]
        if r.open:
            s.append(f"g.push_(r.open({DELIM[r.open][1]}, {str(r.mac).lower()})?);")
        elif r.user:
            s.append(f"spec_{r.user}(r)?;")
        elif r.term:
            s.append(f"r.terminated({r.kind()}, {max})?;")
        elif r.opt:
            s.append(f"r.opt_leaf({r.kind()})?;" if r.kind() else f'r.opt_punct(b"{r.t}")?;')
        elif r.kind():
            s.append(f"r.leaf({r.kind()})?;")
        elif r.t in KW:
            s.append(f'r.kw(b"{r.t}")?;')
        else:
            s.append(f'r.punct(b"{r.t}")?;')
        return s

    def pred(self, k, it):
        r = self.resolve(it)
        if r.open:
            return f"r.p_open({k}, {DELIM[r.open][1]})"
        if r.kind():
            return f"r.p_leaf({k}, {r.kind()})"
        return f'r.p_{"kw" if r.t in KW else "punct"}({k}, b"{r.t}")'

    def spec(self, max):
        out, body = [], []
        for i, (v, named, unit, items) in enumerate(self.variants):
            fn = f"spec_{self.name}" + (f"_{v}" if v else "")
            s, depth = [], 0
            for it in items:
                for line in self.step(it, max):
                    if "pop_" in line:
                        depth -= 1
                        line = f"r.close(g{depth});"
                    elif "push_" in line:
                        line = line.replace("g.push_(", f"let g{depth} = ").replace("?);", "?;")
                        depth += 1
                    s.append(line)
            while depth:
                depth -= 1
                s.append(f"r.close(g{depth});")
            out.append(f"pub fn {fn}(r: &mut R) -> Option<()> {{ {' '.join(s)} Some(()) }}")
            if v:
                ps = [it for it in items if it.peek]
                if ps:
                    body.append(f"if {' && '.join(self.pred(k, p) for k, p in enumerate(ps))} {{ r.out.push(VARIANT + {i}); return {fn}(r); }}")
                else:
                    body.append(f"{{ let s = *r; r.out.push(VARIANT + {i}); if {fn}(r).is_some() {{ return Some(()); }} *r = s; }}")
        if self.enum:
            out.append(f"pub fn spec_{self.name}(r: &mut R) -> Option<()> {{ {' '.join(body)} None }}")
        return "\n".join(out)

    def pat(self, v, named, unit, items):
        head = f"Self::{v}" if v else "Self"
        ns = self.fnames(named, items)
        vs = [f"f{i}" for i in range(len(items))]
        if unit:
            return head
        return head + (" { " + ", ".join(f"{n}: {x}" for n, x in zip(ns, vs)) + " }" if named else "(" + ", ".join(vs) + ")")

    def observe(self):
        arms = []
        for i, (v, named, unit, items) in enumerate(self.variants):
            b = (f"o.push(VARIANT + {i});" if v else "") + " ".join(f"f{k}.po(o);" for k in range(len(items)))
            arms.append(f"{self.pat(v, named, unit, items)} => {{ {b} }}")
        return f"impl PO for {self.full()} {{ fn po(&self, o: &mut Got) {{ match self {{ {' '.join(arms)} }} }} }}"

    # ---- values built by hand, and the tokens expected of them
    def make(self, ctr):
        """A function body building a value and its tokens."""
        arms = []
        for v, named, unit, items in self.variants:
            s, stack = [], []
            for i, it in enumerate(items):
                for _ in it.closes:
                    s.append(stack.pop())
                r = self.resolve(it)
                p = next(ctr)
                if r.open:
                    q = next(ctr)
                    d, code = DELIM[r.open][0], DELIM[r.open][1]
                    if r.mac:
                        s.append(f"let k{i} = s.choose(3);")
                        s.append(f"let f{i} = match k{i} {{ 0 => syn::MacroDelimiter::Paren(syn::token::Paren {{ span: mk_ds({p}, {q}) }}), "
                                 f"1 => syn::MacroDelimiter::Brace(syn::token::Brace {{ span: mk_ds({p}, {q}) }}), "
                                 f"_ => syn::MacroDelimiter::Bracket(syn::token::Bracket {{ span: mk_ds({p}, {q}) }}) }};")
                        s.append(f"x.open(k{i}, {p});")
                    else:
                        s.append(f"let f{i} = syn::token::{d} {{ span: mk_ds({p}, {q}) }};")
                        s.append(f"x.open({code}, {p});")
                    stack.append(f"x.close({q});")
                elif r.user:
                    s.append(f"let f{i} = make_{r.user}(s, x);")
                elif r.opt:
                    s.append(f"let f{i} = if s.choose(2) == 1 {{ {self.one(r, p)} Some(v) }} else {{ None }};")
                elif r.term:
                    q, t, u = next(ctr), next(ctr), next(ctr)
                    s.append(f"let mut f{i} = syn::punctuated::Punctuated::new(); let n{i} = s.choose(5);"
                             f"if n{i} > 0 {{ {self.one(r, p)} f{i}.push_value(v); }}"
                             f"if n{i} > 1 {{ {self.one(Item(','), q)} f{i}.push_punct(v); }}"
                             f"if n{i} > 2 {{ {self.one(r, t)} f{i}.push_value(v); }}"
                             f"if n{i} > 3 {{ {self.one(Item(','), u)} f{i}.push_punct(v); }}")
                else:
                    s.append(f"let f{i} = {{ {self.one(r, p)} v }};")
            while stack:
                s.append(stack.pop())
            arms.append(" ".join(s) + " " + self.pat(v, named, unit, items).replace("Self", self.name))
        if self.enum:
            e = "match s.choose(%d) { %s _ => { %s } }" % (
                len(arms), " ".join(f"{i} => {{ {a} }}" for i, a in enumerate(arms[:-1])), arms[-1])
        else:
            e = arms[0]
        return f"pub fn make_{self.name}(s: &mut Src, x: &mut X) -> {self.full()} {{ {e} }}"

    def one(self, r, p):
        """Statements that define `v`, one token, and expect it."""
        if r.kind() in ("ID", "ANYID"):
            return f"let w = s.ident(); let v = mk_ident(w, {p}); x.push(w, {p});"
        if r.kind() in ("NUM", "STR"):
            k = ("NUM", "STR").index(r.kind())
            return f"let v = mk_{['num', 'str'][k]}({p}); x.push(W {{ k: K_LIT, x: {k}, y: 0, tl: 0, w: 0 }}, {p});"
        if r.t in KW:
            return f'let v = syn::token::{KW[r.t]} {{ span: sp({p}) }}; x.kw(b"{r.t}", {p});'
        return f'let v = syn::token::{PUNCT[r.t]} {{ spans: [sp({p}); {len(r.t)}] }}; x.punct(b"{r.t}", {p});'


# Names a user may have in scope that generated code must not depend on.
SCOPE = ("mod structmeta {} mod syn {} mod proc_macro2 {} mod quote {} type Result<T> = ::core::marker::PhantomData<T>; "
         "struct Ident; struct Span; struct TokenStream; trait Parse {} trait ToTokens {} trait IdentExt {}")


class Def:
    """The type under test (the last one) and the types it uses."""

    def __init__(self, *tys, scope=False, macro=False):
        self.tys, self.scope, self.macro = tys, scope, macro

    def text(self):
        return (self.tys[-1].code("Parse").replace("#[derive(Parse)]\n", "")
                + (f" in a scope with `{SCOPE}`" if self.scope else "") + (" given to a macro_rules! macro" if self.macro else ""))

    def code(self, derives):
        if self.macro:
            return "\n".join(x.macro(derives) for x in self.tys)
        if not self.scope:
            return "\n".join(x.code(derives) for x in self.tys)
        c = "\n".join(x.code(", ".join("::structmeta::" + d for d in derives.split(", "))) for x in self.tys)
        c = re.sub(r"(?<![:\w])syn::", "::syn::", c)
        prelude = "#[cfg(not(real))] #[allow(unused_imports)] use super::{String, Vec, format};"
        return f"pub mod sc {{ {prelude}\n{SCOPE}\n{c} }}\npub use sc::{{{', '.join(x.name for x in self.tys)}}};"


def hints(n):
    return [
        (r"3wit2wf|3wit8any_toks|5pleaf7flat_of|4same", n + 2),
        (r"5pleaf.*(ahead)", 5),
        (r"5pleaf.*(terminated)", n // 2 + 3),
        (r"5pleaf.*(punct|kw)", 5),
        (r"2pk", 7),
        (r"5world5build|5world4flat", 17),
        (r"3wit4text|peek_punct", 6),
        (r"accept_as_ident", 28),
        (r"push_stream|token_stream", n + 2),
        (r"9Punctuated|10punctuated", n // 2 + 3),
        (r"", 5),
    ]


def fcode(fr, n):
    if not fr:
        return "&[]", n, None
    f = frame(fr)
    return "&[" + ", ".join("ANY" if x == ANY else hex(x) for x in f) + "]", len(f), f


def ptask(name, d, n, depth=1, delims=1, fr=None):
    """Parsing agrees with the reference."""
    code, n, f = fcode(fr, n)
    dom = f"`{fr}`" if fr else f"<= {n} tokens"
    t = d.tys[-1]
    src = d.code("Parse") + "\n" + "\n".join(x.observe() + "\n" + x.spec(n // 2 + 2) for x in d.tys)
    a = f"{n}, {depth}, {delims}, {code}"
    return mk(name, src, f"pcheck::<{t.full()}>(spec_{t.name}, {a})", f"pcheck::<{t.full()}>(spec_{t.name}, {a}, wit)",
              f"{d.text()} | {dom}, nesting <= {depth}, delimiters {delims}", n, f)


def rtask(name, d, n, depth=1, delims=1, fr=None):
    """Whatever is accepted is printed back."""
    code, n, f = fcode(fr, n)
    dom = f"`{fr}`" if fr else f"<= {n} tokens"
    t = d.tys[-1]
    src = d.code("Parse, ToTokens")
    a = f"{n}, {depth}, {delims}, {code}"
    return mk(name, src, f"rcheck::<{t.full()}>({a})", f"rcheck::<{t.full()}>({a}, wit)",
              f"{d.text()} | {dom}, nesting <= {depth}, delimiters {delims}, printed", n, f)


def ttask(name, d):
    """Printing a value built by hand."""
    t = d.tys[-1]
    ctr = iter(range(60))
    src = d.code("ToTokens") + "\n" + "\n".join(x.make(ctr) for x in d.tys)
    return mk(name, src, f"tcheck(make_{t.name})", f"tcheck(make_{t.name}, wit)",
              f"{d.text()} | every value (choice of variants, presence, texts)", 16, None)


def mk(name, src, claim, replay, about, n, f):
    return Task(name, "use crate::pleaf::*;\n" + src, claim, replay, about=about, hints=hints(n), frame=f, havoc=None)
