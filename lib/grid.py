"""Struct definitions of the grid and what the documentation says about them."""
import re
from dataclasses import dataclass, field as dfield

FLAG, NV, NA, NAL = 1, 2, 4, 8
NAMED, REST, UREQ, UOPT, UVAR = 0, 1, 2, 3, 4
NF = 5


def pack(name):
    assert len(name) <= 4
    return f"({len(name)}, {sum(ord(c) << 8 * i for i, c in enumerate(name)):#x})"


def norm(ty):
    """Strip the path qualification of the types the documentation names."""
    ty = re.sub(r"\s+", "", ty)
    return re.sub(r"(?:::)?(?:\w+::)+(?=(?:Option|Vec|HashMap|String|bool|Flag|NameValue|NameArgs)\b)", "", ty)


def inner(ty, name):
    m = re.fullmatch(name + r"<(.*)>", ty)
    return m.group(1) if m else None


def leaf_of(ty):
    return {"L": "LEAF_L", "E": "LEAF_E", "N": "LEAF_N"}[ty]


def named_kind(ty, may_flag):
    """(styles, spanned, leaf) from the table in doc/struct_meta.md."""
    if may_flag and ty == "bool":
        return FLAG, False, "LEAF_L"
    if may_flag and ty == "Flag":
        return FLAG, True, "LEAF_L"
    if inner(ty, "NameValue"):
        e = inner(ty, "NameValue")
        o = inner(e, "Option")
        return NV | (FLAG if o else 0), True, leaf_of(o or e)
    if inner(ty, "NameArgs"):
        e = inner(ty, "NameArgs")
        o = inner(e, "Option")
        e = o or e
        v = inner(e, "Vec")
        return (NAL if v else NA) | (FLAG if o else 0), True, leaf_of(v or e)
    v = inner(ty, "Vec")
    if v:
        return NAL, False, leaf_of(v)
    return NV, False, leaf_of(ty)


@dataclass
class Fd:
    """One field: identifier (None in a tuple struct), type, attribute arguments."""
    ident: str
    ty: str
    name: str = None
    unnamed: bool = False
    attr: str = None       # verbatim attribute text instead of the default one

    def info(self):
        ty = norm(self.ty)
        name = self.name
        if name is None and self.ident is not None:
            name = self.ident[2:] if self.ident.startswith("r#") else self.ident
        if self.unnamed:
            name = None
        m = inner(ty, "HashMap")
        if m and m.startswith("String,") and self.name is None:
            s, sp, leaf = named_kind(m[7:], False)
            return dict(role=REST, name="", styles=s, required=False, spanned=sp, leaf=leaf)
        if name is not None:
            o = inner(ty, "Option")
            s, sp, leaf = named_kind(o or ty, not o)
            req = not o and not ty in ("bool", "Flag")
            return dict(role=NAMED, name=name, styles=s, required=req, spanned=sp, leaf=leaf)
        o, v = inner(ty, "Option"), inner(ty, "Vec")
        role = UOPT if o else UVAR if v else UREQ
        return dict(role=role, name="", styles=0, required=role == UREQ, spanned=False, leaf=leaf_of(o or v or ty))

    def attr_text(self):
        if self.attr is not None:
            return self.attr
        a = []
        if self.name is not None:
            a.append(f'name = "{self.name}"')
        if self.unnamed:
            a.append("unnamed")
        return f"#[struct_meta({', '.join(a)})] " if a else ""


@dataclass
class St:
    fields: list
    snake: bool = False
    generics: str = ""      # e.g. "<T: X>"
    inst: str = ""          # instantiation used by the harness, e.g. "::<L>"
    subst: dict = dfield(default_factory=dict)
    where: str = ""
    attr: str = None
    empty: str = "{}"       # how a struct without fields is written
    scope: str = None       # items of a module around the struct
    macro: bool = False     # the fields are given to a macro_rules! macro

    def tuple(self):
        return bool(self.fields) and self.fields[0].ident is None

    def cfg(self):
        fs = []
        for f in self.fields:
            i = self.info(f)
            fs.append(f'F {{ role: {i["role"]}, name: {pack(i["name"])}, styles: {i["styles"]}, '
                      f'required: {str(i["required"]).lower()}, spanned: {str(i["spanned"]).lower()}, leaf: {i["leaf"]} }}')
        fs += ['F { role: 9, name: (0, 0), styles: 0, required: false, spanned: false, leaf: 0 }'] * (NF - len(fs))
        return f"Cfg {{ n: {len(self.fields)}, snake: {str(self.snake).lower()}, f: [{', '.join(fs)}] }}"

    def info(self, f):
        ty = f.ty
        for k, v in self.subst.items():
            ty = re.sub(rf"\b{k}\b", v, ty)
        return Fd(f.ident, ty, f.name, f.unnamed).info()

    def roles(self):
        return [self.info(f)["role"] for f in self.fields]

    def code(self, name="S"):
        at = self.attr if self.attr is not None else ('#[struct_meta(name_filter = "snake_case")]\n' if self.snake else "")
        if self.tuple():
            body = "(" + ", ".join(f"{f.attr_text()}pub {f.ty}" for f in self.fields) + f"){self.where};"
        elif not self.fields and self.empty != "{}":
            body = self.empty
        else:
            body = f"{self.where} {{ " + ", ".join(f"{f.attr_text()}pub {f.ident}: {f.ty}" for f in self.fields) + " }"
        if self.macro:
            fs = ", ".join(f"{f.attr_text()}{f.ident}: {f.ty}" for f in self.fields)
            return ("macro_rules! mk { ($($(#[$m:meta])* $f:ident: $t:ty),*) => "
                    f"{{ #[derive(StructMeta)] {at} pub struct {name} {{ $($(#[$m])* pub $f: $t),* }} }} }}\nmk!({fs});")
        return f"#[derive(StructMeta)]\n{at}pub struct {name}{self.generics} {body}"

    def observe(self, name="S"):
        b = []
        for i, (f, r) in enumerate(zip(self.fields, self.roles())):
            acc = f"self.{f.ident if f.ident is not None else i}"
            b.append(f"rest(&{acc}, &mut o);" if r == REST else f"o.f[{i}] = {acc}.ob();")
        ty = name + self.inst.replace("::<", "<")
        return f"impl Observe for {ty} {{ fn observe(&self) -> Obs {{ let mut o = OBS0; {' '.join(b)} o }} }}"

    def module(self):
        if self.scope is not None:
            return (f"pub mod sc {{ #[allow(unused_imports)] use super::{{L, E, N, HashMap}}; #[cfg(not(real))] #[allow(unused_imports)] use super::{{String, Vec, format}};\n{self.scope}\n"
                    f"{self.code().replace('derive(StructMeta)', 'derive(::structmeta::StructMeta)')} }}\npub use sc::S;\n"
                    f"{self.observe()}\npub const C: Cfg = {self.cfg()};")
        return f"{self.code()}\n{self.observe()}\npub const C: Cfg = {self.cfg()};"


def parse(text, **kw):
    """A compact notation: `a: Option<L>, b: bool` or `(L, Vec<L>)`, attributes in square
    brackets before a field (`[name=x] a: L`, `[unnamed] a: L`), `snake;` in front."""
    snake = False
    text = text.strip()
    if text in ("{}", ";", "();"):
        return St([], empty=text, **kw)
    if text.startswith("snake;"):
        snake, text = True, text[6:].strip()
    tup = text.startswith("(")
    if tup:
        text = text[1:-1]
    parts, depth, cur = [], 0, ""
    for c in text:
        if c in "<[(":
            depth += 1
        if c in ">])":
            depth -= 1
        if c == "," and depth == 0:
            parts.append(cur)
            cur = ""
        else:
            cur += c
    if cur.strip():
        parts.append(cur)
    fs = []
    for p in parts:
        p = p.strip()
        name, un = None, False
        m = re.match(r"\[(.*?)\]\s*(.*)", p)
        if m:
            for a in m.group(1).split(","):
                a = a.strip()
                if a == "unnamed":
                    un = True
                else:
                    name = a.split("=")[1].strip()
            p = m.group(2)
        if tup:
            fs.append(Fd(None, p.strip(), name, un))
        else:
            i, t = re.split(r":(?!:)", p, maxsplit=1)
            fs.append(Fd(i.strip(), t.strip(), name, un))
    return St(fs, snake, **kw)
