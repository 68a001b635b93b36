"""Definitions given to the derives: their structure is fixed here, per query; their words, the
tokens of their attributes and the like are drawn (by the solver, or from a witness).

A type is written   seg ('::' seg)* ['<' arg, ... '>']   where a segment is a word or `?` (any
word; `?!` also has arguments of its own), an argument is a type, `'a` or `1`; `{T}` is a type in
an invisible group, `<()>::?` has a qualified self, `&` and `()` are other types.

An attribute is (name, arguments): the name is a word or `?`, the arguments None (no
parentheses), or a list of: a word, a character, `any` (any token), `str` (a name as a string),
`dN` (a string of at most N delimiters), `cut` last (any number of the tokens before it)."""
import re

WORDS = ["L", "Option", "Vec", "HashMap", "String", "Flag", "NameValue", "NameArgs", "bool",
         "std", "core", "alloc", "option", "vec", "collections", "hash_map", "string", "primitive", "structmeta", "foo",
         "syn", "MacroDelimiter"]
AWORDS = ["struct_meta", "to_tokens", "parse", "foo", "name", "unnamed", "name_filter", "any", "peek", "terminated"]
NAMES = ["a", "b", "type", "ab"]
NLAST = 9
NN = 7


class F:
    def __init__(self, ty, *attrs, name="?"):
        self.ty, self.attrs, self.name = ty, attrs, name


class Def:
    def __init__(self, name, fields=(), kind="struct", shape="tuple", second=None, attrs=()):
        self.name, self.fields, self.kind, self.shape = name, list(fields), kind, shape
        self.second, self.attrs = second, list(attrs)


# ---------------------------------------------------------------- types
def parse_ty(text):
    toks = re.findall(r"'a|::|[?]!?|[A-Za-z_]\w*!?|[<>{}&,1]|\(\)", text)
    pos = 0

    def peek():
        return toks[pos] if pos < len(toks) else ""

    def take(t=None):
        nonlocal pos
        r = toks[pos]
        assert t is None or r == t, (text, pos, r, t)
        pos += 1
        return r

    def ty():
        if peek() == "{":
            take()
            r = ty()
            take("}")
            r["group"] = True
            return r
        if peek() in ("&", "()"):
            return dict(kind=1 if take() == "&" else 2, segs=[], mid=False, qself=False, group=False, args=[])
        r = dict(kind=0, segs=[], mid=False, qself=False, group=False, args=[])
        if peek() == "<":
            take(), take("()"), take(">"), take("::")
            r["qself"] = True
        while True:
            w = take()
            if w.endswith("!"):
                r["mid"], w = True, w[:-1]
            r["segs"].append(w)
            if peek() != "::":
                break
            take()
        if r["mid"]:
            assert len(r["segs"]) > 1
        if peek() == "<":
            take()
            while True:
                r["args"].append("'" if peek() == "'a" and take() else "1" if peek() == "1" and take() else ty())
                if peek() == ">":
                    break
                take(",")
            take(">")
        return r
    r = ty()
    assert pos == len(toks), text
    return r


# ---------------------------------------------------------------- code
class Emit:
    """The code of one query: `def` draws the definition, `A` is its syntax tree for the model."""

    def __init__(self, d):
        self.d, self.n = d, 0
        self.statics, self.fill, self.build = [], [], []
        self.slots = 0
        self.nattr = 0

    def static(self, ty, body):
        self.n += 1
        self.statics.append(f"static S{self.n}: {ty} = {body};")
        return f"S{self.n}"

    def node(self, ty, fields):
        return f"Ptr(&{self.static('body::' + ty, f'body::{ty} {{ {fields} }}')})"

    def slice(self, ty, items):
        return "&[]" if not items else "&" + self.static(f"[{ty}; {len(items)}]", "[" + ", ".join(items) + "]")

    def slot(self, text, raw="false"):
        k = self.slots
        self.slots += 1
        self.fill.append(f"SLOTS[{k}] = {text}; RAWS[{k}] = {raw};")
        return f"Ident::at({k})"

    def ty(self, t, place, node=0):
        """The tree rooted at `node`, of the field at `place`."""
        assert node < NN, "too deep"
        at = f"{place}.ty[{node}]"
        n = len(t["segs"])
        ws = []
        for k in range(4):
            if k >= n:
                ws.append("0")
            elif t["segs"][n - 1 - k] == "?":
                ws.append("last(s)" if k == 0 else "ns(s)")
            else:
                ws.append(str(WORDS.index(t["segs"][n - 1 - k])))
        ak = [("1" if a == "'" else "2" if a == "1" else "0") for a in t["args"]] + ["0"] * 2
        b = lambda x: "true" if x else "false"
        self.build.append(f"{at} = RTy {{ kind: {t['kind']}, qself: {b(t['qself'])}, group: {b(t['group'])}, nseg: {max(n, 1)}, "
                          f"w: [{', '.join(ws)}], mid: {b(t['mid'])}, nargs: {len(t['args'])}, ak: [{ak[0]}, {ak[1]}] }};")
        unit = "Type::Tuple(Ptr(&body::TypeTuple { elems: Punctuated::st(&[]) }))"
        if t["kind"] == 1:
            e = self.static("Type", unit)
            r = f"Type::Reference({self.node('TypeReference', f'elem: Ptr(&{e})')})"
        elif t["kind"] == 2:
            r = unit
        else:
            segs = []
            for i in range(n):
                k = n - 1 - i
                ident = self.slot(f"pick_words({at.replace('d.', 'd.', 1)}.w[{k}])")
                arguments = "PathArguments::None"
                items = None
                if k == 0 and t["args"]:
                    items = []
                    for j, a in enumerate(t["args"]):
                        items.append("GenericArgument::Lifetime(Lifetime { ident: Ident::at(63) })" if a == "'" else
                                     "GenericArgument::Const(Expr)" if a == "1" else
                                     f"GenericArgument::Type({self.ty(a, place, 2 * node + 1 + j)})")
                elif k == 1 and t["mid"]:
                    items = [f"GenericArgument::Type({unit})"]
                if items:
                    n2 = self.node("AngleBracketedGenericArguments",
                                   f"colon2_token: None, args: Punctuated::st({self.slice('GenericArgument', items)})")
                    arguments = f"PathArguments::AngleBracketed({n2})"
                segs.append(f"PathSegment {{ ident: {ident}, arguments: {arguments} }}")
            qself = "Some(QSelf { position: 1 })" if t["qself"] else "None"
            n2 = self.node("TypePath", f"qself: {qself}, path: Path {{ leading_colon: None, "
                           f"segments: Punctuated::st({self.slice('PathSegment', segs)}) }}")
            r = f"Type::Path({n2})"
        if t["group"]:
            e = self.static("Type", r)
            r = f"Type::Group({self.node('TypeGroup', f'elem: Ptr(&{e})')})"
        return r

    def attr(self, a, place):
        name, args = a
        self.build.append("let start = d.nt;")
        cut = False
        for t in args or []:
            if t == "any":
                e = "draw_tok(s)"
            elif t == "anyd":
                e = "{ let t = draw_tok(s); if t.k == 2 { draw_delims(s, 1) } else { t } }"
            elif t == "str":
                e = f"name_str(s.draw({len(NAMES)}))"
            elif re.match(r"d\d$", t):
                e = f"draw_delims(s, {t[1]})"
            elif t == "cut":
                cut = True
                continue
            elif t == "snake":
                e = "name_str(100)"
            elif t in AWORDS:
                e = f"word({AWORDS.index(t)})"
            else:
                e = f"punct(b'{t}')"
            self.build.append(f"let t = {e}; d.push(t);")
        n = f"s.draw(d.nt - start + 1)" if cut else "d.nt - start"
        w = "s.draw(A_OTHER + 1)" if name == "?" else str(AWORDS.index(name))
        lst = "s.flag()" if args == "?" else "true" if args is not None else "false"
        self.build.append(f"{place} = RAttr {{ name: {w}, list: {lst}, start, end: start + {n} }};")
        k = self.nattr
        self.nattr += 1
        self.fill.append(f"ATTRS[{k}] = AttrArgs {{ list: {place}.list, start: {place}.start, end: {place}.end }};")
        return f"Attribute {{ name: {self.slot(f'pick_awords({place}.name)')}, at: {k} }}"

    def attrs(self, l, place):
        self.build.append(f"{place}.na = {len(l)};")
        return f"Vec::st({self.slice('Attribute', [self.attr(a, f'{place}.attrs[{i}]') for i, a in enumerate(l)])})"

    def fields(self, fs, base):
        shape = self.d.shape
        items = []
        for i, f in enumerate(fs):
            place = f"d.fields[{base + i}]"
            ident = "None"
            if shape == "named":
                if f.name == "?":
                    v, raw = f"s.draw({len(NAMES)})", "s.flag()"
                else:
                    v, raw = str(NAMES.index(f.name)), "false"
                self.build.append(f"{place}.ident = {v}; {place}.raw = {raw} | ({place}.ident == 2);")
                ident = f"Some({self.slot(f'pick_names({place}.ident)', f'{place}.raw')})"
            ty = self.ty(parse_ty(f.ty), place)
            items.append(f"Field {{ attrs: {self.attrs(f.attrs, place)}, ident: {ident}, ty: {ty} }}")
        p = f"Punctuated::st({self.slice('Field', items)})"
        if shape == "unit":
            return "Fields::Unit"
        return (f"Fields::Named({self.node('FieldsNamed', 'named: ' + p)})" if shape == "named" else
                f"Fields::Unnamed({self.node('FieldsUnnamed', 'unnamed: ' + p)})")

    def code(self):
        d = self.d
        kinds, shapes = ["struct", "enum", "union"], ["named", "tuple", "unit"]
        self.build.append(f"d.kind = {kinds.index(d.kind)}; d.shape = {shapes.index(d.shape)}; d.nf = {len(d.fields)}; "
                          f"d.second = {'true' if d.second else 'false'};")
        attrs = self.attrs(d.attrs, "d")
        first = self.fields(d.fields, 0)
        if d.kind == "struct":
            data = f"Data::Struct({self.node('DataStruct', 'fields: ' + first)})"
        elif d.kind == "enum":
            second = self.fields(d.second, 3) if d.second else "Fields::Unit"
            vs = [f"Variant {{ attrs: Vec::st(&[]), ident: {self.slot(f'name(b{chr(34)}{n}{chr(34)})')}, fields: {f} }}"
                  for n, f in (("A", first), ("B", second))]
            vs = self.slice("Variant", vs)
            data = f"Data::Enum({self.node('DataEnum', f'variants: Punctuated::st({vs})')})"
        else:
            data = f"Data::Union({self.node('DataUnion', 'fields: ' + first.removeprefix('Fields::Named(')[:-1])})"
        ident = self.slot('name(b"S")')
        nl = "\n"
        assert self.slots < 63 and self.nattr <= 16
        return f"""pub mod {d.name} {{
    use crate::dh::*;
    pub fn def(s: &mut Src) -> RDef {{
        let mut d = NODEF;
        {(nl + "        ").join(self.build)}
        d
    }}
    #[cfg(not(real))] pub use tree::run;
    #[cfg(not(real))] mod tree {{
    use crate::dh::*;
    use crate::world::*;
    {(nl + "    ").join(self.statics)}
    static A: DeriveInput = DeriveInput {{ attrs: {attrs}, ident: {ident}, generics: Generics {{ where_clause: None }}, data: {data} }};
    pub fn run(f: fn(TokenStream) -> TokenStream, d: &RDef) -> bool {{
        unsafe {{ {" ".join(self.fill)} }}
        derive(f, d, &A)
    }}
    }}
}}"""


def code(d):
    return Emit(d).code()
