"""Tasks over `#[derive(StructMeta)]`."""
import grid
from crates import Task

K = dict(IDENT=0, PUNCT=1, LIT=2, OPEN=3, CLOSE=4)
ANY = (1 << 64) - 1


def frame(text):
    """`a ( ? ? )`: a token stream of fixed length in which `?` is any token."""
    ts = text.split()
    out, stack = [], []
    for i, t in enumerate(ts):
        if t == "?":
            out.append(ANY)
        elif t in "({[":
            stack.append(i)
            out.append(K["OPEN"] | "({[".index(t) << 3)
        elif t in ")}]":
            o = stack.pop()
            out[o] |= (i - o) << 11
            out.append(K["CLOSE"] | ")}]".index(t) << 3)
        elif t == "1":
            out.append(K["LIT"])
        elif t[0].isalpha() or t[0] == "_":
            raw = t.startswith("r#")
            n = t[2:] if raw else t
            w = sum(ord(c) << 8 * k for k, c in enumerate(n))
            out.append(K["IDENT"] | raw << 3 | len(n) << 19 | w << 32)
        else:
            assert len(t) == 1, t
            out.append(K["PUNCT"] | ord(t) << 3)
    return out


# Loop bounds that depend on the size of the domain: (pattern, bound), first match wins.
def hints(n, nfields, args):
    return [
        (r"4spec4spec", max(n, grid.NF) + 2),
        (r"4spec3Obs|5spec.*Obs|4spec.*3Obs.*2eq|4spec5store", grid.NF + 2),
        (r"4spec5inner|3wit2wf|3wit8any_toks|4spec4leaf|4spec7extents", n + 2),
        (r"3wit4text|3Obs|4spec5store", 6),
        (r"4leaf.*_1NNt.*5Parse5parse", 3),
        (r"4leaf.*5Parse5parse", n + 2),
        (r"7push_str", 10),
        (r"is_snake_case|try_fold|try_rfold", 7),
        (r"8position|4find|3any", nfields + 1),
        (r"5world5build", 17),
        (r"5Parse5parse", args),
        (r"", 4),
    ]


def task(name, st, n, classes="C_ALL", mode="M_RESULT", depth=1, delims=1, fr=None):
    if isinstance(st, str):
        text, st = st, grid.parse(st)
    else:
        text = st.code().replace("#[derive(StructMeta)]", "").strip() + (f" in a scope with `{st.scope}`" if st.scope else "")
    text = " ".join(text.split())
    ty = "S" + st.inst
    code = "&[]"
    dom = f"<= {n} tokens"
    args = n // 2 + 2
    f = None
    if fr:
        f = frame(fr)
        n = len(f)
        code = "&[" + ", ".join("ANY" if x == ANY else hex(x) for x in f) + "]"
        dom = f"`{fr}`"
        # A group counts as one token; every argument but the last takes one and a comma.
        top, d = 0, 0
        for t in fr.split():
            d -= t in ")}]"
            top += d == 0
            d += t in "({["
        top -= sum(t in ")}]" for t in fr.split()) if depth == 1 else fr.count(")")
        args = (top + 1) // 2 + 1
    a = f"&C, {n}, {depth}, {delims}, {code}, {classes}, {mode}"
    t = Task(name, st.module(),
                f"check::<{ty.replace('::<', '<')}>({a})",
                f"check::<{ty.replace('::<', '<')}>({a}, wit)",
                about=f"{text} | {dom}, nesting <= {depth}, delimiters {delims}, domain {classes}, observed {mode}",
                hints=hints(n, len(st.fields), args), frame=f)
    t.nf = grid.NF
    return t
