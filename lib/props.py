"""The queries of each property."""
import grid, sm
import ddefs
from ddefs import F
from crates import Task, DTask
from pdefs import STRUCTS, ENUMS
from pt import ptask, rtask, ttask

# ---------------------------------------------------------------- shapes of `#[derive(StructMeta)]`
# One struct per entry; together they take every row of the tables in doc/struct_meta.md.
NAMED = dict(
    value_flag="a: Option<L>, b: bool",
    args_flag="a: NameArgs<L>, f: Flag",
    nv_optnv="a: NameValue<L>, bc: Option<NameValue<Option<E>>>",
    nao_optnav="a: NameArgs<Option<L>>, b: Option<NameArgs<Vec<L>>>",
    vec_optnaov="a: Vec<L>, b: Option<NameArgs<Option<Vec<L>>>>",
    nvo_optvec="ab: NameValue<Option<L>>, b: Option<Vec<L>>",
    naov_optnv="a: NameArgs<Option<Vec<L>>>, b: Option<NameValue<L>>",
    nav_optnao="a: NameArgs<Vec<L>>, b: Option<NameArgs<Option<L>>>",
    req_optna="r#type: L, b: Option<NameArgs<E>>",
    flags="a: bool, b: Flag, cd: bool",
    renamed="[name=x] a: L, [name=a] x: Option<L>, b: bool",
    list_e="a: Option<Vec<E>>, b: bool",
)
BIG = dict(
    b_styles="a: NameValue<Option<L>>, b: L, c: NameArgs<Option<L>>, d: bool, e: Option<NameArgs<L>>",
    b_values="a: L, ab: Option<L>, abc: NameValue<L>, b: Option<NameValue<L>>, c: L",
    b_flags="a: bool, b: Flag, c: NameValue<Option<L>>, d: NameArgs<Option<L>>, e: Flag",
    b_args="a: NameArgs<L>, b: Option<NameArgs<L>>, c: NameArgs<Option<L>>, d: bool, e: Option<NameArgs<Option<L>>>",
    b_unn="[unnamed] u: L, [unnamed] v: Option<L>, [unnamed] w: Vec<L>, a: bool, b: Option<L>",
    b_mix="a: bool, [unnamed] u: L, b: L, [unnamed] v: L, c: Option<NameArgs<L>>",
    b_rest="a: bool, b: Option<L>, m: HashMap<String, NameValue<Option<L>>>, [unnamed] u: Option<L>",
)
PATHS = dict(
    p_std="a: std::option::Option<std::vec::Vec<L>>, b: structmeta::Flag, c: ::std::primitive::bool",
    p_core="a: core::option::Option<structmeta::NameValue<::core::option::Option<L>>>, b: core::primitive::bool",
    p_rest="a: ::core::option::Option<L>, m: ::std::collections::hash_map::HashMap<std::string::String, L>",
    p_args="a: structmeta::NameArgs<Option<::std::vec::Vec<L>>>, b: ::structmeta::NameValue<L>",
)
REST = dict(
    r_value="m: HashMap<String, L>, a: bool",
    r_nv="a: Option<L>, m: HashMap<String, NameValue<L>>",
    r_nvo="a: Option<L>, m: HashMap<String, NameValue<Option<L>>>",
    r_na="m: HashMap<String, NameArgs<L>>, b: Option<L>",
    r_nao="m: HashMap<String, NameArgs<Option<L>>>, b: Option<L>",
    r_nav="m: HashMap<String, NameArgs<Vec<L>>>, f: Flag",
    r_naov="m: HashMap<String, NameArgs<Option<Vec<L>>>>, b: Option<L>",
    r_vec="m: HashMap<String, Vec<L>>, b: NameArgs<L>",
    r_unn="[unnamed] u: L, a: Option<L>, m: HashMap<String, L>",
)
# Rest parameters next to fields of another style, where a leftover name could also be unnamed.
MIX = dict(
    x_args="[unnamed] u: Option<E>, a: Option<NameArgs<L>>, m: HashMap<String, L>",
    x_value="[unnamed] u: Option<E>, a: Option<L>, m: HashMap<String, NameArgs<Option<L>>>",
    x_flag="[unnamed] u: Option<E>, f: bool, m: HashMap<String, NameArgs<L>>",
    x_all="[unnamed] u: Option<E>, a: Option<L>, f: Flag, b: Option<NameArgs<L>>, m: HashMap<String, NameValue<Option<L>>>",
)
UNN = dict(
    u_all="(L, Option<E>, Vec<L>)",
    u_reqs="(L, E, L)",
    u_opts="(Option<E>, Option<L>)",
    u_opts3="(Option<L>, Option<L>, Option<L>)",
    u_vec="(Vec<E>,)",
    u_mixed="[unnamed] u: Option<E>, a: Option<L>, f: bool",
    u_order="a: Option<L>, [unnamed] u: L, b: Flag, [unnamed] v: Option<L>",
    u_vargs="[unnamed] u: Vec<E>, a: Option<NameArgs<L>>",
    u_named="[name=b] a: Option<E>, [unnamed] u: L",
    u_tup="(L, [name=b] Option<L>, Vec<L>)",
    u_flag="[unnamed] u: Option<E>, f: Flag",
    u_nv="[unnamed] u: Option<E>, a: Option<NameValue<L>>",
    u_na="[unnamed] u: Option<E>, a: Option<NameArgs<L>>",
)
SNAKE = dict(
    s_named="snake; a: Option<L>, b: bool",
    s_unn="snake; [unnamed] u: Option<E>, ab: Option<L>, f: bool",
    s_rest="snake; m: HashMap<String, L>, [unnamed] u: Vec<E>",
    s_upper="snake; [unnamed] u: Option<E>, [name=X] x: bool",
)
NEST = dict(
    n_na="a: NameArgs<N>, b: Option<L>",
    n_optnao="a: Option<NameArgs<Option<N>>>, b: bool",
    n_rest="m: HashMap<String, NameArgs<N>>",
)
EMPTY = dict(e_unit=";", e_rec="{}", e_tup="();")
SHAPES = NAMED | BIG | PATHS | REST | MIX | UNN | SNAKE | NEST | EMPTY


def group(names, n, classes, mode="M_RESULT", **kw):
    return [sm.task(k, SHAPES[k], n, classes, mode, **kw) for k in names.split()]


def framed(name, frames, classes, mode="M_RESULT", depth=2, tag="", **kw):
    return [sm.task(f"{name}_{tag}{i}", SHAPES[name], 0, classes, mode, depth=depth, fr=f, **kw) for i, f in enumerate(frames)]


def all_of(*ds):
    return " ".join(k for d in ds for k in d)


def c01(tier):
    q = tier == "quick"
    n = 5 if q else 8
    r = (group("value_flag args_flag nv_optnv req_optna renamed flags", n, "C_OK")
         + group("vec_optnaov nvo_optvec nav_optnao", n, "C_OK")
         + framed("vec_optnaov", ["? ( ? ? ? )"], "C_OK")
         + framed("naov_optnv", ["? ( ? , ? , ? , ? )", "? ( ? ? ) , ? = ?"], "C_OK")
         + framed("nao_optnav", ["? ( ? , ? , ? ) , ? ( ? )"], "C_OK")
         + framed("list_e", ["? ( ? ? ? ? ? )"], "C_OK")
         + group("p_std p_core p_rest", 4 if q else 7, "C_OK")
         + group("p_args", 5 if q else 7, "C_OK")
         + framed("p_std", ["? ( ? ? ? ) , ?"], "C_OK")
         + framed("b_styles", ["? , ? = ? , ?"], "C_OK")
         + framed("b_values", ["? = ? , ? = ? , ? = ?"], "C_OK")
         + framed("b_flags", ["? , ? = ? , ? ( ? )"], "C_OK")
         + framed("b_args", ["? ( ? ) , ? ( ? )"], "C_OK")
         + framed("b_unn", ["? , ? , ? , ? = ?"], "C_OK")
         + framed("n_na", ["a ( ? ? ? )", "a ( ? ? ? ? ? )"], "C_OK"))
    if not q:
        r += (group("naov_optnv nao_optnav list_e", n, "C_OK")
              + framed("b_styles", ["? = ? , ? = ? , ?", "? = ? , ? ( ? ) , ? , ? = ?"], "C_OK", tag="x")
              + framed("b_values", ["? = ? , ? = ? , ? = ? , ? = ?"], "C_OK", tag="x")
              + framed("b_flags", ["? , ? , ? = ? , ? ( ? ) , ?", "? , ? , ? , ? , ?"], "C_OK", tag="x")
              + framed("b_args", ["? ( ? ) , ? ( ? ) , ?", "? , ? ( ? ) , ? ( ? )"], "C_OK", tag="x")
              + framed("b_unn", ["? , ? , ? , ? , ? = ?"], "C_OK", tag="x")
              + framed("n_na", ["a ( ? )", "a ( ? ? ? ? ? ? )"], "C_OK", tag="x"))
    return r


def c02(tier):
    q = tier == "quick"
    n = 5 if q else 8
    return (group("value_flag flags", n + 1, "C_OK|C_DUP")
            + (group("nvo_optvec nao_optnav nv_optnv req_optna renamed b_flags", n, "C_DUP") if not q else [])
            + group("r_value", n + 1, "C_DUP")
            + framed("flags", ["? , ? , ? , ? , ?"], "C_OK|C_DUP")
            + framed("nvo_optvec", ["? = ? , ?", "? , ? = ?", "? ( ? ? ? ) , ? ( ? )"], "C_DUP")
            + framed("nao_optnav", ["? ( ? ) , ?", "? , ? ( ? )", "? ( ? ) , ? ( ? )"], "C_DUP")
            + framed("naov_optnv", ["? ( ) , ? ( ? )", "? , ? ( ? ? ? )"], "C_DUP")
            + framed("nv_optnv", ["? = ? , ? , ?"] + ([] if q else ["? = ? , ? = ? , ?"]), "C_DUP")
            + framed("req_optna", ["? = ? , ? = ?", "? ( ? ) , ? ( ? )"], "C_DUP")
            + framed("renamed", ["? = ? , ? = ? , ? = ?"], "C_DUP")
            + framed("b_flags", ["? , ? = ? , ?", "? ( ? ) , ? , ?"], "C_DUP")
            + framed("r_nvo", ["? = ? , ? , ? = ?"], "C_DUP")
            + framed("r_nao", ["? , ? , ? ( ? )"], "C_DUP")
            + framed("r_vec", ["? ( ? ) , ? ( ? ? ? )"], "C_DUP")
            + ([] if q else framed("b_rest", ["? , ? = ? , ? , ? = ?"], "C_DUP"))
            + framed("r_unn", ["? , ? = ? , ? = ? , ? = ?"], "C_DUP"))


def c03(tier):
    q = tier == "quick"
    n = 4 if q else 8
    c = "C_OK|C_MISSING"
    return (group("value_flag args_flag nv_optnv nvo_optvec naov_optnv nav_optnao req_optna renamed "
                  "b_values r_na r_vec r_unn u_reqs u_named b_mix u_order", n, c)
            + framed("b_styles", ["? = ?", "? = ? , ? ( ? )"] + ([] if q else ["? = ? , ? , ? = ?"]), c)
            + framed("b_values", ["? = ? , ? = ?", "? = ? , ? = ? , ? = ?"], c)
            + framed("b_args", ["? ( ? ) , ? ( ? )", "? ( ? ) , ?"], c)
            + framed("b_mix", ["? , ? , ? = ?", "? , ? , ? , ? = ?"], c))


def c04(tier):
    q = tier == "quick"
    n = 5 if q else 7
    c = "C_OK|C_UNKNOWN|C_MANY|C_SYNTAX"
    return (group("r_value r_nv r_vec r_unn", n, "C_OK|C_UNKNOWN|C_STYLE")
            + group("s_named s_unn s_rest", 4 if q else 7, "C_OK|C_UNKNOWN|C_STYLE")
            + group("s_upper", 4 if q else 7, c)
            + group("value_flag flags u_mixed u_vargs u_flag u_nv u_na u_opts", n, c)
            + framed("x_args", ["? = ?", "? ( ? )"] + ([] if q else ["? , ? = ?"]), c + "|C_STYLE")
            + framed("x_value", ["? = ?"] + ([] if q else ["? ( ? )", "? , ?"]), c + "|C_STYLE")
            + framed("x_flag", ["? , ?"] + ([] if q else ["? ( ? )", "? = ?"]), c + "|C_STYLE")
            + framed("x_all", ["? ( ? )", "? = ?"] + ([] if q else ["? , ?"]), c + "|C_STYLE")
            + framed("r_nvo", ["? = ? , ?", "? , ? = ? , ?"], "C_OK|C_UNKNOWN|C_STYLE")
            + framed("r_na", ["? ( ? ) , ? = ?"], "C_OK|C_UNKNOWN|C_STYLE")
            + framed("r_nao", ["? ( ? ) , ? , ? = ?"], "C_OK|C_UNKNOWN|C_STYLE")
            + framed("r_nav", ["? ( ? ? ? ) , ?"], "C_OK|C_UNKNOWN|C_STYLE")
            + framed("r_naov", ["? ( ? ? ? ) , ?", "? , ? = ?"], "C_OK|C_UNKNOWN|C_STYLE")
            + ([] if q else framed("r_value", ["? = ? , ? = ? , ? = ? , ?"], "C_OK|C_UNKNOWN|C_STYLE")))


def c05(tier):
    q = tier == "quick"
    n = 5 if q else 8
    return (group("u_all u_reqs u_opts u_opts3 u_vec", n + 2, "C_ALL")
            + group("u_mixed u_order u_vargs u_named u_tup u_flag b_mix r_unn", n, "C_ALL")
            + framed("b_unn", ["? , ? , ? , ? , ?", "? , ? , ? = ? , ?"], "C_ALL")
            + framed("b_mix", ["? , ? , ? , ? = ?"], "C_ALL")
            + framed("b_rest", ["? , ? , ? = ?"], "C_ALL")
            + framed("s_rest", ["? , ? = ?"] if q else ["? , ? = ? , ? = ?"], "C_ALL")
            + framed("s_unn", ["? ? , ? , ? = ?"], "C_ALL"))


def c06(tier):
    n = 5 if tier == "quick" else 7
    return (group(all_of(EMPTY), n, "C_ALL", depth=2, delims=7)
            + group("value_flag args_flag flags nv_optnv req_optna", n, "C_ALL", depth=2, delims=7)
            + group("nav_optnao", n, "C_ALL", depth=2, delims=7)
            + group("u_all u_mixed u_opts r_nvo r_nav", n, "C_ALL", depth=2, delims=7))


def c07(tier):
    n = 4 if tier == "quick" else 7
    c = "C_OK|C_STYLE"
    return (group("value_flag args_flag nv_optnv nao_optnav vec_optnaov nvo_optvec naov_optnv nav_optnao flags", n, c)
            + group("r_value r_nv r_na r_vec r_nao u_mixed", n, c)
            + framed("b_styles", ["? , ? = ?", "? ( ? ) , ? = ?", "? = ? , ? ( ? )", "? , ? ( ? ) , ? = ?"], c)
            + framed("b_flags", ["? = ? , ? ( ? )", "? ( ? ) , ? = ?"], c)
            + framed("b_args", ["? = ? , ? ( ? )", "? ( ? ) , ?"], c))


def c08(tier):
    n = 5 if tier == "quick" else 8
    c = "C_OK|C_LEFT|C_SYNTAX"
    return (group("args_flag nao_optnav nav_optnao req_optna r_na", n, c, depth=2, delims=7)
            + framed("vec_optnaov", ["? ( ? ? ? ? )"], c, delims=7)
            + framed("nav_optnao", ["? ( ? ? ? ? ? )", "? ( ? ? ? ) , ? ( ? ? )"], c, delims=7)
            + framed("list_e", ["? ( ? ? ? ? )"], c, delims=7)
            + framed("args_flag", ["? ( ? ? ? ) ?", "? ? ? ? , ?"], c, delims=7)
            + framed("r_nav", ["? ( ? ? ? ? )"], c, delims=7)
            + framed("n_na", ["a ( ? ? ? )", "a ( ? ? ? ? )", "a ( ? ? ? ? ? ? )", "a ( ? ? ) , b = ?"], c)
            + framed("n_optnao", ["a ( ? ? ? )", "a ( ? ? ? ? ? )", "a ( ? ) , ?"], c)
            + framed("n_rest", ["a ( ? ? ? ? )", "? ( ? ) , ? ( ? )"], c))


def c09(tier):
    n = 5 if tier == "quick" else 7
    return (group("value_flag args_flag nv_optnv nav_optnao req_optna flags renamed", n, "C_ALL", "M_LOC")
            + group("r_value r_nvo u_all u_reqs u_mixed u_order u_vargs", n, "C_ALL", "M_LOC")
            + framed("nao_optnav", ["? ( ? ? ? ) , ?", "? , ? ( ? )"], "C_ALL", "M_LOC")
            + framed("r_nav", ["? ( ? ? ? )", "? ( ? ) , ? ( ? )"], "C_ALL", "M_LOC")
            + framed("flags", ["? , ? , ? , ?"], "C_ALL", "M_LOC")
            + framed("b_styles", ["? = ? , ? , ? ( ? )"], "C_ALL", "M_LOC"))


# ---------------------------------------------------------------- `#[derive(Parse)]`, `#[derive(ToTokens)]`
def c12(tier):
    n = 8 if tier == "quick" else 10
    return [ptask(k, d, n, depth=2, delims=7) for k, d in STRUCTS.items()]


def c13(tier):
    n = 8 if tier == "quick" else 10
    return [ptask(k, d, n, depth=2, delims=7) for k, d in ENUMS.items()]


def c14(tier):
    return [ttask(k, d) for k, d in STRUCTS.items()] + [ttask("e_" + k, d) for k, d in ENUMS.items()]


def c15(tier):
    n = 8 if tier == "quick" else 10
    return ([rtask(k, d, n, depth=2, delims=7) for k, d in STRUCTS.items()]
            + [rtask("e_" + k, d, n, depth=2, delims=7) for k, d in ENUMS.items()])


# ---------------------------------------------------------------- definitions of unusual shape
WIDE = dict(
    w_vals="a: Option<L>, b: Option<L>, c: Option<L>, d: Option<L>, e: Option<L>, f: Option<L>, g: Option<L>, h: Option<L>, i: Option<L>, j: Option<L>",
    w_flags="a: bool, b: bool, c: bool, d: Flag, e: bool, f: Flag, g: bool, h: bool, i: bool, j: Flag",
    w_mix="j: bool, i: Option<L>, h: NameArgs<Option<L>>, g: Flag, f: Option<NameValue<L>>, e: NameValue<Option<L>>, d: Option<L>, c: bool, b: Option<NameArgs<L>>, a: Option<Vec<L>>",
    w_unn="(L, L, L, Option<L>, Option<L>, Option<L>, Option<L>, Vec<L>)",
    w_unm="[unnamed] u: L, a: bool, [unnamed] v: L, b: bool, [unnamed] w: Option<L>, c: Option<L>, [unnamed] x: Option<L>, d: Option<L>, [unnamed] y: Vec<L>, e: bool",
)
SCOPE = """pub mod structmeta {} pub mod syn {} pub mod proc_macro2 {} pub mod quote {} pub mod helpers {}
pub type Result<T> = ::core::marker::PhantomData<T>; pub struct Span; pub enum NameIndex {} pub struct Ident; pub struct Error; pub trait Parse {}
use ::structmeta::{Flag, NameArgs, NameValue};"""


def c11(tier):
    q = tier == "quick"
    grid.NF = 10
    T = "T: syn::parse::Parse"
    shapes = dict(
        h_names=grid.parse("[name=a] input: Option<L>, [name=b] index: NameValue<Option<L>>, span: bool, name: Option<NameArgs<L>>, [name=c] content: Flag"),
        h_names2=grid.parse("[unnamed] is_next: L, [unnamed] fork: Option<L>, [name=a] named_used: bool, [name=b] unnamed_index: Option<L>, msg: Flag"),
        h_lines=grid.parse("[name=a] value_1: Option<L>, [name=b] value_0: bool, [name=c] _value_1: Flag, [name=r] r#return: Option<L>"),
        h_words=grid.parse("[name=self] a: Option<L>, [name=fn] b: bool, [name=_] c: Flag, r#type: bool, r#if: Option<L>"),
        h_scope=grid.parse("a: NameValue<L>, b: Option<NameArgs<L>>, c: bool, d: Flag, e: Option<Vec<L>>", scope=SCOPE),
        h_scope2=grid.parse("[unnamed] a: Option<L>, b: NameArgs<Option<L>>, m: HashMap<String, NameValue<Option<L>>>", scope=SCOPE),
        m_one=grid.parse("a: NameValue<L>, b: Option<NameArgs<Vec<L>>>, c: bool, d: Flag, e: Option<L>", macro=True),
        m_rest=grid.parse("[unnamed] a: Option<L>, m: HashMap<String, NameValue<Option<L>>>", macro=True),
        m_unn=grid.parse("[unnamed] a: L, [unnamed] b: Vec<L>, c: NameArgs<Option<L>>", macro=True),
        g_one=grid.parse("a: Option<NameArgs<Vec<T>>>, b: bool", generics=f"<{T}>", inst="::<L>", subst=dict(T="L")),
        g_where=grid.parse("[unnamed] a: T, b: NameValue<Option<U>>, [unnamed] c: Vec<T>", generics="<T, U>", inst="::<L, L>",
                           subst=dict(T="L", U="L"), where=f" where {T}, U: syn::parse::Parse + Sized"),
        g_rest=grid.parse("m: HashMap<String, NameArgs<T>>, a: Option<T>", generics=f"<{T}>", inst="::<L>", subst=dict(T="L")),
    )
    SHAPES.update(shapes)
    SHAPES.update(WIDE)
    c = "C_ALL"
    return (framed("w_vals", ["? = ? , ?"] if q else ["? = ? , ?", "? = ? , ? = ?"], c)
            + framed("w_flags", ["? , ?"] if q else ["? , ? , ?"], c)
            + framed("w_mix", ["? ( ? )"] if q else ["? , ? = ?", "? ( ? ) , ?"], c)
            + framed("w_unn", ["? , ? , ? , ? , ? , ?", "? , ? , ? , ? , ? , ? , ? , ?"], c)
            + framed("w_unm", ["? , ? , ? , ? , ?"] if q else ["? , ? , ? , ? , ? = ?"], c)
            + group("h_names h_names2 h_lines h_words h_scope g_one g_where m_one m_unn", 4 if q else 6, c)
            + group("h_scope2 g_rest m_rest", 4 if q else 6, "C_OK|C_UNKNOWN|C_STYLE|C_MANY"))


# ---------------------------------------------------------------- Flag, NameValue, NameArgs
def c10(tier):
    return [Task("l_" + k, "use crate::laws::*;", f"lcheck({k})", f"lcheck({k}, wit)",
                 about=f"{k} | every value (present or not, every location)", hints=[(r"", 5)], havoc=None)
            for k in "flag_value flag_eq flag_or name_value name_args".split()]


# ---------------------------------------------------------------- the derives themselves
SMD = "derive(StructMeta)"


def c16(tier):
    sp = "spec_struct_meta(&d)"
    return [DTask("StructMeta", ddefs.Def("at1", [F("L", ("struct_meta", ["any"]))]), sp, "x"),
            DTask("StructMeta", ddefs.Def("at3", [F("L", ("struct_meta", ["any", "any", "any"]))]), sp, "x"),
            DTask("StructMeta", ddefs.Def("n1", [F("L", name="?")], shape="named"), sp, "x"),
            DTask("StructMeta", ddefs.Def("con", [F("L")]), sp, "x")]


def c17(tier):
    return []


def c18(tier):
    return []


DERIVES = {"C16", "C17", "C18"}
PROPS = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09,
         "C10": c10, "C11": c11, "C12": c12, "C13": c13, "C14": c14, "C15": c15, "C16": c16, "C17": c17, "C18": c18}
