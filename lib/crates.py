"""The generated crates: the harness over the models (for Kani), and over the real crates
(for replays)."""
import ddefs
import os
from pipeline import *


class Task:
    """One solver query: `code` (items of its module), `claim` (body of the Kani harness)
    and `replay` (an expression over `wit: &[u64]`, of type `Result<String, String>`)."""

    def __init__(self, name, code, claim, replay, about, havoc=DIAG, solver="cadical", unwind=3, hints=(), frame=None):
        self.name, self.code, self.claim, self.replay = name, code, claim, replay
        self.about, self.havoc, self.solver = about, havoc, solver
        self.unwind, self.hints = unwind, list(hints)
        self.frame = frame


MAIN = """fn main() {
    let a: Vec<String> = std::env::args().collect();
    let wit: Vec<u64> = a[2..].iter().map(|x| x.parse().unwrap()).collect();
    std::panic::set_hook(Box::new(|i| eprintln!("{i}")));
    let task = a[1].clone();
    match std::panic::catch_unwind(move || vreal::replay(&task, &wit)) {
        Ok(Ok(m)) => println!("AGREES {m}"),
        Ok(Err(m)) => println!("VIOLATES {m}"),
        Err(_) => println!("ERROR panic in the harness"),
    }
}
"""

HARNESS_MODS = ["wit", "spec", "leaf", "run", "pleaf", "laws"]
PRELUDE = """#[allow(unused_imports)] use crate::leaf::*;
#[allow(unused_imports)] use crate::run::*;
#[allow(unused_imports)] use crate::spec::*;
#[allow(unused_imports)] use crate::wit::*;
#[allow(unused_imports)] use crate::world::*;
#[allow(unused_imports)] use structmeta::{Flag, NameArgs, NameValue, Parse, StructMeta, ToTokens};
#[cfg(not(real))] #[allow(unused_imports)] use mstd::{model_prelude::*, format, vec};
"""


def lib_rs(tasks, mods=()):
    s = ["#![allow(dead_code, unused_macros, unused_imports, unused_mut, non_snake_case, static_mut_refs, unexpected_cfgs)]",
         "#[cfg(not(real))] extern crate mstd as std;"]
    s.append(f"pub const NF: usize = {max([getattr(t, 'nf', 5) for t in tasks], default=5)};")
    for m in list(HARNESS_MODS) + list(mods):
        s.append(f'#[path = "{VERIF}/harness/{m}.rs"] pub mod {m};')
    s.append(f'#[cfg(not(real))] #[path = "{VERIF}/harness/world_model.rs"] pub mod world;')
    s.append(f'#[cfg(real)] #[path = "{VERIF}/harness/world_real.rs"] pub mod world;')
    for m in mods:
        s.append(f"")
    for t in tasks:
        uses = "".join(f"#[allow(unused_imports)] use crate::{m}::*;\n" for m in mods)
        s.append(f"pub mod {t.name} {{\n{PRELUDE}{uses}{t.code}\n"
                 f"#[cfg(kani)] #[kani::proof] fn check_{t.name}() {{ {t.claim} }}\n"
                 f"#[cfg(real)] pub fn replay(wit: &[u64]) -> Result<String, String> {{ {t.replay} }}\n}}")
    s.append("#[cfg(real)] pub fn replay(task: &str, wit: &[u64]) -> Result<String, String> {\n  match task {")
    for t in tasks:
        s.append(f'    "{t.name}" => {t.name}::replay(wit),')
    s.append('    _ => Err("no such task".into()),\n  }\n}')
    return "\n".join(s) + "\n"


def model_crate(root, tasks, mods=()):
    copy_runtime(os.path.join(root, "structmeta"))
    dep = "\n".join(
        f'{n} = {{ package = "model-{n.replace("_", "-")}", path = "{VERIF}/model/{n}" }}'
        for n in ("proc_macro2", "quote", "syn", "mstd"))
    c = os.path.join(root, "model")
    write(os.path.join(c, "src/lib.rs"), lib_rs(tasks, mods))
    write(os.path.join(c, "Cargo.toml"), f"""[package]
name = "vmodel"
version = "0.0.0"
edition = "2024"
[workspace]
[dependencies]
structmeta = {{ package = "model-structmeta", path = "../structmeta" }}
{dep}
""")
    if not os.path.exists(os.path.join(c, "Cargo.lock")):
        pass
    return c


def real_crate(root, tasks, mods=()):
    c = os.path.join(root, "real")
    write(os.path.join(c, "src/lib.rs"), lib_rs(tasks, mods))
    write(os.path.join(c, "src/main.rs"), MAIN)
    write(os.path.join(c, "build.rs"), 'fn main() { println!("cargo:rustc-cfg=real"); }\n')
    write(os.path.join(c, "Cargo.toml"), f"""[package]
name = "vreal"
version = "0.0.0"
edition = "2024"
[workspace]
[dependencies]
structmeta = {{ path = "{REPO}/structmeta" }}
proc-macro2 = {{ version = "1", features = ["span-locations"] }}
quote = "1"
syn = {{ version = "*", features = ["full", "extra-traits", "visit"] }}
""")
    return c


class Real:
    """The replay program, built on demand."""

    def __init__(self, root, tasks, mods=(), name="vreal", make=None):
        self.name, self.make = name, make or real_crate
        self.root, self.tasks, self.mods, self.exe, self.err = root, tasks, mods, None, None

    def build(self):
        if self.exe or self.err:
            return self.exe
        c = self.make(self.root, self.tasks, self.mods)
        rc, out, err = sh(["cargo", "build", "--offline", "--target-dir", os.path.join(BUILD, "target")], cwd=c, timeout=600)
        if rc != 0:
            self.err = out + err
            return None
        self.exe = os.path.join(BUILD, "target/debug/" + self.name)
        return self.exe

    def run(self, task, wit):
        if not self.build():
            return None, self.err
        rc, out, err = sh([self.exe, task] + [str(x) for x in wit], timeout=60)
        if rc == 124:
            return True, "does not terminate"
        for l in out.splitlines():
            if l.startswith("VIOLATES"):
                return True, l[9:] + (" " + err.strip()[:300] if "panic" in l else "")
            if l.startswith("ERROR"):
                return False, l + err[-300:]
            if l.startswith("AGREES"):
                return False, l[7:]
        if "MALFORMED" in out:
            return False, "malformed witness"
        return True, f"aborts (exit {rc}): {err[-300:]}"


# ---------------------------------------------------------------- the derives themselves
class DTask(Task):
    """A query about a derive: `derive` on every definition of structure `d`."""

    def __init__(self, derive, d, spec, about, cut=True, hints=(), unwind=5, **kw):
        super().__init__(d.name, "", "", "", about, havoc=None, hints=hints, unwind=unwind, **kw)
        self.derive, self.d, self.spec, self.cut = derive, d, spec, cut


def derive_lib(real):
    """The sources of structmeta-derive as an ordinary library."""
    srcdir = os.path.join(REPO, "structmeta-derive/src")
    r = {}
    for base, _, files in os.walk(srcdir):
        for f in files:
            if f.endswith(".rs"):
                rel = os.path.relpath(os.path.join(base, f), srcdir)
                r[rel] = re.sub(r'#!?\[doc\s*=\s*include_str!\([^)]*\)\]', "", open(os.path.join(base, f)).read())
    text = r["lib.rs"]
    mask = lex_mask(text)
    entries = dict(re.findall(r"#\s*\[\s*proc_macro_derive\s*\(\s*(\w+)[^\]]*\]\s*(?:#\[[^\]]*\]\s*)*pub\s+fn\s+(\w+)", mask))
    if set(entries) != {"ToTokens", "Parse", "StructMeta"}:
        raise Stop(f"the derives are not found in structmeta-derive/src/lib.rs: {entries}")
    text = sub_code(text, r"#\s*\[\s*proc_macro_derive[^\]]*\]", "")
    text = sub_code(text, r"extern\s+crate\s+proc_macro\s*;", "")
    text = sub_code(text, r"(?<!\w)(?:::)?proc_macro::", "proc_macro2::")
    for rel in r:
        if rel != "lib.rs":
            r[rel] = sub_code(r[rel], r"(?<!\w)(?:::)?proc_macro::", "proc_macro2::")
    if real:
        shim = """#[allow(unused_macros)] macro_rules! parse_macro_input { ($i:ident as $t:ty) => {
    match syn::parse2::<$t>($i) { Ok(x) => x, Err(e) => return e.to_compile_error().into() } } }
"""
        # after any inner attributes and documentation
        m = re.match(r"(?:\s*(?:#!\[[^\]]*\]|//![^\n]*|/\*!.*?\*/))*\s*", text, re.S)
        text = text[:m.end()] + shim + text[m.end():]
    text += "\n" + "\n".join(f"#[doc(hidden)] pub fn entry_{d}(i: proc_macro2::TokenStream) -> proc_macro2::TokenStream {{ {f}(i) }}" for d, f in entries.items()) + "\n"
    r["lib.rs"] = text
    if not real:
        for k in r:
            # infallible generation of code, which some queries leave out
            r[k] = sub_code(r[k], r"\bfn\s+\w+\s*\(\s*&self[^()]*\)\s*->\s*TokenStream\s*\{",
                            r"\g<0> if ::proc_macro2::cut() { return TokenStream::new(); }")
        r = {k: to_model(v, k == "lib.rs") for k, v in r.items()}
    return r


def write_sources(dst, files):
    for base, _, fs in os.walk(dst):
        for f in fs:
            if os.path.relpath(os.path.join(base, f), dst) not in files:
                os.unlink(os.path.join(base, f))
    for k, v in files.items():
        write(os.path.join(dst, k), v)


def dlib_rs(tasks):
    s = ["#![allow(dead_code, unused_imports, static_mut_refs, unexpected_cfgs)]",
         "#[cfg(not(real))] extern crate mstd as std;",
         f'#[path = "{VERIF}/harness/dh.rs"] pub mod dh;',
         f'#[cfg(not(real))] #[path = "{VERIF}/harness/dworld_model.rs"] pub mod world;',
         f'#[cfg(real)] #[path = "{VERIF}/harness/dworld_real.rs"] pub mod world;',
         "use dh::*;"]
    s += [ddefs.code(t.d) for t in tasks]
    for t in tasks:
        s.append(f"""#[cfg(kani)] #[kani::proof] fn check_{t.name}() {{
    let d = {t.name}::def(&mut Src::new(&[]));
    let v = {t.spec};
    unsafe {{ world::CUT = {"true" if t.cut else "false"}; }}
    let rejected = {t.name}::run(structmeta_derive::entry_{t.derive}, &d);
    kani::cover!(!rejected, "accepted");
    kani::cover!(rejected, "rejected");
    assert!(agree(v, rejected), "CLAIM: accepts exactly the documented definitions");
}}""")
    s.append("#[cfg(real)] pub fn replay(task: &str, wit: &[u64]) -> Result<String, String> {\n  match task {")
    for t in tasks:
        s.append(f'    "{t.name}" => {{ let d = {t.name}::def(&mut Src::new(wit)); let v = {t.spec}; world::replay(structmeta_derive::entry_{t.derive}, &d, v) }}')
    s.append('    _ => Err("no such task".into()),\n  }\n}')
    return "\n".join(s) + "\n"


def dmodel_crate(root, tasks):
    dep = "\n".join(
        f'{n} = {{ package = "dmodel-{n.replace("_", "-")}", path = "{VERIF}/dmodel/{n}" }}' for n in ("proc_macro2", "quote", "syn"))
    dep += f'\nmstd = {{ package = "model-mstd", path = "{VERIF}/model/mstd", features = ["wide"] }}\n'
    d = os.path.join(root, "derive")
    write_sources(os.path.join(d, "src"), derive_lib(False))
    write(os.path.join(d, "Cargo.toml"), f"""[package]
name = "dmodel-derive"
version = "0.0.0"
edition = "{edition('structmeta-derive')}"
[lib]
name = "structmeta_derive"
[dependencies]
{dep}
""")
    c = os.path.join(root, "model")
    write(os.path.join(c, "src/lib.rs"), dlib_rs(tasks))
    write(os.path.join(c, "Cargo.toml"), f"""[package]
name = "dvmodel"
version = "0.0.0"
edition = "2024"
[workspace]
[dependencies]
structmeta_derive = {{ package = "dmodel-derive", path = "../derive" }}
{dep}
""")
    return c


def dreal_crate(root, tasks, mods=()):
    deps = """proc-macro2 = "1"
quote = "1"
syn = { version = "*", features = ["full", "extra-traits"] }
"""
    d = os.path.join(root, "rderive")
    write_sources(os.path.join(d, "src"), derive_lib(True))
    write(os.path.join(d, "Cargo.toml"), f"""[package]
name = "rderive"
version = "0.0.0"
edition = "{edition('structmeta-derive')}"
[lib]
name = "structmeta_derive"
[dependencies]
{deps}""")
    c = os.path.join(root, "real")
    write(os.path.join(c, "src/lib.rs"), dlib_rs(tasks))
    write(os.path.join(c, "src/main.rs"), MAIN.replace("vreal", "dvreal"))
    write(os.path.join(c, "build.rs"), 'fn main() { println!("cargo:rustc-cfg=real"); }\n')
    write(os.path.join(c, "Cargo.toml"), f"""[package]
name = "dvreal"
version = "0.0.0"
edition = "2024"
[workspace]
[dependencies]
structmeta_derive = {{ package = "rderive", path = "../rderive" }}
{deps}""")
    return c
