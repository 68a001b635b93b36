"""Kani front end -> goto-instrument -> CBMC, one job per harness, run in parallel."""
import glob, json, os, re, resource, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
KANI = os.path.expanduser("~/.kani/kani-0.68.0/bin")


class Stop(Exception):
    """The check gives no verdict (exit 2)."""


def tool(name):
    p = os.path.join(KANI, name)
    return p if os.path.exists(p) else name


def sh(cmd, cwd=None, env=None, timeout=None, mem=None):
    e = dict(os.environ, CARGO_NET_OFFLINE="true")
    e.update(env or {})

    def pre():
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))

    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         text=True, preexec_fn=pre, start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return 124, "", "timeout"
    return p.returncode, out, err


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path) and open(path).read() == text:
        return
    with open(path, "w") as f:
        f.write(text)


# ---------------------------------------------------------------- sources under test

MARK = "#[allow(unused_imports)] use mstd::model_prelude::*;"


def lex_mask(src):
    """A copy of `src` in which comments and literals are blanked (same length)."""
    out = list(src)
    pat = re.compile(
        r'//[^\n]*|/\*.*?\*/|b?r(#*)".*?"\1|b?"(?:\\.|[^"\\])*"|b?\'(?:\\.[^\']*|[^\'\\])\'', re.S)
    for m in pat.finditer(src):
        for i in range(m.start(), m.end()):
            if out[i] != "\n":
                out[i] = " "
    return "".join(out)


def sub_code(src, pat, rep):
    """re.sub, applied outside comments and literals only."""
    mask = lex_mask(src)
    res, last = [], 0
    for m in re.finditer(pat, mask):
        res.append(src[last:m.start()])
        res.append(m.expand(rep))
        last = m.end()
    res.append(src[last:])
    return "".join(res)


def to_model(src, root):
    """The substitutions of the standard library's heap types by their models."""
    src = sub_code(src, r"\.to_string\(\)", ".m_to_string()")
    src = sub_code(src, r"\.(to_owned|to_vec|to_lowercase|to_uppercase|join|concat|repeat)\(", r".m_\1(")
    src = sub_code(src, r"(?<![\w:!])(?:std::)?format!", "mstd::format!")
    src = sub_code(src, r"(?<![\w:!])(?:std::)?vec!", "mstd::vec!")
    src = sub_code(src, r"(?<!\w)ToString::to_string(?!\w)", "MToString::m_to_string")
    src = sub_code(src, r"(?<!\w)(str|String)::(to_string|to_owned|to_lowercase|to_uppercase)(?!\w)", r"\1::m_\2")
    # Every inline module needs the prelude too.
    src = sub_code(src, r"(\bmod\s+\w+\s*\{)", r"\1 " + MARK)
    src += "\n" + MARK + "\n"
    if root:
        src += "extern crate mstd as std;\n"
    return src


def copy_runtime(dst):
    """/repo/structmeta, its sources transformed, as crate `structmeta` over the models."""
    srcdir = os.path.join(REPO, "structmeta/src")
    keep = set()
    for base, _, files in os.walk(srcdir):
        for f in files:
            if not f.endswith(".rs"):
                continue
            rel = os.path.relpath(os.path.join(base, f), srcdir)
            keep.add(rel)
            text = open(os.path.join(base, f)).read()
            # doc includes and the like are irrelevant here
            text = re.sub(r'#!?\[doc\s*=\s*include_str!\([^)]*\)\]', "", text)
            write(os.path.join(dst, "src", rel), to_model(text, rel == "lib.rs"))
    for base, _, files in os.walk(os.path.join(dst, "src")):
        for f in files:
            if os.path.relpath(os.path.join(base, f), os.path.join(dst, "src")) not in keep:
                os.unlink(os.path.join(base, f))
    dep = "\n".join(
        f'{n} = {{ package = "model-{n.replace("_", "-")}", path = "{VERIF}/model/{n}" }}'
        for n in ("proc_macro2", "quote", "syn", "mstd"))
    write(os.path.join(dst, "Cargo.toml"), f"""[package]
name = "model-structmeta"
version = "0.0.0"
edition = "{edition('structmeta')}"
[lib]
name = "structmeta"
doctest = false
[dependencies]
structmeta-derive = {{ path = "{REPO}/structmeta-derive" }}
{dep}
""")


def edition(crate):
    for p in (f"{REPO}/{crate}/Cargo.toml", f"{REPO}/Cargo.toml"):
        m = re.search(r'^edition\s*=\s*"(\d+)"', open(p).read(), re.M)
        if m:
            return m.group(1)
    return "2021"


# ---------------------------------------------------------------- building

KANI_FLAGS = ["-Z", "stubbing", "-Z", "unstable-options", "--no-memory-safety-checks",
              "--no-assertion-reach-checks", "--only-codegen"]


def codegen(crate, target):
    """Compile the crate in `crate` with Kani; returns its harnesses' metadata."""
    name = re.search(r'^name = "(.*)"', open(os.path.join(crate, "Cargo.toml")).read(), re.M).group(1)
    for d in glob.glob(f"{target}/kani/*/debug/build/{name}"):
        shutil.rmtree(d)
    for d in glob.glob(f"{target}/kani/*/debug/deps/{name}*") + glob.glob(f"{target}/kani/*/debug/deps/lib{name}*"):
        os.unlink(d) if os.path.isfile(d) else shutil.rmtree(d)
    for d in glob.glob(f"{target}/kani/*/debug/.fingerprint/{name}-*"):
        shutil.rmtree(d)
    rc, out, err = sh(["cargo", "kani", "--target-dir", target] + KANI_FLAGS, cwd=crate, timeout=600,
                      env={"RUSTFLAGS": "-Zmir-opt-level=3 -Zinline-mir=yes"})
    if rc != 0:
        return None, out + err
    hs = []
    for f in glob.glob(f"{target}/kani/*/debug/**/{name}*.kani-metadata.json", recursive=True):
        hs += json.load(open(f))["proof_harnesses"]
    return hs, out + err


DIAG = r".*structmeta7helpers.*(3msg|find_similar_name|7name_of)"


def instrument(meta, work, havoc):
    """The goto program of one harness, ready for CBMC."""
    src = meta["goto_file"]
    m = meta["mangled_name"]
    g = os.path.join(work, "g.out")
    lib = os.path.join(os.path.dirname(KANI), "library/kani/kani_lib.c")
    cmds = [[tool("goto-cc"), src, lib, "--function", m, "-o", g],
            [tool("goto-instrument"), "--add-library", "--no-malloc-may-fail", g, g]]
    for c in cmds:
        rc, out, err = sh(c, timeout=300)
        if rc != 0:
            raise Stop(f"{c[0]} failed: {out[-500:]}{err[-500:]}")
    fs = set()
    if havoc:
        fs = {f for f in re.findall(r"_R\w+", open(g, "rb").read().decode("latin-1")) if re.fullmatch(havoc, f)}
    if fs:
        c = [tool("goto-instrument")]
        for f in sorted(fs):
            c += ["--remove-function-body", f]
        sh(c + [g, g], timeout=120)
        sh([tool("goto-instrument"), "--generate-function-body-options", "nondet-return",
            "--generate-function-body", "|".join(sorted(fs)), g, g], timeout=120)
    c = [tool("goto-instrument"), "--generate-function-body-options",
         "assert-false-assume-false", "--generate-function-body", ".*",
         "--drop-unused-functions", "--ensure-one-backedge-per-target", g, g]
    rc, out, err = sh(c, timeout=300)
    if rc != 0:
        raise Stop(f"goto-instrument failed: {out[-500:]}{err[-500:]}")
    return g


CBMC = ["--no-malloc-may-fail", "--no-undefined-shift-check", "--no-signed-overflow-check",
        "--no-bounds-check", "--no-pointer-check", "--no-self-loops-to-assumptions",
        "--no-pointer-primitive-check", "--no-div-by-zero-check",
        "--object-bits", "16", "--unwinding-assertions", "--slice-formula", "--verbosity", "8"]


def loops(g):
    """Loop identifiers, each with the name its unwinding assertion goes by."""
    rc, out, err = sh([tool("cbmc"), "--show-loops", "--json-ui", g], timeout=120)
    r = {}
    for e in json.loads(out):
        for l in e.get("loops", []):
            n = l["name"]
            r[n] = f"{l.get('sourceLocation', {}).get('function')}.unwind.{n.rsplit('.', 1)[1]}"
    return r


def bound_for(loop, hints):
    for pat, b in hints:
        if re.search(pat, loop):
            return b
    return None


def solve(meta, hints, havoc, budget, default_unwind=3, keep=None, solver="cadical", mem=10 << 30):
    """Decide every assertion of one harness."""
    work = tempfile.mkdtemp(prefix="vf-", dir=os.path.join(BUILD, "tmp"))
    t0 = time.time()
    try:
        g = instrument(meta, work, havoc)
        t_inst = time.time() - t0
        bounds = {}
        ids = loops(g)
        for l in ids:
            b = bound_for(l, hints)
            bounds[l] = b or default_unwind
        raised = {}
        for attempt in range(12):
            left = budget - (time.time() - t0)
            if left < 5:
                return dict(status="timeout", wall=time.time() - t0, raised=raised)
            cmd = [tool("cbmc")] + CBMC + ["--sat-solver", solver, "--unwind", str(default_unwind),
                   "--trace", "--json-ui"]
            if bounds:
                cmd += ["--unwindset", ",".join(f"{l}:{b}" for l, b in bounds.items())]
            rc, out, err = sh(cmd + [g], timeout=left, mem=mem)
            if rc == 124:
                return dict(status="timeout", wall=time.time() - t0, raised=raised)
            r = digest(out)
            if r is None:
                return dict(status="error", text=(out[-1500:] + err[-500:]), rc=rc,
                            wall=time.time() - t0, raised=raised)
            if havoc:
                # An abstracted function may return a value that is none of its type's: the
                # compiler's own `unreachable` marks there, and the path ends.
                r["failed"] = [p for p in r["failed"] if not re.search(r"\.unreachable\.\d+$", p["property"])]
                if r["status"] == "fail" and not r["failed"]:
                    r["status"] = "ok"
            r.update(wall=time.time() - t0, instrument_s=t_inst, bounds=bounds, raised=raised)
            if keep:
                shutil.copy(g, keep)
            short = [p for p in r["failed"] if ".unwind." in p["property"] or "recursion" in p["property"]]
            if not short:
                return r
            real = [p for p in r["failed"] if p not in short]
            if real and any("CLAIM" in p["description"] for p in real):
                return r
            progress = False
            for p in short:
                for l, assertion in ids.items():
                    if assertion != p["property"] and l.replace(".", ".unwind.") != p["property"]:
                        continue
                    if bounds.get(l, default_unwind) < 40:
                        bounds[l] = bounds.get(l, default_unwind) + 2
                        raised[l] = bounds[l]
                        progress = True
            if not progress:
                r["status"] = "unwind"
                return r
        return dict(status="unwind", wall=time.time() - t0, raised=raised)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def digest(out):
    try:
        j = json.loads(out)
    except ValueError:
        return None
    res = None
    stats = dict(symex_s=0.0, solver_s=0.0, steps=0, vccs=0, vars=0, clauses=0)
    for e in j:
        t = e.get("messageText", "")
        m = re.search(r"Runtime Symex: ([\d.e-]+)s", t)
        if m:
            stats["symex_s"] += float(m.group(1))
        m = re.search(r"Runtime decision procedure: ([\d.e-]+)s", t)
        if m:
            stats["solver_s"] += float(m.group(1))
        m = re.search(r"size of program expression: (\d+) steps", t)
        if m:
            stats["steps"] = int(m.group(1))
        m = re.search(r"Generated (\d+) VCC\(s\), (\d+) remaining", t)
        if m:
            stats["vccs"] = int(m.group(2))
        m = re.search(r"(\d+) variables, (\d+) clauses", t)
        if m:
            stats["vars"], stats["clauses"] = int(m.group(1)), int(m.group(2))
        if "result" in e:
            res = e["result"]
    if res is None:
        return None
    failed, covers, claims = [], [], 0
    for p in res:
        is_cover = p["property"].find(".cover.") >= 0 or p["description"].startswith("cover ")
        if is_cover:
            covers.append((p["description"], p["status"] == "FAILURE"))
            continue
        claims += 1
        if p["status"] == "FAILURE":
            failed.append(dict(property=p["property"], description=p["description"],
                               loc=p.get("sourceLocation", {}), wit=witness(p.get("trace", []))))
        elif p["status"] != "SUCCESS":
            return None
    return dict(status="fail" if failed else "ok", failed=failed, covers=covers, claims=claims, stats=stats)


def witness(trace):
    """The values the harness stored in its static `WIT`."""
    w = {}
    for s in trace:
        if s.get("stepType") != "assignment":
            continue
        l = s.get("lhs", "")
        m = re.match(r".*3WIT\[(?:.*/\*)?\s*(\d+)(?:l|ul|u)*\s*(?:\*/)?\s*\]$", l)
        if m and "value" in s:
            v = s["value"]
            if "binary" in v:
                w[int(m.group(1))] = int(v["binary"], 2)
    if not w:
        return None
    return [w.get(i, 0) for i in range(max(w) + 1)]
